COMMON = (" All obligations are discharged for all inputs of the stated shape with no bound on sizes, iterations or "
          "values. Trusted: the pyvc generator and its models of numpy/struct/file objects, z3/cvc5, CPython and numpy.")

prop("C01", "Loading block by block returns the bytes of the file at their place",
     "Loading data lazily, in blocks of any size and in any memory order, gives exactly the array that reading the "
     "file in one piece gives: every element comes from its own place in the file, also when the frames are stored "
     "at arbitrary scan positions, where missing positions read as zero.",
     ["inputs", "configurations"],
     "all shapes, dtypes, offsets, memory orders, record layouts, chunk specifications and scan position lists",
     "Tests load a few files with a handful of chunk specifications; the guarantee must hold for every combination "
     "of shape, block boundaries, record layout and scan positions.",
     [U + "_distributed.py", U + "_tools.py", "rsciio/numpy/_api.py", "rsciio/pantarhei/_api.py", "rsciio/empad/_api.py"],
     [("block bounds", U + "_distributed.py:get_chunk_slice"), ("frame positions", U + "_distributed.py:get_arbitrary_chunk_slice"),
      ("one block", U + "_distributed.py:slice_memmap"), ("task graph", U + "_distributed.py:memmap_distributed")],
     "Proved: block bounds are prefix sums and tile each axis; one block returns exactly its part of the mapped file; "
     "the position map holds the last frame at each position; the task graph passes shape, dtype, offset and order "
     "through. Rank enumerated 1-5. Assumes dask's normalize_chunks/map_blocks and numpy.memmap." + COMMON)

prop("C02", "Chunk shapes chosen for storage are valid and hold whole signals",
     "The chunk shape chosen for storing a signal in the hierarchical formats has one size per axis, each between one "
     "and the size of that axis; the signal axes are never split; and a chunk holds no more than the target number of "
     "bytes unless it is a single signal. Without signal axes, or for empty data, the choice is left to the library.",
     ["inputs", "configurations"],
     "all shapes, positions of the signal axes, item sizes and target sizes",
     "Tests compute chunks for a few shapes; a chunk of size zero, or larger than its axis, appears only for particular "
     "combinations of sizes.",
     ["rsciio/_hierarchical.py"],
     [("chunk shapes", "rsciio/_hierarchical.py:get_signal_chunks")],
     "Proved for 0 to 3 navigation axes and 0 to 2 signal axes (enumerated) with unbounded sizes; floating point root "
     "and quotient are exact reals in the proof." + COMMON)

prop("C03", "Event stream spectrum images count every detected event exactly once",
     "Decoding a detector event stream gives a spectrum image in which every event of the selected frames is counted "
     "exactly once, in the pixel and energy channel it belongs to, for dense and sparse decoding, any frame "
     "selection, any energy rebinning and frames summed or kept apart. Encoding a spectrum image as a stream and "
     "decoding it gives the image back.",
     ["inputs", "configurations"],
     "all event streams, image shapes, channel counts, frame ranges, rebinning factors, dense/sparse, summed/not",
     "Tests decode a few recorded files with a few frame ranges; the count must be right for every stream.",
     [U + "_fei_stream_readers.py", "rsciio/emd/_emd_velox.py"],
     [("dense decoding", U + "_fei_stream_readers.py:stream_to_array"),
      ("sparse decoding", U + "_fei_stream_readers.py:stream_to_sparse_COO_array"),
      ("encoding", U + "_fei_stream_readers.py:array_to_stream")],
     "Proved on the Python bodies of the decoders (the numba compiler is trusted) against an event-count "
     "specification, by loop invariants over the stream." + COMMON)

prop("C04", "JEOL event streams count every event of the chosen frames exactly once",
     "Reading a JEOL .pts stream gives a spectrum image in which every X-ray event of the chosen frames is counted "
     "exactly once, in its pixel (after downsampling and the shift of its frame) and its rebinned channel, whether "
     "frames are summed or kept apart and whether the image is dense or lazy; the electron image adds up the same "
     "frames; incomplete frames are left out when asked for; the axes have the sizes of the arrays. Counts that do "
     "not fit the data type are an error.",
     ["inputs", "configurations"],
     "all event streams, image sizes, frame lists, frame shifts, rebinning, downsampling, summed/apart, dense/lazy",
     "Tests read two recorded square maps; other shapes, several lazy frames and shifted frames are never compared "
     "with a count of the events.",
     ["rsciio/jeol/_api.py"],
     [("one frame", "rsciio/jeol/_api.py:_readframe_dense, _readframe_lazy"), ("finding frames", "rsciio/jeol/_api.py:_skip_frame"),
      ("frames put together", "rsciio/jeol/_api.py:_readcube"), ("sizes and axes", "rsciio/jeol/_api.py:_read_pts")],
     "Proved on the Python bodies (numba trusted): one frame, dense and sparse, by loop invariants over the words; "
     "finding and adding frames for any list of frames. Assembling the sparse array and the axes are bounded "
     "(concrete search only)." + COMMON)

prop("C05", "Binary field readers and writers decode and encode the stated bytes",
     "Every elementary field reader returns the value that its bytes encode in the requested byte order and leaves the "
     "file just behind the field; a truncated field or an unknown byte order is an error, never a wrong value. Every "
     "field writer writes exactly the bytes that read back as the value, padded or cut to the width of the field, and "
     "rejects values that do not fit.",
     ["inputs"], "all byte contents, both byte orders, all field widths and values",
     "Tests read a few fields of valid files; the codecs must be right for all byte patterns.",
     [U + "_readfile.py", "rsciio/tia/_api.py", "rsciio/digitalsurf/_api.py", "rsciio/semper/_api.py"],
     [("field readers", U + "_readfile.py:read_*"), ("TIA fields", "rsciio/tia/_api.py:readLE*, get_lengths"),
      ("digitalsurf fields", "rsciio/digitalsurf/_api.py:_get_*/_set_*"),
      ("Semper label floats", "rsciio/semper/_api.py:pack_to_intbytes")],
     "Proved for all byte contents; IEEE 754 encode/decode are uninterpreted inverse functions in the proofs." + COMMON)

prop("C06", "Colour images keep their colours in every representation",
     "Converting an array of components (last dimension 3 or 4, 8 or 16 bit) to a colour array and back gives the same "
     "components, whatever the number of dimensions, the memory layout, masked or lazy; component c of each pixel is the "
     "field R, G, B or A; for plots, 16-bit components are divided by 65535; arrays that hold no colours are refused or "
     "returned as they are. A colour image saved as png (8 bit) or tiff is read back, lazily or not, with the same "
     "colours; it is taken for grayscale only if its three colour channels agree in every pixel.",
     ["inputs"], "all shapes, component values, memory layouts and the four colour types",
     "Tests convert one random array and read a few images; images in which some channels agree, transposed arrays or "
     "narrow images are not among them.",
     [U + "rgb.py", "rsciio/image/_api.py", "rsciio/tiff/_api.py"],
     [("conversion", U + "rgb.py:rgbx2regular_array, regular_array2rgbx"), ("image files", "rsciio/image/_api.py:_read_data")],
     "Proved for all values and sizes; 1 to 4 dimensions enumerated. imageio, tifffile are trusted in the proof (the "
     "search runs them)." + COMMON)

prop("C07", "Digital Micrograph tag trees are read tag by tag, without losing the place",
     "For every well formed tag file of either supported version and byte order, each tag's value is the value its "
     "bytes encode, payloads that are skipped are recorded with their exact place and size, and after every tag the "
     "reader stands exactly at the end of that tag, so that later tags are read from the right place. Other versions "
     "are refused.",
     ["inputs"], "all tag trees: any nesting, names, payload kinds, element types and lengths, both versions and byte orders",
     "Tests read recorded files that use a few payload kinds; arrays of strings or of arrays never occur in them.",
     ["rsciio/digitalmicrograph/_api.py", U + "_readfile.py"],
     [("tag loop", "rsciio/digitalmicrograph/_api.py:parse_tags"), ("payloads", "rsciio/digitalmicrograph/_api.py:read_array, "
      "read_struct, read_string, read_simple_data"), ("framing", "rsciio/digitalmicrograph/_api.py:parse_header, "
      "parse_tag_group, parse_tag_header, parse_struct_definition")],
     "Proved: the tag loop for any number of tags with the payload readers by contract, each payload reader for any "
     "length, skipped or not. The recursion of nested groups is by the loop's own contract." + COMMON)

prop("C08", "Dates and times keep denoting the same moment",
     "A serial date (days since 1899-12-30, of any sign) converts to the moment it denotes and back; a date and time in "
     "any time zone converts to the serial date of that moment (UTC if no zone is given), also when given as ISO texts "
     "with a zone name or a numeric offset; ISO texts made from a serial date denote the same moment in local time; the "
     "date, time and time zone of the metadata are returned unchanged as ISO text, datetime or (local) datetime64. "
     "Accurate to the rounding of a 64-bit floating point number of days.",
     ["inputs", "configurations"], "all moments of years 1 to 9999, all time zones of the local computer and of the texts",
     "Tests convert three dates; dates before the origin, fractions of a second and other local time zones are not tried.",
     [U + "_date_time.py"],
     [("serial dates", U + "_date_time.py:serial_date_to_datetime, datetime_to_serial_date"),
      ("ISO texts", U + "_date_time.py:serial_date_to_ISO_format, ISO_format_to_serial_date"),
      ("metadata", U + "_date_time.py:get_date_time_from_metadata")],
     "Proved with exact (real) arithmetic for all moments and zones; rounding is checked by the search only; dateutil is "
     "trusted." + COMMON)

prop("C09", "File name helpers protect existing files",
     "incremental_filename returns the given name if nothing of that name exists, and otherwise the name with the first "
     "free number from the given one appended, in the same directory and with the same extension: never the name of an existing file or "
     "directory. overwrite returns True only if there is nothing to overwrite or the user answered yes; it asks for "
     "existing files and zspy directories. ensure_directory leaves existing files alone.",
     ["inputs", "histories"], "all names, contents of the directory and sequences of answers",
     "Tests try two existing files; names that are directories, gaps in the numbering or repeated answers are not tried.",
     [U + "path.py"],
     [("free names", U + "path.py:incremental_filename, append2pathname"), ("consent", U + "path.py:overwrite")],
     "Proved with an arbitrary file system; the recursion over the numbers by contract; answers enumerated." + COMMON)

prop("C10", "Reading a file runs no code that the file contains",
     "Loading a file never runs code that it contains: arrays are loaded by numpy without pickles, the pickled metadata of old prz files is "
     "read only when the user asks for it and then by an unpickler that gives only the names of its white list (arrays, numpy data types and "
     "scalars, bytes) and raises InvalidPickleError for any other name, and text of a file is never evaluated as Python code. "
     "Metadata that numpy saved is still loaded.",
     ["inputs"], "all pickle streams, module and attribute names, JSON and npy members, texts in XML and netCDF files",
     "Tests load one honest prz file and one refused name; the white list must hold for every name and the restriction for every file.",
     ["rsciio/pantarhei/_restricted_unpickling.py", "rsciio/pantarhei/_api.py", "rsciio/netcdf/_api.py", "rsciio/utils/xml.py", "rsciio/numpy/_api.py"],
     [("white list", "rsciio/pantarhei/_restricted_unpickling.py:RestrictedUnpickler.find_class"),
      ("pickles", "rsciio/pantarhei/_restricted_unpickling.py:read_pickled_array; rsciio/pantarhei/_api.py:file_reader"),
      ("evaluated text", "rsciio/netcdf/_api.py:nc_hyperspy_reader_0dot1; rsciio/utils/xml.py:XmlToDict.eval")],
     "Proved for arbitrary module and attribute names. That no other function of a reader uses a primitive that runs code is an "
     "obligation per module, decided on its syntax." + COMMON)

prop("C11", "Signals saved to hspy or zspy files are read back unchanged",
     "A signal saved in the hspy or zspy format and read again, lazily or not, has the same data (dtype, shape and "
     "values, also ragged arrays), the same axes in the same order, and the same title, metadata, original metadata, "
     "learning results, attributes and models, with every nested dictionary, list, tuple, number, text, bytes, None, "
     "array and signal at its place, and saving does not change the signal. Writing again with write_dataset=False keeps the "
     "data and replaces the axes and metadata. Outside the guarantee: other names with the prefixes the format reserves, "
     "texts with null characters or equal to '_None_', lists mixing numbers and texts, bytes that are valid text (they "
     "come back as text), object arrays that are not ragged, numbers beyond 64 bits.",
     ["inputs", "configurations", "histories"],
     "all signals, nested metadata of any depth and length, both formats, lazy or not, chunking and compression options",
     "Tests save a few metadata values one by one; long lists, nested containers and unusual names combine freely.",
     ["rsciio/_hierarchical.py", "rsciio/hspy/_api.py", "rsciio/zspy/_api.py"],
     [("nested values", "rsciio/_hierarchical.py:HierarchicalWriter.dict2group, parse_structure; HierarchicalReader._group2dict"),
      ("whole signal", "rsciio/_hierarchical.py:HierarchicalWriter.write_signal, HierarchicalReader.group2signaldict"),
      ("ragged data", "rsciio/_hierarchical.py:flatten_data, unflatten_data, HierarchicalWriter.overwrite_dataset")],
     "Proved: writer composed with reader, for every kind of value, with the recursion by contract (induction over the "
     "nesting); lists and tuples of mixed values enumerated up to 101 elements; names and values arbitrary. h5py, zarr, "
     "dask storage is trusted in the proof (the search runs it)." + COMMON)

prop("C12", "MRC files have the pixels and axes their header or info file describes",
     "An MRC file of any dimensions, element type (modes 0, 1, 2, 4, 6, 12; others are refused) and byte order gives the data that "
     "begin behind its header and extended header, slowest dimension first, without singleton dimensions, lazily or not; "
     "a navigation shape given by the user takes the place of the slowest dimension. Each axis has the size, name, unit, scale "
     "(length / intervals, 1 where there are none) and offset (origin) of its own dimension, in nm, or the pixel size of the FEI "
     "extended header. For movies of Direct Electron cameras the scan shape, the place of each frame (raster or list of "
     "positions, repeated positions behind each other) and the calibrated pixel sizes of scan and pattern are those of the info "
     "file, and each virtual or external image is found under its own name, whatever the order of the directory.",
     ["inputs", "configurations"],
     "all sizes, calibrations, origins and extended header sizes; modes, byte orders, singleton dimensions and kinds of movie enumerated",
     "Tests read one FEI file and a few movies, all little-endian; other byte orders, extended headers and singleton dimensions, "
     "and the calibration of movies, are not looked at.",
     ["rsciio/mrc/_api.py"],
     [("header and axes", "rsciio/mrc/_api.py:file_reader, get_std_dtype_list, get_fei_dtype_list, get_data_type"),
      ("movies", "rsciio/mrc/_api.py:read_de_metadata_file"), ("related files", "rsciio/mrc/_api.py:find_related_de_files")],
     "Proved: header fields by their place in the file, offset, dimensions and axes for any values; movies with an info file with "
     "any numbers in it. Custom scans and the virtual images by bounded search. memmap_distributed by its contract (C01)." + COMMON)

prop("C13", "Frames saved to TVIPS files keep their pixels and place in the scan",
     "A signal of frames of unsigned integers (any size, byte order, up to three navigation axes, lazy or not) saved to TVIPS "
     "files, in one file or in parts of limited size (largest size given), with or without extra bytes in the frame headers, is read "
     "back, lazily or not, as a stack of the same frames in the same order; no part is larger than asked for (or than its first frame needs). A scan shape "
     "and first frame give every position of the scan the frame with its number (with every other line or column reversed and "
     "shifted by the hysteresis for winding scans), and a scan that does not lie in the frames is refused. The pixel size and offsets (in whole nm or 1/nm), "
     "start time and time between frames (to one millisecond), date, stage position and tilts, beam current and energy, and "
     "the kind of image are those of the signal; other data types are refused and leave no file.",
     ["inputs", "configurations"],
     "all numbers and sizes of frames, parts, scans, first frames and hysteresis; element types, units and dates enumerated",
     "Tests write one small stack per option and read it back as a whole; parts of several sizes, single frames, byte orders "
     "and scans that start inside a later part are not looked at.",
     ["rsciio/tvips/_api.py"],
     [("writing", "rsciio/tvips/_api.py:file_writer, _get_main_header_from_signal, _get_frame_record_dtype_from_signal"),
      ("reading", "rsciio/tvips/_api.py:file_reader, _is_valid_first_tvips_file")],
     "Loop invariants over the parts written and read (frames saved so far, names of the files); frames as functions of their number." + COMMON)

prop("C14", "MIB files have the frames and the scan their headers describe",
     "A mib file (one or several chips; 1, 2 or 4 bytes per pixel), or a buffer with its bytes, gives every frame asked for by first "
     "and last frame (negative ones count from the end) and no other, with its rows and columns; an incomplete frame at the end is "
     "ignored. A navigation shape with no more elements than frames gives a scan of that shape; a scan longer than the file gives "
     "its complete lines when it is read from its beginning, and everything else a stack of frames. Without navigation shape the frames per "
     "line are those of the hdr file, or those found from the gap of the timestamps after each line; the rows of a frame of the signal "
     "are in reverse order. Exposures (ms), timestamps and headers are those of the same frames; date, time, dwell time and "
     "the entries of the hdr file are those of the files, wherever they lie.",
     ["inputs", "configurations"],
     "all frame sizes and counts, file sizes, scans, frame ranges, timestamps, hdr files; headers, element types and entry points enumerated",
     "Tests read a few recorded scans with first and last frames of one kind; buffers of several chips, interrupted scans with a "
     "last frame, and all frames of a file are not looked at.",
     ["rsciio/quantumdetector/_api.py"],
     [("frames", "rsciio/quantumdetector/_api.py:load_mib_data"), ("headers", "rsciio/quantumdetector/_api.py:MIBProperties.parse_file, parse_exposures, parse_timestamps"),
      ("signal", "rsciio/quantumdetector/_api.py:file_reader, parse_hdr_file")],
     "Proved for all frame and file sizes, ranges and scans of one to three dimensions." + COMMON)

prop("C15", "Signals saved to ripple files are read back unchanged",
     "A signal with one or two signal axes and up to three dimensions in a data type of the ripple format, saved as rpl "
     "and raw file and read again, lazily or not, has the same data (values, data type, byte order), the same name, "
     "scale, offset, units and kind of every axis with more than one element, the same title, date, time and signal "
     "type, and the same values of the instrument for EELS and EDS signals; dimensions of length one are dropped, and "
     "navigation axes come first. Raw data of other programs is read as its header says: record order, sizes, offset, data type "
     "and byte order. Outside the guarantee: names and texts with tabs, line breaks, semicolons, outer blanks or "
     "characters the encoding lacks, '<undefined>' as units.",
     ["inputs", "configurations"],
     "all sizes, data types, byte orders, orders of the axes, calibrations, texts, signal types and instrument values",
     "Tests save a few shapes of little-endian data; lengths of one, big-endian data, missing units and other orders of "
     "the axes are not sampled.",
     ["rsciio/ripple/_api.py"],
     [("header", "rsciio/ripple/_api.py:write_rpl, parse_ripple"), ("data", "rsciio/ripple/_api.py:write_raw, read_raw"),
      ("whole signal", "rsciio/ripple/_api.py:file_writer, file_reader")],
     "Proved: the writer composed with the reader on the text of the header as pieces and unknown atoms, sizes unbounded, "
     "positions of the axes, data types and signal types enumerated; element-wise equality of the data. memmap_distributed "
     "by its contract (C01)." + COMMON)

prop("C16", "Diffraction patterns saved to blockfiles are read back unchanged",
     "A scan of square diffraction patterns (no, one or two navigation axes, uint8) saved as a blockfile and read again, "
     "with the same endianness, lazily or not, has every pixel of every frame where it was, one navigation axis for each "
     "scan dimension with more than one frame, with its scale in nm, and two signal axes whose scale is that of the signal to "
     "half a pixel per metre (the header holds whole pixels per metre in 16 bits). Length units that can be "
     "converted to nm and cm are. The virtual bright field image stored in the file is the one given, that of the signal, "
     "the mean of each frame or zero; the magic and the serial number of each frame, the places in the header, the notes "
     "(as far as they fit) and the other values of the header of a signal that came from a blockfile are kept. With "
     "intensity scaling the data and the navigator are scaled from the same range. Saving leaves the axes of the signal "
     "as they were. Frames missing at the end of a file read as zero, and frames beyond those the header announces are ignored.",
     ["inputs", "configurations"],
     "all scan sizes up to 65535 x 65535, patterns, calibrations, byte orders, headers, notes, navigators, numbers of frames in the file",
     "Tests save a few small scans; line scans and single patterns, big-endian files, other units and calibrations, and "
     "incomplete files of other shapes are not sampled.",
     ["rsciio/blockfile/_api.py", U + "_array.py"],
     [("header", "rsciio/blockfile/_api.py:get_header_from_signal, get_default_header"), ("saving", "rsciio/blockfile/_api.py:file_writer"),
      ("reading", "rsciio/blockfile/_api.py:file_reader"), ("records", U + "_array.py:dict2sarray, sarray2dict")],
     "Proved: the writer composed with the reader on a file made of pieces (records, arrays, frames), any number of rows "
     "and columns of frames; pattern sizes, endianness, navigators, notes and units enumerated. memmap_distributed by its "
     "contract (C01)." + COMMON)

prop("C17", "Signals saved to Semper files are read back unchanged",
     "A signal with up to three dimensions of 8, 16 or 32 bit signed integers, floats of at most 32 bits or single precision "
     "complex numbers, of either byte order, lazily or not, saved as a Semper file and read again, lazily or not, has its "
     "elements and type (16 bit floats become 32 bit floats), its dimensions with more than one element, and an axis for "
     "each of these with its size, its scale and offset (rounded to 32 bits) and the first four characters of its units "
     "(characters outside 15 bits become question marks). The title (its first 999 bytes, cut at a whole character) and the "
     "date and time to the second are kept. The file has the layout of the format: little-endian header, title, label and "
     "rows as records with their length before and after, rows of an odd number of bytes padded, sizes, centres, class "
     "and form in header and label. Signals of other element types or with more dimensions are refused before a file is touched.",
     ["inputs", "configurations"],
     "all sizes up to 32767 in each dimension, element types and byte orders, calibrations, dimensions of one element, lazy or not",
     "Tests save a few float images; odd rows of bytes, other byte orders, stacks with calibrated layers and texts that are "
     "long or not ASCII are not sampled.",
     ["rsciio/semper/_api.py", U + "_array.py"],
     [("writing", "rsciio/semper/_api.py:SemperFormat.from_signal, save_to_unf, _get_label"),
      ("reading", "rsciio/semper/_api.py:SemperFormat.load_from_unf, _read_label, to_dictionary; _read_data"),
      ("element types", "rsciio/semper/_api.py:SemperFormat._check_format")],
     "Proved: the writer composed with the reader on a file made of pieces, any number of layers, rows and columns; "
     "every piece written and read is accounted for, loops cut with an invariant for the place in the file. Titles, dates "
     "and units enumerated." + COMMON)

prop("C18", "EMD (NCEM) files are read as they say and saved signals are read back",
     "A signal saved as an EMD file (NCEM variant) and read again, lazily or not, has its elements, element type and axes in "
     "the same order (texts of ASCII characters, RGB records, booleans and complex numbers of either byte order included), the "
     "name (none becomes empty), size, offset and scale (to the accuracy of offset + scale) of every axis - also axes of one element -, its units as pint writes them (none stay none), "
     "its title (of characters a group name can have; none stays none) and the values of the microscope, sample, user and comments that HDF5 attributes can hold; "
     "values they cannot hold are left out without hindering the rest, and the file is closed. The file has the layout of the "
     "format: group with title and type, data and dim1..dimN in reversed order, chunks that are those of lazy data, those asked "
     "for, or hold whole signals. Files of other programs give one signal for every dataset asked for, or for all, with its own "
     "data and calibration, whatever the names of the groups; only the numbered groups of a simulation are stacked, in order, "
     "along the depth of the simulation.",
     ["inputs", "configurations"],
     "all sizes and calibrations; 1-5 axes, element types, titles, metadata, names and numbers of groups enumerated",
     "Tests save a few small signals with full calibrations and read six sample files; axes of one element, names contained in "
     "others, missing units and chunks are not sampled.",
     ["rsciio/emd/_emd_ncem.py", "rsciio/emd/_api.py"],
     [("writing", "rsciio/emd/_emd_ncem.py:EMD_NCEM.write_file, _write_signal_to_group, _write_attributes"),
      ("reading", "rsciio/emd/_emd_ncem.py:EMD_NCEM.read_file, find_dataset_paths, _read_data_from_groups, _parse_axis, _parse_attribute"),
      ("interface", "rsciio/emd/_api.py:file_writer, file_reader, is_EMD_NCEM")],
     "Proved: the writer composed with the reader on a model of HDF5, and the reader on the files of other programs and of "
     "simulations, for any sizes and values of the axes; numbers of axes and groups, types and texts enumerated." + COMMON)

prop("C19", "Images of Digital Micrograph files have the pixels and axes of the file",
     "Every image of a dm3/dm4 file but the thumbnails becomes one signal, in the order of the file. Its data have the "
     "dimensions of the file (slowest first), the element type of the image's data type and the byte order of the file, and "
     "hold at each place the element that lies there in the file - read at once or lazily, in C or Fortran order, with the "
     "file still open or closed; RGBA images keep each colour, and old packed complex images are unfolded to the Hermitian "
     "array they stand for. Each axis has the size, scale, units and offset (minus origin times scale) of its dimension, "
     "uncalibrated dimensions scale 1 and offset 0; the energy or wavelength axis of EELS, EDS and CL data is named so; "
     "spectra, spectrum images and images get their signal and navigation axes. Title, signal type and tags are those of the "
     "image itself, and the values of the microscope are found with their conversions (V to kV, um to mm, us to s).",
     ["inputs", "configurations"],
     "all dimensions, calibrations and places of the data; data types, byte orders, kinds of signal, numbers of images enumerated",
     "Tests read a few sample files, all little-endian and with standard tags; other byte orders, files with several images, "
     "partly calibrated stacks and EDS maps are not among them.",
     ["rsciio/digitalmicrograph/_api.py"],
     [("axes", "rsciio/digitalmicrograph/_api.py:ImageObject.shape, scales, offsets, units, names, navigate, get_axes_dict"),
      ("pixels", "rsciio/digitalmicrograph/_api.py:ImageObject.get_data"), ("images", "rsciio/digitalmicrograph/_api.py:file_reader, get_image_dictionaries"),
      ("instrument", "rsciio/digitalmicrograph/_api.py:ImageObject.get_mapping")],
     "Proved: axes for any sizes and calibrations, pixels for any dimensions and offset (1-4 dimensions; 11 data types, 3 orders, "
     "2 byte orders enumerated), the loop over the images, and the mapping of the instrument's values. RGBA and packed complex "
     "images by bounded search. Reading the tags themselves is C07, memmap_distributed C04." + COMMON)

prop("C20", "Spectra saved to MSA files are read back unchanged",
     "A spectrum saved as an MSA file, with the format 'Y' or 'XY' and values separated by a comma or a blank, and read "
     "again has the same values (as float64, to the last digit), the same size, scale, offset, name and units of the axis, "
     "the same title, date and time (to the second), the same signal type (EELS, CL, EDS_TEM for beam energies above 30, "
     "EDS_SEM otherwise, or none) and the same values of the instrument and the sample that the format has keywords for. "
     "The file is in the format asked for (or that of the file the spectrum came from), with one line for each point, its position first in 'XY'. "
     "Saving leaves the signal and its metadata as they were, and neither saving nor reading changes how other files are "
     "saved or read; other keywords of a spectrum that came from an MSA file are kept. Files of other programs with "
     "several values on a line are read completely, and their dates as the format writes them. Outside the guarantee: "
     "texts with line breaks, tabs, outer blanks, more than 63 blanks in a row or characters the encoding lacks, and "
     "integers that float64 does not hold.",
     ["inputs", "histories", "configurations"],
     "all spectra, calibrations, titles, dates, signal types and instrument values, formats and separators",
     "Tests save three recorded files again; small or large values, long titles, texts with colons and the order of "
     "saving and reading are not sampled.",
     ["rsciio/msa/_api.py"],
     [("saving", "rsciio/msa/_api.py:file_writer"), ("reading", "rsciio/msa/_api.py:parse_msa_string, file_reader")],
     "Proved: the writer composed with the reader on text made of pieces and unknown atoms; the loops over the points are cut "
     "at invariants (the number of points is unbounded); signal types, formats, separators, months and sets of keywords "
     "enumerated; titles as unknown words at listed lengths (bounded: up to 209 characters)." + COMMON)

prop("C21", "The files inside Bruker containers are read byte for byte",
     "Every file that a Bruker container (SFS: bcf, pan) holds is found by its path of directories, whatever the order of the entries "
     "and in whichever and however many chunks the table of files lies; a directory holds exactly its entries. Its content - whole, "
     "block by block, or any piece of it - is that of its chunks in the order of its own table of addresses, however many chunks "
     "that table takes, cut at the size of the file, and decompressed block by block when the container is compressed, whatever the "
     "size of the chunks and wherever they lie. Files that are not containers, and files without the signature of a compressed "
     "file in a compressed container, are refused. Outside the guarantee: empty files, truncated containers, two entries of one name in one directory, "
     "and containers that hold compressed and uncompressed files.",
     ["inputs"],
     "all sizes of files, places of chunks and pieces; chunk sizes of the tables, numbers of entries and trees enumerated",
     "Tests read recorded containers of one chunk size, with few files and short tables; long tables of addresses, "
     "full and not full chunks of the table of files and other orders of the entries are not sampled.",
     ["rsciio/bruker/_api.py"],
     [("files and their tables", "rsciio/bruker/_api.py:SFSTreeItem.__init__, _fill_pointer_table, read_piece, _iter_read_chunks, _iter_read_compr_chunks"),
      ("table of files and directories", "rsciio/bruker/_api.py:SFS_reader.__init__, _setup_vfs, _flat_items_to_dict, get_file")],
     "Proved: what the code reads and appends at each step is the next piece of the file, for any chunk size, place and number of chunks "
     "(loops cut at that invariant); the table of addresses for six chunk sizes and any file size; table of files and trees enumerated." + COMMON)

prop("C22", "TIA (ser/emi) files give the data, calibration and metadata that they hold",
     "A ser file gives each recorded element - spectrum or image, of any of the ten number types and any size, wherever it lies in the file - "
     "at its place in the series or map, image rows from top to bottom; of an interrupted series only the recorded elements or, when "
     "only_valid_data is False and for maps, all, with zeros (nan for real numbers) for those not recorded. Every axis has the size, "
     "scale and units of the file (metres become nm, or 1/nm for diffraction, eV for energies), and its offset is the calibration offset minus "
     "calibration element times delta, in those units. Reading lazily gives the same. An emi file gives every ser file that belongs to it, "
     "in the order of their numbers and whatever the path, each with its own metadata, date and time. Outside the guarantee: files "
     "without dimensions or without recorded elements, more than two dimensions, and the order of the axes of maps of one column, "
     "with one recorded element or without positions.",
     ["inputs", "configurations"],
     "all sizes, calibrations, places and numbers of elements; types, versions, units and acquisition modes enumerated",
     "Tests read recorded files, nearly all with calibration element 0, offset 0 or complete; interrupted maps, maps of one row, "
     "gaps between elements, other ser numbers and several objects are not sampled.",
     ["rsciio/tia/_api.py"],
     [("ser files", "rsciio/tia/_api.py:ser_reader, load_ser_file, load_only_data, get_header_dtype_list, get_data_dtype_list"),
      ("emi files", "rsciio/tia/_api.py:emi_reader, get_xml_info_from_emi, emixml2dtb, _guess_units_from_mode")],
     "Proved: file_reader on a file whose numbers are unknown at every place, for any sizes and offsets; the loop over the elements is cut at "
     "the invariant that the next record is read at its place; structure of the header, types and emi files enumerated." + COMMON)

prop("C23", "Maps of Bruker files hold each count at its pixel and channel, and axes fit them",
     "The compiled parser of Bruker maps (unbcf_fast) counts each pulse of a pixel - 16-bit or 12-bit packed pulses, spectra packed by "
     "instructions with values of 0, 4, 8, 16 or 32 bits and a gain, and the pulses behind them - once, at its pixel and channel, summed over the "
     "pixels that downsampling puts together, leaves out channels behind the cutoff and keeps all others 0, wherever the blocks of the file end and "
     "without reading outside of the blocks in memory; the pure Python parser gives the same map. The map has "
     "ceil(height / downsample) lines and ceil(width / downsample) columns, and all channels, those below an energy, those below the voltage "
     "of the microscope, or those up to the last with counts, as asked by cutoff_at_kV. The axes have these sizes, the pixel size of their own direction times "
     "downsample, and the energy calibration of the map asked for. Outside the guarantee: corrupt files, gains of 2^31 or more.",
     ["inputs", "configurations"],
     "all maps, places of blocks, cutoffs and downsampling factors; types of maps enumerated",
     "Tests read a few recorded maps, with blocks larger than any pixel, mostly one kind of packing, no wide values, square pixels and few maps per file.",
     ["rsciio/bruker/unbcf_fast.pyx", "rsciio/bruker/_api.py"],
     [("compiled parser", "rsciio/bruker/unbcf_fast.pyx:DataStream, bin_to_numpy, unpack_instructed, unpack12bit, unpack16bit, parse_to_numpy"),
      ("maps", "rsciio/bruker/_api.py:BCF_reader.parse_hypermap, bcf_hyperspectra, HyperHeader.estimate_map_depth, get_consistent_min_channels, EDXSpectrum.energy_to_channel"),
      ("pure Python parser", "rsciio/bruker/_api.py:py_parse_hypermap")],
     "Proved on the text of the .pyx, extracted by Cython's own parser: for any pixel and channel of the map the loops over lines, pixels, pulses, bunches and channels are cut at "
     "the invariant that the number of counts is that of what was read so far; reading across blocks for any block size. The pure Python parser is searched only." + COMMON)

prop("C24", "Images saved to TIFF are read back unchanged; vendor calibrations fit their axis",
     "An image (2D), a stack of two or more images (3D) or a colour image saved with file_writer is read back by file_reader with the same pixels and "
     "element type (byte order aside), scales, offsets, units (None becomes an empty text), quantity, gain and offset of the noise and date and time, for any finite numbers - "
     "also scales that are tiny, huge, negative or zero - while the signal given stays as it was; with export_scale=False no calibration is "
     "saved. Files of other programs - FEI, Zeiss, TVIPS, Olympus SIS, JEOL SightX, ImageJ, DigitalMicrograph, Hamamatsu streak cameras, or any when the "
     "resolution is to be read - give each axis (height, width, stack) its own pixel size, offset and units as the file has them, and map the "
     "values of the instrument to their places in the documented units. Reading lazily gives the same; multipage_as_list gives every page with its own tags. "
     "Outside the guarantee: stacks of a single image or more than three dimensions, which are stored folded.",
     ["inputs", "configurations"],
     "all sizes, scales, offsets, gains and values of the instrument; units, dates, element types, vendors and layouts enumerated",
     "Tests save a few images and read recorded files, nearly all with square pixels, so that width and height can be swapped, with moderate scales, ASCII units and one page.",
     ["rsciio/tiff/_api.py"],
     [("saving", "rsciio/tiff/_api.py:file_writer, _get_tags_dict, _get_imagej_kwargs, _get_resolution, _get_dm_kwargs_extratag, _get_scale_unit, _imagej_description"),
      ("reading", "rsciio/tiff/_api.py:file_reader, _read_tiff, _load_data, _parse_scale_unit, _order_axes_by_name, _build_axes_dictionaries"),
      ("calibrations of the vendors", "rsciio/tiff/_api.py:_axes_fei, _axes_zeiss, _axes_tvips, _axes_olympus_sis, _axes_jeol_sightx, _axes_hamamatsu_streak, _axes_force_read, _add_axes_imagej, _add_axes_digital_micrograph"),
      ("metadata of the vendors", "rsciio/tiff/_api.py:get_metadata_mapping, mapping_fei, mapping_cz_sem, get_tvips_mapping, get_jeol_sightx_mapping")],
     "Proved: what file_writer gives to tifffile, as tags of a page, is read by file_reader as the same calibration for any real numbers and sizes; every vendor with "
     "symbolic numbers in its tags." + COMMON)

prop("C25", "Signals saved to Digital Surf files are read back with values and calibration",
     "A profile, series of profiles, image, series of images, RGB(A) image or series, spectrum, line or map of spectra saved to a sur or pro file, "
     "compressed or not, is read back with its shape, axes (name, units, size; scale and offset in single precision), quantity (also of several words), "
     "date and author. Images and colours of integers (signed up to 32 bits, unsigned up to 16 bits), and other signals of up to 16 bits, are read back exactly; "
     "floats (half, single or double, also constant ones) and 32-bit integers are read back within the resolution of the format, 2^-23 of their range and minimum, and with is_special "
     "nan comes back as nan at its place and nowhere else. Alpha is left out. The signal given stays as it was; private zone, client zone, comments, object name and "
     "operator are written at their places with the sizes the header states, and the header kept as original metadata is that of each object and channel. "
     "Types that do not fit (unsigned 32 or 64 bits, signed 64 bits, complex) are refused without making a file. Surfaces, profiles and spectra of other "
     "programs are read as (points - Zmin) * spacing / ratio + offset, whichever of these are integers and however many compressed streams there are, and nan for "
     "non-measured points. Outside the guarantee: texts longer than their field, times at midnight, sections of comments that start with an underscore.",
     ["inputs", "configurations"],
     "all sizes, values, scales and offsets; kinds, element types and flags enumerated, series of up to 5 members in the proof",
     "Tests read recorded files and save a few random arrays in double precision; single precision, constant data, large colours, special points, integer scales and zones are not sampled.",
     ["rsciio/digitalsurf/_api.py"],
     [("writing", "rsciio/digitalsurf/_api.py:file_writer, DigitalSurfHandler._build_sur_file_contents, _split_signal_dict, _norm_data, _build_workdict, _write_sur_file, _pack_data, _compress_data, _pack_private"),
      ("reading", "rsciio/digitalsurf/_api.py:file_reader, DigitalSurfHandler._read_sur_file, _read_single_sur_object, _unpack_data, _is_data_int, _is_data_scaleint, _is_data_bin, _build_sur_dict, _build_original_metadata"),
      ("comments", "rsciio/digitalsurf/_api.py:DigitalSurfHandler._stringify_dict, parse_metadata")],
     "Proved: file_reader on the bytes file_writer gives, for any element of arrays of any sizes and values, single precision as a rounding of unknown result "
     "with bounded relative error; foreign files with any header." + COMMON)

prop("C26", "EDAX files give the counts and calibration that they and their companions hold",
     "A spectrum (spc), spectrum image (spd) or line scan (lsd) of EDAX is read with every count at its pixel and channel, beginning where the header says, of its type "
     "(1, 2 or 4 bytes) in the byte order asked for, for any dimensions, also of size 1; line scans have the spectra that were measured. Each axis has its size and its own "
     "calibration: the energy in keV from the spc file, pixels in µm, x and y apart, from the ipr file, line scans in nm from the table of the csv file; without "
     "the companion file there is no calibration. Companions are found beside the file, by relative or absolute paths, and those given by name are used instead. Angles, energy of the beam and resolution, "
     "live time and elements are those of the header of the spectrum. Lazy or not, with the whole header or its important parts, the result is the same. "
     "Outside the guarantee: files shorter than they say.",
     ["inputs", "configurations"],
     "all dimensions, offsets, counts and header values; types, byte orders, options and companions enumerated",
     "The tests need files that are downloaded; without network they are all skipped. They sample one map, spectrum and line scan, little endian, in absolute paths.",
     ["rsciio/edax/_api.py"],
     [("spectra", "rsciio/edax/_api.py:spc_reader, __get_spc_header, get_spc_dtype_list, _add_spc_metadata"),
      ("maps and line scans", "rsciio/edax/_api.py:si_reader, get_spd_dtype_list, __get_ipr_header, get_ipr_dtype_list"),
      ("records", "rsciio/utils/_array.py:sarray2dict")],
     "Proved: file_reader on files whose header fields are symbolic, for any pixel and channel; layouts of the records against the format." + COMMON)

prop("C27", "Signals saved to NeXus files are read back; NXdata keep positions of axes",
     "A signal (or a list of signals) with one or two signal axes behind any number of navigation axes, of any number type and lazily or "
     "not, saved as a NeXus file and read again, lazily or not, has the same data (values, data type, byte order) and the same axes in the "
     "same order: size, navigation or signal and, if they have a name, name, units, offset and scale - also negative - or, for non-uniform "
     "axes, the positions. Signals keep their order, however many; one chosen by path, by name or as the default is that one. Title, metadata and "
     "original metadata keep their numbers, texts, truth values, dictionaries, numeric arrays and lists (lists come back as arrays, those of texts as "
     "bytes), None is left out, and keys asked to be skipped are left out of the original metadata. Saving leaves the signals alone. The NXdata of other programs have the "
     "data, the title and, for each named axis, the positions (offset and scale where they are uniform), name and units. Outside the "
     "guarantee: the scale of axes with one element, names and titles with slashes ('/' becomes '_', a leading '__' is dropped) or "
     "equal to those of other members, entries named attrs, value or keys, texts that end in blanks, lists with a single element, of mixed or nested kinds.",
     ["inputs", "configurations"],
     "all signals, axes of every kind, nested metadata, lists of signals, options of the writer and reader; NXdata with axes in every notation",
     "Tests save a few signals with rising uniform axes and look at some values; the signs, kinds and numbers of axes and signals combine freely.",
     ["rsciio/nexus/_api.py"],
     [("writer", "rsciio/nexus/_api.py:file_writer, _write_signal, _write_nexus_groups, _write_nexus_attr, _parse_to_file"),
      ("reader", "rsciio/nexus/_api.py:file_reader, _find_data, _nexus_dataset_to_signal, _get_nav_list, _load_metadata, _parse_from_file")],
     "Proved: file_writer composed with file_reader on a stand-in of the file, sizes, offsets, scales and positions symbolic." + COMMON)
prop("C28", "Image stacks saved to MRCZ files are read back with values and calibration",
     "An image or a stack of images (also with dimensions of length one) of type int8, int16, uint16, float32 or complex64 (float64 and complex128 are "
     "rounded to these), lazily or not, saved as an uncompressed MRCZ file in either byte order and read with the same one, lazily or not, has the "
     "same pixels in the same places, three axes (z, y and x; one image is a stack of one) in the order of the data with their sizes, z for navigation, "
     "and, to single precision, the scales in nm, whichever units of length (pm, A, Å, nm, um, µm, mm, m) each axis has (axes with other units keep their number). "
     "The metadata are read back as JSON keeps them, beam energy and gain factor are in the header, to single precision, and are mapped to their places in the metadata. "
     "Options of the compression and the asynchronous mode reach the library. Saving leaves the signal alone. Outside the guarantee: offsets, keys with a period.",
     ["inputs", "configurations"],
     "all stacks of the types of the format, units, scales, metadata, byte orders, eager and lazy",
     "Tests save one shape in nm; sizes of one, plain images, units and byte orders combine freely.",
     ["rsciio/mrcz/_api.py"],
     [("writer", "rsciio/mrcz/_api.py:file_writer"), ("reader", "rsciio/mrcz/_api.py:file_reader"), ("mapping", "rsciio/mrcz/_api.py:mapping, _parse_metadata")],
     "Proved: file_writer composed with file_reader over a contract of the mrcz library, sizes, scales, energy and gain symbolic." + COMMON)
