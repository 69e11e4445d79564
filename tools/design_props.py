"""specified / bounds and stand-ins, per property"""
P = {
"C01": ("For `memmap_distributed` and its parts: block k of any chunking starts at the sum of the blocks before it; the slice handed to the memory map "
        "reads, for every index, the element `offset + linear index in the memory order`; frames at arbitrary positions go to their "
        "positions and missing ones are zero. Oracle: the row-major/column-major address formula.",
        "Number of dimensions 1-5 enumerated. The search loads npy, prz, empad and raw files with many chunkings."),
"C02": ("`get_signal_chunks`: signal axes are never split, chunks are at least 1 and at most the axis, and the chunk holds at most the target size unless one signal "
        "is larger. Loop invariant over the navigation axes.", "Navigation axes 0-3; real-number root."),
"C03": ("Velox event streams: the dense and sparse decoders put in every pixel and channel the number of events the stream holds there (ghost function counting events "
        "in a prefix of the stream), for any frames read, rebinning and summing; encoding and decoding are inverse.",
        "All stream lengths and values; the sparse assembly through sparse.COO is assumed to add."),
"C04": ("JEOL pts: the list-mode readers count exactly the events (row, column, energy markers) of the asked frames, with shifts, rebinning and crop; "
        "counts that do not fit raise; lazily the same. Loop invariants over the words of the stream with ghost counts.",
        "Bounded: assembly of the sparse array and the axes arithmetic (`_read_pts`) by search only."),
"C05": ("Little/big endian readers and writers of all integer and float widths in readfile.py, digitalsurf, tia and semper: value = sum of bytes, "
        "two's complement, exact inverse; texts of fixed fields.", "None (IEEE conversion uninterpreted)."),
"C06": ("RGB(A) structured arrays and plain arrays with a trailing axis of 3 or 4 are inverse views for every shape, order and element width; `_read_data` "
        "of images keeps colours, drops nothing but equal channels, lazily or not.", "Dimensions 1-4 enumerated; codecs by search."),
"C07": ("DM3/DM4 tags: after each tag, array, struct or string the reader stands right behind it (read or skipped), each value is that of its "
        "bytes in the byte order of the file, names and nesting kept. Recursion by the contract of `parse_tags`.", "None; file = unknown pieces."),
"C08": ("Serial dates (OLE) and date/time are inverse for all times and time zones; ISO texts; `get_date_time_from_metadata` in every format.",
        "Real-number arithmetic; rounding by search under several TZ."),
"C09": ("`overwrite` and `incremental_filename` with an arbitrary file system: an existing file is never given as new name, kept suffix, "
        "answers of the user respected.", "Answers enumerated; recursion by contract."),
"C10": ("The restricted unpickler loads only names of its list; `.prz` reading never runs other code; one syntactic obligation per module: no function of the package "
        "outside a listed few uses a primitive that can run code.", "The per-module obligation is syntactic, not a proof; search: hostile pickles."),
"C11": ("hspy/zspy: writer and reader of metadata trees, lists, tuples, texts, bytes, arrays, ragged arrays, axes and updates are inverse, by "
        "structural induction (recursive calls by contract) with unknown names and values.", "Mixed lists up to 101 entries; h5py/zarr trusted."),
"C12": ("MRC: header, extended header, element type, byte order, axes (calibration, singleton axes), memory order and DE info files "
        "for all sizes and any header numbers.", "Custom scans and virtual images by search."),
"C13": ("TVIPS writing: loop invariant over parts (frames saved = first frame of the next part, room in the part, record layout, clock, frame numbers); reading: loop invariants over the "
        "names of the parts and the parts (frames in order, all of them); scan positions as functions of the index (winding, hysteresis).",
        "scan_shape='auto', float32 fields by search."),
"C14": ("MIB: frames asked for by any first/last frame, for files and buffers, 1-4 chips; scan completion rules; exposures and timestamps "
        "of the same frames; hdr files.", "Headers, types and entry points enumerated; custom guesses of irregular scans outside."),
"C15": ("Ripple: writer then reader are inverse for data, order, byte order, axes, metadata; third-party headers read as they say.",
        "Text model with unknown words; types enumerated."),
"C16": ("Blockfile: header, virtual image and records lie where the header says; frames numbered; navigator; notes; inverse reading.",
        "Pattern sizes 1, 2, 3, 144, 256 enumerated."),
"C17": ("Semper: rows, records and label of the written file are those of the format description and are read back; all sizes up to 32767.",
        "Titles, dates, units enumerated."),
"C18": ("EMD NCEM: what is written has the layout of the format and is read back; files of other programs and stacks of simulations are read as they say; "
        "any sizes and calibrations.", "1-5 axes, 1-3 groups, types, titles, units, metadata enumerated; HDF5 by a model, the real library by search."),
"C19": ("DM3/DM4 signals: the image list, thumbnails, element types, order of axes, calibrations, kind of signal and metadata for trees of tags with "
        "any numbers.", "RGBA and packed type 5 by search; types 27/28 outside."),
"C20": ("MSA: writing then reading keeps values, axis, title, date, detector entries, in both data forms; saving leaves the signal alone.",
        "Title lengths up to 209 enumerated."),
"C21": ("Bruker containers: every step of reading a file, a piece or a table appends the bytes that come next in it; entries, heads and directories as the format has them.",
        "Table of addresses for six chunk sizes, trees of up to 4 entries, tables of up to 127 files; zlib trusted; search writes whole containers."),
"C22": ("TIA: the whole ser reader on a file with any numbers at its places: data element by element, axes, units; emi files with lists of ser files and objects.",
        "1-2 dimensions, two versions, ten types, texts of the header and acquisition modes enumerated; search writes real ser and emi files."),
"C23": ("Bruker maps: the compiled parser (text of the .pyx) cell by cell for any stream of bytes and blocks; shape, cutoff, type and axes of the map in the Python code.",
       "three types of maps and a few factors of downsampling for fixed divisions (any factor for the map itself); the pure Python parser bounded: random maps, also through the compiled parser."),
"C24": ("TIFF: the tags that are written, read again (contract of tifffile between them), give the same calibration, quantity, noise and date; the axes and metadata of "
        "eight kinds of vendor files with any numbers in their tags.",
        "Units, dates, XML text, layouts of pixels enumerated; tifffile itself, wave lengths and polynomial fits by search on real files of all vendors."),
"C25": ("Digital Surf: the bytes that are written (contract of struct and zlib between them), read again, give the same element at any place of the array, axes, header, zones and "
        "colours; files of other programs by the formula of the format.",
        "Kinds, element types, flags enumerated, series of 1 to 5 members in the proof; texts, dates and quantities, compression in several streams and numpy's own precision by search, "
        "with an independent reader of the format."),
"C26": ("EDAX: each count is the number at the place of the file that the header gives, axes and metadata are the fields of the headers of the file and its companions, for any "
        "values of the fields.",
        "Types, byte orders, options and companions enumerated; tables of 1 to 3 rows in the proof, any in the search on real files."),
    "C27": ("NeXus: file_reader after file_writer, on a stand-in of the HDF5 file, gives every signal with its data, and for each named axis offset, scale or positions, for "
        "any sizes and real values of them; NXdata of other programs with positions given by uninterpreted functions.",
        "One to five dimensions, kinds of axes, titles, nested metadata, numbers of signals (1, 2, 3, 11, 12) and options enumerated; whether positions are uniform to the accuracy "
        "of floating point only in the search on real files."),
    "C28": ("MRCZ: file_reader after file_writer over a contract of the mrcz library gives the pixels, sizes, scales in nm, energy, gain and metadata, for any sizes, scales and "
        "values.",
        "Which dimensions are one, units, byte orders, options enumerated; the library itself is trusted (assumed contract), and run on real uncompressed files in the search only."),
}
