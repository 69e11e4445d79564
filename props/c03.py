"""C03: the FEI (Velox) event stream."""
from .common import *

ID = "C03"
LEVEL = "proved"
FILE = "rsciio/utils/_fei_stream_readers.py"
MARK = 65535


class Spec:
    """The stream format: a mark advances one pixel, and a pixel past the last
    one of a frame starts the next frame.  frame(k), pix(k) are those of event
    k, cnt(k) the number of events before k that belong to the chosen cell."""

    def __init__(self, ev, fsize, first, last, cell):
        self.fr = fresh_fn("frame", I, I)
        self.nv = fresh_fn("pix", I, I)
        self.cnt = fresh_fn("cnt", I, I)
        self.ev, self.fsize, self.first, self.last, self.cell = ev, fsize, first, last, cell
        assume([self.fr(0) == 0, self.nv(0) == 0, self.cnt(0) == 0])

    def in_cell(self, k):
        return z3.And(self.ev(k) != MARK, self.fr(k) >= self.first, self.fr(k) < self.last,
                      self.cell(self.fr(k), self.nv(k), self.ev(k)))

    def unfold(self, k):
        fr, nv, ev = self.fr, self.nv, self.ev
        m = ev(k) == MARK
        w = nv(k) + 1 == self.fsize
        return [fr(k + 1) == z3.If(z3.And(m, w), fr(k) + 1, fr(k)),
                nv(k + 1) == z3.If(m, z3.If(w, z3.IntVal(0), nv(k) + 1), nv(k)),
                self.cnt(k + 1) == self.cnt(k) + z3.If(self.in_cell(k), 1, 0)]

    def state(self, k, F, N):
        """lazy reset: a full frame is closed by the next event"""
        fr, nv = self.fr(k), self.nv(k)
        return z3.And(nv >= 0, nv < self.fsize, fr >= 0, F >= 0, self.cnt(k) >= 0,
                      z3.Or(z3.And(F == fr, N == nv),
                            z3.And(N == self.fsize, nv == 0, F == fr - 1)))


def problem(with_frame, dtype=None):
    W = fresh_int("width", 1, inp=True)
    H = fresh_int("height", 1, inp=True)
    q = fresh_int("bins", 1, inp=True)
    r = fresh_int("rebin_energy", 1, inp=True)
    n = fresh_int("n_events", 0, inp=True)
    first = fresh_int("first_frame", 0, inp=True)
    last = fresh_int("last_frame", 1, inp=True)
    assume(first.e < last.e)
    channels = fresh_int("channels", 1)
    assume(channels.e == q.e * r.e)
    stream = SymArr.fresh("stream", (n,), np.uint16, inp=True)
    ev = stream.uf
    y, x, c = fresh_int("y", 0, H), fresh_int("x", 0, W), fresh_int("c", 0, q)
    f = fresh_int("f", 0, mk_int(last.e - first.e)) if with_frame else None

    def cell(fr, nv, v):
        parts = [floordiv_e(nv, W.e) == y.e, mod_e(nv, W.e) == x.e, floordiv_e(v, r.e) == c.e]
        if with_frame:
            parts.append(fr - first.e == f.e)
        return z3.And(*parts)
    fs = fresh_int("frame_size", 1)
    assume(fs.e == H.e * W.e)
    sp = Spec(ev, fs.e, first.e, last.e, cell)

    def on_item(v, k, item):
        # precondition on the stream: a channel number or the mark; k is an arbitrary index
        # instances of two lemmas proved below (div_bound)
        k = k.e
        C().ghost["k"] = k
        assume(z3.Or(ev(k) == MARK, z3.And(ev(k) >= 0, ev(k) < channels.e)))
        assume(sp.unfold(k))
        assume(z3.Implies(ev(k) < channels.e, z3.And(floordiv_e(ev(k), r.e) < q.e, floordiv_e(ev(k), r.e) >= 0)))
        for p in (sp.nv(k),):
            assume(z3.Implies(z3.And(p >= 0, p < fs.e),
                              z3.And(floordiv_e(p, W.e) < H.e, floordiv_e(p, W.e) >= 0,
                                     mod_e(p, W.e) >= 0, mod_e(p, W.e) < W.e)))

    def after(v, k):
        C().ghost["k"] = n.e

    def finish():
        # instance of lemma cnt_stable (proved below) at the index where the loop stopped
        k = C().ghost.get("k", n.e)
        if not z3.eq(k, n.e):
            assume(z3.Implies(z3.And(sp.fr(k) >= last.e, k <= n.e, k >= 0), sp.cnt(n.e) == sp.cnt(k)))
    C().ghost["k"] = n.e
    return locals()


def lemma_stable():
    """after the first event of frame `last` the count of the cell is final"""
    fr, nv, cnt, ev = (fresh_fn(s, I, I) for s in ("frame", "pix", "cnt", "ev"))
    fs, last, k, m = (fresh_int(s) for s in ("fs", "last", "k", "m"))
    P = z3.Function("in_cell_pos", I, B)     # any further condition of the cell
    assume(m.e >= k.e)
    w = nv(m.e) + 1 == fs.e
    mk = ev(m.e) == MARK
    assume([fr(m.e + 1) == z3.If(z3.And(mk, w), fr(m.e) + 1, fr(m.e)),
            cnt(m.e + 1) == cnt(m.e) + z3.If(z3.And(ev(m.e) != MARK, fr(m.e) < last.e, P(m.e)), 1, 0)])
    assume(fr(k.e) >= last.e)
    prove(z3.And(fr(k.e) >= last.e, cnt(k.e) == cnt(k.e)), "cnt_stable: base case")
    assume(z3.And(fr(m.e) >= last.e, cnt(m.e) == cnt(k.e)))
    prove(z3.And(fr(m.e + 1) >= last.e, cnt(m.e + 1) == cnt(k.e)), "cnt_stable: inductive step")


def lemma_div():
    """v < q*r  =>  0 <= v div r < q  and  0 <= v mod r < r"""
    v, q, r, d, m = (fresh_int(s) for s in ("v", "q", "r", "d", "m"))
    assume([v.e >= 0, r.e >= 1, q.e >= 1, v.e < q.e * r.e])
    # definition of Euclidean division
    assume([v.e == d.e * r.e + m.e, m.e >= 0, m.e < r.e])
    prove(d.e >= 0, "div_bound: quotient non-negative")
    prove(d.e < q.e, "div_bound: quotient below q")
    prove([m.e >= 0, m.e < r.e], "div_bound: remainder")


def dense(sum_frames, dtype, accumulate=False):
    def run():
        d = problem(not sum_frames)
        sp, y, x, c, f = d["sp"], d["y"], d["x"], d["c"], d["f"]
        mod = 2 ** (8 * np.dtype(dtype).itemsize)
        pos = (y, x, c) if sum_frames else (f, y, x, c)

        want = (d["H"], d["W"], d["q"]) if sum_frames else (mk_int(d["last"].e - d["first"].e), d["H"], d["W"], d["q"])
        image = SymArr.fresh("image", want, dtype) if accumulate else None
        old = image.expr(*pos) if accumulate else 0

        def inv(v, k):
            k = ie(k)
            return {"frame state": sp.state(k, ie(v.frame_number), ie(v.navigation_index)),
                    "last frame not reached": ie(v.frame_number) < d["last"].e,
                    "cell count": v.spectrum_image.expr(*pos) == (old + sp.cnt(k)) % mod}
        C().run.loop_specs = [LoopSpec("fill", inv, needs=["spectrum_image", "frame_number", "navigation_index"],
                                       mutates=lambda v: [v.spectrum_image], on_item=d["on_item"],
                                       after=d["after"])]
        m = load_module(FILE)
        # lemma instance: frame_size // width etc. are only used through products
        assume(z3.ToReal(d["channels"].e) / z3.ToReal(d["r"].e) == z3.ToReal(d["q"].e))
        out = m.stream_to_array(d["stream"], (d["H"], d["W"]), d["channels"], d["last"],
                                first_frame=d["first"], rebin_energy=d["r"],
                                sum_frames=sum_frames, dtype=dtype, spectrum_image=image)
        d["finish"]()
        if accumulate:
            expect(out is image, "the array passed in is the one filled")
        expect(len(out.shape) == len(want), "number of dimensions")
        prove([eqi(a, b) for a, b in zip(out.shape, want)], "shape of the spectrum image")
        expect(out.dtype == np.dtype(dtype), "dtype of the spectrum image")
        prove(out.expr(*pos) == (old + sp.cnt(d["n"].e)) % mod, "every cell holds its number of events")
    return run


def sparse_(sum_frames):
    def run():
        d = problem(not sum_frames)
        sp, y, x, c, f, W, H, q, r, first, last = (d[k] for k in "sp y x c f W H q r first last".split())
        wd = 3 if sum_frames else 4
        tot = fresh_fn("total", I, I)     # sum of data over entries 1..j-1 of the cell
        assume(tot(1) == 0)
        j = fresh_int("entry", 1)          # skolem entry, for the bounds of the coordinates
        lists = {}

        def at_cell(k):
            co = lists["coords"]
            parts = [co.fns[wd - 3](k) == y.e, co.fns[wd - 2](k) == x.e, co.fns[wd - 1](k) == c.e]
            if not sum_frames:
                parts.append(co.fns[0](k) == f.e)
            return z3.And(*parts)

        def hook(k):
            if "coords" in lists and "data" in lists:
                assume(tot(k + 1) == tot(k) + z3.If(at_cell(k), lists["data"].fns[0](k), 0))

        def mk(name, width):
            def go(old):
                lst = SymList.of(old, name, width, hook)
                lists[name] = lst
                return lst
            return go

        def inv(v, k):
            k = ie(k)
            co = lists["coords"]
            da = lists["data"]
            F, N, dt, ch = ie(v.frame_number), ie(v.navigation_index), ie(v.data), v.count_channel
            chv = ie(ch) if ch is not None else z3.IntVal(0)
            cellhere = [floordiv_e(N, W.e) == y.e, mod_e(N, W.e) == x.e, floordiv_e(chv, r.e) == c.e]
            if not sum_frames:
                cellhere.append(F - first.e == f.e)
            e = j.e
            bound = [co.fns[wd - 3](e) >= 0, co.fns[wd - 3](e) < H.e, co.fns[wd - 2](e) >= 0,
                     co.fns[wd - 2](e) < W.e, co.fns[wd - 1](e) >= 0, co.fns[wd - 1](e) < q.e,
                     da.fns[0](e) > 0]
            if not sum_frames:
                bound += [co.fns[0](e) >= 0, co.fns[0](e) < last.e - first.e]
            return {
                "frame state": sp.state(k, F, N),
                "last frame not reached": F < last.e,
                "lists in step": z3.And(ie(co.n) == ie(da.n), ie(co.n) >= 1),
                "pending events": z3.And(dt >= 0, z3.Implies(N == d["fs"].e, dt == 0),
                                         z3.Implies(dt > 0, z3.And(chv >= 0, chv < d["channels"].e,
                                                                   floordiv_e(chv, r.e) >= 0, floordiv_e(chv, r.e) < q.e,
                                                                   F >= first.e))),
                "cell count": tot(ie(co.n)) + z3.If(z3.And(dt > 0, *cellhere), dt, 0) == sp.cnt(k),
                "coordinates in range": z3.Implies(e < ie(co.n), z3.And(*bound)),
                "skipped frames hold nothing": z3.Implies(F < first.e, z3.And(dt == 0, N != d["fs"].e, sp.fr(k) == F)),
            }

        def int_or_none(old):
            if C().ghost.get("head"):
                return fresh_int("count_channel")
            return fresh_int("count_channel")
        names = ("coords_list", "coords")
        types = {"data_list": mk("data", None), "count_channel": int_or_none,
                 "coords_list": mk("coords", wd), "coords": mk("coords", wd)}
        C().run.loop_specs = [LoopSpec(
            "to_sparse", inv, needs=["data_list", "data", "frame_number", "navigation_index", "count_channel"],
            types=types if sum_frames else types, on_item=d["on_item"], after=d["after"])]
        m = load_module(FILE)
        fn = m._stream_to_sparse_COO_array_sum_frames if sum_frames else m._stream_to_sparse_COO_array
        coords, data, shape = fn(d["stream"], d["last"], (H, W), d["channels"], rebin_energy=r, first_frame=first)
        d["finish"]()
        co, da = lists["coords"], lists["data"]
        prove([eqi(coords.shape[0], wd), eqi(coords.shape[1], mk_int(ie(co.n) - 1)),
               eqi(data.shape[0], mk_int(ie(co.n) - 1))], "one coordinate column per stored value")
        assume(j.e < ie(co.n))
        for a in range(wd):
            prove(coords.expr(a, mk_int(j.e - 1)) == co.fns[a](j.e), "coordinates returned as recorded")
        prove(data.expr(mk_int(j.e - 1)) == da.fns[0](j.e), "values returned as recorded")
        b = [coords.expr(wd - 3, mk_int(j.e - 1)) >= 0, coords.expr(wd - 3, mk_int(j.e - 1)) < H.e,
             coords.expr(wd - 1, mk_int(j.e - 1)) < q.e]
        prove(b, "coordinates inside the shape")
        want = (H, W, q) if sum_frames else (mk_int(last.e - first.e), H, W, q)
        assume(floordiv_e(d["channels"].e, r.e) == q.e)
        expect(len(shape) == len(want), "number of dimensions")
        prove([eqi(u, w) for u, w in zip(shape, want)], "shape of the sparse array")
        prove(tot(ie(co.n)) == sp.cnt(d["n"].e), "stored values at a cell add up to its number of events")
    return run


def inverse():
    """array -> stream: as many events `channel` before mark number `pixel` as
    the array holds there, one mark between consecutive pixels"""
    P = fresh_int("pixels", 1, inp=True)
    ch = fresh_int("channels", 1, MARK + 1, inp=True)
    a = SymArr.fresh_linear("array", (P, ch), np.uint16)
    p0, c0 = fresh_int("pixel", 0, P), fresh_int("channel", 0, ch)
    at = a.uf
    marks, cnt = fresh_fn("marks", I, I), fresh_fn("cnt", I, I)
    assume([marks(0) == 0, cnt(0) == 0])
    lst = {}
    e = fresh_int("entry", 0)

    def hook(k):
        ev = lst["s"].fns[0]
        assume([marks(k + 1) == marks(k) + z3.If(ev(k) == MARK, 1, 0),
                cnt(k + 1) == cnt(k) + z3.If(z3.And(ev(k) == c0.e, marks(k) == p0.e), 1, 0)])

    def mk(old):
        lst["s"] = SymList.of(old, "stream", None, hook)
        return lst["s"]
    pix = fresh_fn("pixel_of", I, I)      # k == pixel_of(k)*ch + channel, by the invariant
    idx0 = fresh_int("cell_index")
    assume(idx0.e == p0.e * ch.e + c0.e)

    def done(k):
        return z3.If(idx0.e < k, at(idx0.e), 0)

    def bounded(s):
        ev = s.fns[0]
        return z3.Implies(e.e < ie(s.n), z3.Or(ev(e.e) == MARK, z3.And(ev(e.e) >= 0, ev(e.e) < ch.e)))

    def inv_outer(v, k):
        s = lst["s"]
        k = ie(k)
        n, c = ie(s.n), ie(v.channel)
        last = z3.Implies(z3.And(k > 0, c == 0), s.fns[0](n - 1) == MARK)
        return {"position": z3.And(k == pix(k) * ch.e + c, c >= 0, c < ch.e, pix(k) >= 0, n >= 0),
                "marks so far": marks(n) == pix(k),
                "last entry": z3.And(last, z3.Implies(z3.And(k > 0, c == 0), n > 0)),
                "events so far": cnt(n) == done(k), "events are channels": bounded(s)}

    def on_outer(v, k, item):
        k = k.e
        c = ie(v.channel)
        C().ghost["k"], C().ghost["c"] = k, c
        # ghost definition of pixel_of at the next index; array counts are uint16
        assume(pix(k + 1) == z3.If(c + 1 == ch.e, pix(k) + 1, pix(k)))
        assume([at(k) >= 0, at(k) <= 65535])
        # k and the cell index coincide iff their (pixel, channel) coincide (lemma unique_div)
        assume((k == idx0.e) == z3.And(pix(k) == p0.e, c == c0.e))
        assume([at(idx0.e) >= 0, at(idx0.e) <= 65535])

    def inv_inner(v, j):
        s = lst["s"]
        k, c = C().ghost["k"], C().ghost["c"]
        n = ie(s.n)
        return {"channel kept": ie(v.channel) == c,
                "marks so far": z3.And(marks(n) == pix(k), n >= 0),
                "events so far": cnt(n) == done(k) + z3.If(k == idx0.e, ie(j), 0),
                "events are channels": bounded(s)}
    assume(pix(0) == 0)
    C().run.loop_specs = [
        LoopSpec("repeat", inv_inner, needs=["stream_data", "value"], types={"stream_data": mk},
                 where=lambda fn, loc, it: isinstance(it, SymRange)),
        LoopSpec("pixels", inv_outer, needs=["stream_data", "channel"], types={"stream_data": mk},
                 on_item=on_outer)]
    m = load_module(FILE)
    out = m.array_to_stream(a)
    s = lst["s"]
    n = ie(s.n)
    # lemma unique_div at the end: P*ch == pix*ch + c with 0 <= c < ch gives pix == P, c == 0
    N = ie(a.size)
    assume(z3.Implies(z3.And(N == P.e * ch.e), z3.And(pix(N) == P.e)))
    assume(idx0.e < N)
    prove(n > 0, "stream not empty")
    prove(s.fns[0](n - 1) == MARK, "entry dropped at the end is a mark")
    prove(eqi(out.shape[0], mk_int(n - 1)), "only the final mark is dropped")
    assume(e.e < n - 1)
    prove(out.expr(e) == s.fns[0](e.e), "entries returned as recorded")
    prove(z3.Or(out.expr(e) == MARK, z3.And(out.expr(e) >= 0, out.expr(e) < ch.e)), "entries are channels or marks")
    assume(marks(n) == marks(n - 1) + z3.If(s.fns[0](n - 1) == MARK, 1, 0))
    assume(cnt(n) == cnt(n - 1) + z3.If(z3.And(s.fns[0](n - 1) == c0.e, marks(n - 1) == p0.e), 1, 0))
    prove(marks(n - 1) == P.e - 1, "one mark between consecutive pixels")
    prove(cnt(n - 1) == at(idx0.e), "as many events as counts at every (pixel, channel)")


def lemma_unique():
    """p*ch + c == p'*ch + c' with 0 <= c, c' < ch  <=>  p == p' and c == c'"""
    p, q, c, d, ch = (fresh_int(s) for s in ("p", "q", "c", "d", "ch"))
    assume([ch.e >= 1, c.e >= 0, d.e >= 0, c.e < ch.e, d.e < ch.e])
    eq = p.e * ch.e + c.e == q.e * ch.e + d.e
    prove(z3.Implies(z3.And(p.e == q.e, c.e == d.e), eq), "unique_div: right to left")
    assume(eq)
    # (p - q)*ch == d - c lies strictly between -ch and ch
    t = fresh_int("t")
    assume(t.e == p.e - q.e)
    prove(t.e * ch.e == d.e - c.e, "unique_div: difference")
    prove(z3.Implies(t.e >= 1, t.e * ch.e >= ch.e), "unique_div: above")
    prove(z3.Implies(t.e <= -1, t.e * ch.e <= -ch.e), "unique_div: below")
    prove(z3.And(p.e == q.e, c.e == d.e), "unique_div: left to right")


DENSE = FILE + ":stream_to_array"
CONTRACTS = [
    Contract("lemma cnt_stable", lemma_stable, []),
    Contract("lemma div_bound", lemma_div, []),
    Contract("lemma unique_div", lemma_unique, []),
    Contract("dense, frames summed", dense(True, "uint16"),
             [DENSE, FILE + ":_fill_array_with_stream_sum_frames"]),
    Contract("dense, frames kept", dense(False, "uint16"), [DENSE, FILE + ":_fill_array_with_stream"]),
    Contract("dense, added to an image", dense(True, "uint32", True),
             [DENSE, FILE + ":_fill_array_with_stream_sum_frames"]),
    Contract("dense, added to an image, frames kept", dense(False, "uint8", True),
             [DENSE, FILE + ":_fill_array_with_stream"]),
    Contract("sparse, frames summed", sparse_(True), [FILE + ":_stream_to_sparse_COO_array_sum_frames"]),
    Contract("sparse, frames kept", sparse_(False), [FILE + ":_stream_to_sparse_COO_array"]),
    Contract("array to stream", inverse, [FILE + ":array_to_stream"]),
]

ASSUMPTIONS = [
    "stream values are channel numbers below the channel count or the mark 65535, and "
    "rebin_energy divides the channel count (checked by the reader before decoding)",
    "numba compiles the Python body faithfully (both are run by the concrete search)",
    "sparse.COO adds the values stored at equal coordinates and dask chunks it faithfully",
]


def spec_counts(ev, shape, channels, first, last, rebin, sum_frames):
    """reference: one pass over the events, straight from the format"""
    h, w = shape
    out = np.zeros((last - first, h, w, channels // rebin), dtype=np.int64)
    pix = 0
    for v in ev:
        if v == MARK:
            pix += 1
            continue
        fr, nv = divmod(pix, h * w)
        if first <= fr < last:
            out[fr - first, nv // w, nv % w, v // rebin] += 1
    return out.sum(0) if sum_frames else out


def search(s):
    if s.part % 2:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    import rsciio.utils._fei_stream_readers as R_
    from rsciio.emd._emd_velox import FeiSpectrumStream
    import json as _json
    rng = s.rng
    for it in range(s.n(60, 1500)):
        if not s.left():
            break
        h, w = rng.randint(1, 4), rng.randint(1, 4)
        rebin = rng.choice([1, 1, 2, 3])
        bins = rng.randint(1, 4)
        channels = bins * rebin
        frames = rng.randint(1, 4)
        ev = []
        npix = h * w * frames + rng.choice([0, 0, 0, -1, -h * w // 2, 1, 2])
        for p in range(max(npix, 0)):
            mode = rng.random() if p else 0
            if mode < 0.6:
                one = [rng.randrange(channels) for _ in range(rng.randint(1, 4))]
                if rng.random() < 0.3:
                    one = one + one
                if rng.random() < 0.02:
                    one = one * rng.choice([1, 100, 300]) + [one[-1]] * 260
                if it % 60 == 7 and p == 0:
                    one = [one[0]] * 65535 if rng.random() < 0.5 else [one[0]] * 33000
                if it % 15 == 9 and p == 0:
                    one = [one[0]] * 70000
                ev += one
            ev.append(MARK)
        if ev and rng.random() < 0.5:
            ev.pop()
        stream = np.array(ev, dtype=np.uint16)
        first = rng.randrange(frames) if it % 15 != 9 else 0
        last = rng.randint(first + 1, frames)
        sf = rng.random() < 0.5
        case = dict(events=ev, shape=[h, w], channels=channels, first_frame=first, last_frame=last,
                    rebin_energy=rebin, sum_frames=sf)
        s.note(case)
        want = spec_counts(ev, (h, w), channels, first, last, rebin, sf)
        dt = "uint16" if want.max(initial=0) < 32768 else "uint32"
        if len(ev):
            got = R_.stream_to_array(stream, (h, w), channels, last, first_frame=first,
                                     rebin_energy=rebin, sum_frames=sf, dtype=dt)
            s.check(got.shape == want.shape and np.array_equal(got, want),
                    "dense decoding counts every event once", dict(case, got=got.tolist()))
            R_.stream_to_array(stream, (h, w), channels, last, first_frame=first,
                               rebin_energy=rebin, sum_frames=sf, spectrum_image=got)
            s.check(np.array_equal(got, 2 * want), "decoding into an image adds to it",
                    dict(case, got=got.tolist()))
        lz = R_.stream_to_sparse_COO_array(stream, (h, w), channels, last, rebin_energy=rebin,
                                           sum_frames=sf, first_frame=first)
        got = lz.compute()
        got = got.todense() if hasattr(got, "todense") else np.asarray(got)
        s.check(got.shape == want.shape and np.array_equal(got, want),
                "sparse decoding counts every event once", dict(case, got=got.tolist()))
        # the object the Velox reader uses, lazy and not
        if len(ev) > 1:
            class Rd:
                pass
            res = []
            use_last = rng.random() < 0.7
            n_marks = ev.count(MARK)
            auto = -(-n_marks // (h * w))
            for lazy in (False, True):
                rd = Rd()
                rd.rebin_energy, rd.first_frame, rd.sum_frames, rd.lazy = rebin, first, sf, lazy
                rd.last_frame = last if use_last else None
                rd.SI_data_dtype, rd.spatial_shape, rd.number_of_frames = dt, (h, w), frames
                g = {"AcquisitionSettings": [_json.dumps(
                         {"bincount": str(channels), "StreamEncoding": "uint16"}).encode()],
                     "Metadata": np.frombuffer(b"{}", np.uint8)[:, None],
                     "Data": stream[:, None]}
                if not use_last and auto <= first:
                    continue
                st = FeiSpectrumStream(g, rd)
                im = st.spectrum_image
                if lazy:
                    im = im.compute()
                    im = im.todense() if hasattr(im, "todense") else np.asarray(im)
                w2 = spec_counts(ev, (h, w), channels, first, last if use_last else auto, rebin, sf)
                s.check(im.shape == w2.shape and np.array_equal(im, w2),
                        "the Velox stream object holds every event once (lazy=%s)" % lazy,
                        dict(case, last_given=use_last, got=im.tolist()))
        # the inverse
        a = np.array([[[rng.choice([0, 0, 1, 2, 3]) for _ in range(channels)] for _ in range(w)]
                      for _ in range(h)], dtype=np.uint16)
        st = R_.array_to_stream(a)
        back = spec_counts([int(v) for v in st], (h, w), channels, 0, 1, 1, True)
        s.check(np.array_equal(back, a) and int((st == MARK).sum()) == h * w - 1,
                "array to stream and back", dict(array=a.tolist(), stream=st.tolist()))
