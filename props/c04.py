"""C04: JEOL event streams (pts): every event of the selected frames once."""
import struct

from .common import *

ID = "C04"
J = "rsciio/jeol/_api.py"
MAXV = 4096


class FrameSpec:
    """One frame of the stream (format description): a word is a 4 bit type and
    a 12 bit value; 8 sets the column, 9 the row, A is the electron signal of
    the current pixel, B one X-ray event of the current pixel.  The frame ends
    before the first row that is smaller than the row before it."""

    def __init__(self, raw, W, H, ch, wn, hn, r, dx, dy, dz, y0, x0, c0, clip):
        self.__dict__.update(locals())
        self.px, self.py, self.cnt, self.em = (fresh_fn(s, I, I) for s in ("px", "py", "cnt", "em"))
        self.sx, self.sy = fresh_fn("seen_x", I, B), fresh_fn("seen_y", I, B)
        self.hasem = fresh_fn("has_em", I, B)
        assume([self.cnt(0) == 0, self.em(0) == 0, z3.Not(self.sx(0)), z3.Not(self.sy(0)), z3.Not(self.hasem(0))])

    def t(self, k):
        return (self.raw(k) / 4096) % 16

    def v(self, k):
        return self.raw(k) % 4096

    def col(self, k):
        return z3.If(self.sx(k), floordiv_e(self.px(k), self.wn.e) + self.dx.e, 0)

    def row(self, k):
        return z3.If(self.sy(k), floordiv_e(self.py(k), self.hn.e) + self.dy.e, 0)

    def inside(self, k):
        c, r = self.col(k), self.row(k)
        return z3.And(c >= 0, c < self.W.e, r >= 0, r < self.H.e)

    def here(self, k):
        return z3.And(self.col(k) == self.x0.e, self.row(k) == self.y0.e)

    def stop(self, k):
        return z3.And(self.t(k) == 9, self.sy(k), self.v(k) < self.py(k))

    def unfold(self, k):
        t, v = self.t(k), self.v(k)
        z = floordiv_e(v, self.r.e) + self.dz.e
        hit = z3.And(t == 11, self.here(k), z == self.c0.e)
        return [self.px(k + 1) == z3.If(t == 8, v, self.px(k)), self.py(k + 1) == z3.If(t == 9, v, self.py(k)),
                self.sx(k + 1) == z3.Or(t == 8, self.sx(k)), self.sy(k + 1) == z3.Or(t == 9, self.sy(k)),
                self.hasem(k + 1) == z3.Or(self.hasem(k), z3.And(t == 10, self.inside(k))),
                self.cnt(k + 1) == self.cnt(k) + z3.If(hit, 1, 0),
                self.em(k + 1) == self.em(k) + z3.If(z3.And(t == 10, self.here(k)), v, 0)]

    def complete(self, k):
        return z3.And(self.sy(k), self.py(k) >= MAXV - self.hn.e,
                      z3.Or(z3.And(self.sx(k), self.px(k) >= MAXV - self.wn.e), z3.Not(self.hasem(k))))

    def scan(self, k, x, y, pxv, pyv):
        c, r = self.col(k), self.row(k)
        k_ = z3.If(c < self.W.e, c, z3.IntVal(-1))
        r_ = z3.If(r < self.H.e, r, z3.IntVal(-1))
        return {"column": x == k_, "row": y == r_,
                "row value": z3.And(z3.Implies(self.sy(k), z3.And(pyv == self.py(k), pyv >= 0)),
                                    z3.Implies(z3.Not(self.sy(k)), pyv <= 0)),
                "column value": z3.Implies(self.sx(k), pxv == self.px(k))}


def frame(si, cu, emdt, lazy):
    def run():
        W, H, ch = fresh_int("width", 1, inp=True), fresh_int("height", 1, inp=True), fresh_int("channels", 1, inp=True)
        aw, ah, ac = fresh_int("alloc_w", W), fresh_int("alloc_h", H), fresh_int("alloc_c", ch)
        wn, hn, r = fresh_int("width_norm", 1, inp=True), fresh_int("height_norm", 1, inp=True), fresh_int("rebin", 1, inp=True)
        dx, dy, dz = fresh_int("dx", None, 1, inp=True), fresh_int("dy", None, 1, inp=True), fresh_int("dz", inp=True)
        n = fresh_int("n_words", 0, inp=True)
        raw = SymArr.fresh("raw", (n,), np.uint16, inp=True)
        y0, x0, c0 = fresh_int("y", 0, H), fresh_int("x", 0, W), fresh_int("c", 0, ch)
        sp = FrameSpec(raw.uf, W, H, ch, wn, hn, r, dx, dy, dz, y0, x0, c0, True)
        em = SymArr.fresh("em", (ah, aw), emdt)
        hyper = SymArr.fresh("hyper", (ah, aw, ac), si) if not lazy else None
        e0 = em.expr(y0, x0)
        h0 = hyper.expr(y0, x0, c0) if not lazy else None
        mx = int(np.iinfo(si).max)
        if not lazy:
            assume(z3.And(h0 >= 0, h0 < mx))
        j = fresh_int("earlier", 0)
        tot = fresh_fn("total", I, I)
        assume(tot(0) == 0)
        lists = {}

        def hook(k):
            co = lists["data"]
            assume(tot(k + 1) == tot(k) + z3.If(z3.And(co.fns[0](k) == y0.e, co.fns[1](k) == x0.e,
                                                        co.fns[2](k) == c0.e), 1, 0))

        def mk(old):
            lists["data"] = SymList.of(old, "data", 3, hook)
            return lists["data"]

        def on_item(v, k, item):
            C().ghost["k"] = k.e
            assume(sp.unfold(k.e))
            # subtracting a frame that was added before: what is left is not negative
            if cu == -1 and not lazy:
                assume(h0 >= sp.cnt(k.e + 1))

        def inv(v, k):
            k = ie(k)
            px = ie(v.previous_x) if "previous_x" in v else z3.IntVal(0)
            d = sp.scan(k, ie(v.x), ie(v.y), px, ie(v.previous_y))
            d["words read"] = ie(v.count) == k
            d["frame not over"] = z3.Implies(j.e < k, z3.Not(sp.stop(j.e)))
            d["electron image"] = em.expr(y0, x0) == (e0 + cu * sp.em(k)) % (2 ** (8 * np.dtype(emdt).itemsize))
            he = v.has_em_image
            d["electron image seen"] = (be(he) if not isinstance(he, bool) else z3.BoolVal(he)) == sp.hasem(k)
            if not lazy:
                d["event count"] = z3.And(hyper.expr(y0, x0, c0) == h0 + cu * sp.cnt(k), sp.cnt(k) >= 0,
                                          hyper.expr(y0, x0, c0) < mx)
            else:
                d["event count"] = tot(ie(lists["data"].n)) == sp.cnt(k)
            return d

        def after(v, k):
            C().ghost["k"] = n.e
        C().run.loop_specs = [LoopSpec(
            "words", inv, needs=["count", "previous_y"] + (["data"] if lazy else []), on_item=on_item, after=after,
            types={"data": mk} if lazy else {}, unbound={"previous_x": lambda o: fresh_int("previous_x")},
            mutates=lambda v: [em] + ([hyper] if not lazy else []))]
        C().ghost["k"] = n.e
        m = load_module(J)
        fn = m._readframe_lazy if lazy else m._readframe_dense
        try:
            out = fn(raw, cu, hyper if not lazy else 0, em, W, H, ch, wn, hn, r, dx, dy, dz, mx)
        except ValueError:
            # the documented error: a cell of the image reached the limit of the dtype
            prove(not lazy, "an error only where a count reaches the limit")
            return
        k = C().ghost["k"]
        count, data, has, valid, last = out
        prove(ie(count) == k, "length of the frame")
        prove(z3.Or(k == n.e, sp.stop(k)), "the frame ends at the start of the next one, or at the end of the stream")
        assume(j.e < k)
        prove(z3.Not(sp.stop(j.e)), "the frame is not cut short")
        prove(em.expr(y0, x0) == (e0 + cu * sp.em(k)) % (2 ** (8 * np.dtype(emdt).itemsize)),
              "electron image adds the signal of each pixel")
        if lazy:
            expect(data is lists["data"], "list of events returned")
            prove(tot(ie(data.n)) == sp.cnt(k), "each event listed once in its pixel and channel")
        else:
            prove(hyper.expr(y0, x0, c0) == h0 + cu * sp.cnt(k), "each event counted once in its pixel and channel")
        b = be(valid) if not isinstance(valid, bool) else z3.BoolVal(valid)
        prove(z3.Implies(z3.And(sp.sx(k), sp.sy(k)), b == sp.complete(k)), "frame complete")
        h = be(has) if not isinstance(has, bool) else z3.BoolVal(has)
        prove(h == sp.hasem(k), "electron image present")
    return run


def skip():
    n = fresh_int("n_words", 0, inp=True)
    raw = SymArr.fresh("raw", (n,), np.uint16, inp=True)
    py, sy = fresh_fn("py", I, I), fresh_fn("seen_y", I, B)
    ev = raw.uf
    assume(z3.Not(sy(0)))
    j = fresh_int("earlier", 0)

    def t(k):
        return (ev(k) / 4096) % 16

    def stop(k):
        return z3.And(t(k) == 9, sy(k), ev(k) % 4096 < py(k))

    def on_item(v, k, item):
        k = k.e
        C().ghost["k"] = k
        assume([py(k + 1) == z3.If(t(k) == 9, ev(k) % 4096, py(k)), sy(k + 1) == z3.Or(t(k) == 9, sy(k))])

    def inv(v, k):
        k = ie(k)
        return {"words": ie(v.count) == k, "row": z3.And(z3.Implies(sy(k), z3.And(ie(v.previous_y) == py(k), py(k) >= 0)),
                                                        z3.Implies(z3.Not(sy(k)), ie(v.previous_y) <= 0)),
                "frame not over": z3.Implies(j.e < k, z3.Not(stop(j.e)))}

    def after(v, k):
        C().ghost["k"] = n.e
    C().ghost["k"] = n.e
    C().run.loop_specs = [LoopSpec("words", inv, needs=["count"], on_item=on_item, after=after)]
    m = load_module(J)
    c = m._skip_frame(raw)
    k = C().ghost["k"]
    prove(ie(c) == k, "length of the frame")
    prove(z3.Or(k == n.e, stop(k)), "skips to the start of the next frame")
    assume(j.e < k)
    prove(z3.Not(stop(j.e)), "skips one frame only")


class RawSlice(Sym):
    def __init__(self, p):
        self.p = p

    def __getitem__(self, s):
        return RawSlice(mk_int(ie(self.p) + ie(s.start)))


class Shifts(Sym):
    """shift of each frame; max/min over the chosen frames are named bounds"""

    def __init__(self, fns, lo, hi, n, off=None):
        self.fns, self.lo, self.hi, self.n, self.off = fns, lo, hi, n, off
        self.size = n

    def vc_len(self):
        return self.n

    def __getitem__(self, k):
        if isinstance(k, Frames):
            me = self

            class R:
                def max(self, axis):
                    return np_vec(me.hi)

                def min(self, axis):
                    return np_vec(me.lo)
            return R()
        i = ie(k)
        prove(z3.And(i >= 0, i < ie(self.n)), "frame has a shift")
        return Vec([mk_int(f(i) - (ie(self.off[a]) if self.off else 0)) for a, f in enumerate(self.fns)])

    def __sub__(self, o):
        return Shifts(self.fns, self.lo, self.hi, self.n, o)


class Vec(list):
    def __sub__(self, o):
        return Vec([a - b for a, b in zip(self, o)])


def np_vec(v):
    return Vec(v)


class Frames(SymSeq):
    pass


def cube(sum_frames):
    """frames added up or kept apart, frames located by skipping; the readers of
    one frame by the contracts above"""
    def run():
        L = fresh_int("n_frames_chosen", 1, inp=True)
        M = fresh_int("index_size", 1, inp=True)
        fl = fresh_fn("frame_list", I, I)
        frames = Frames(L, lambda k: mk_int(fl(ie(k))))
        fsi = SymArr.fresh("frame_start_index", (M,), np.int32)
        sweep = fresh_int("sweep", 0, inp=True)
        W, H, ch = fresh_int("width", 1, inp=True), fresh_int("height", 1, inp=True), fresh_int("channels", 1, inp=True)
        START = fresh_fn("start", I, I)        # start of frame number i
        LEN = fresh_fn("length", I, I)         # words of the frame that starts at p
        CNT = fresh_fn("cnt", I, I, I, I, I)   # events of the cell in the frame at p, with a shift
        EMS = fresh_fn("ems", I, I, I, I)
        VALID = fresh_fn("valid", I, B)
        TOT, TEM = fresh_fn("total", I, I), fresh_fn("total_em", I, I)
        ND = fresh_fn("accepted", I, I)
        assume([START(0) == 0, TOT(0) == 0, TEM(0) == 0])
        i_ = z3.Int("i!")
        assume(z3.ForAll([i_], z3.Implies(i_ >= 0, z3.And(START(i_ + 1) == START(i_) + LEN(START(i_)), START(i_) >= 0,
                                                         START(i_) < 2 ** 31, LEN(START(i_)) >= 0)),
                         patterns=[START(i_)]))
        sh = [fresh_fn("shift%d" % a, I, I) for a in range(3)]
        nsh = fresh_int("n_shifts", 1)
        hi = [fresh_int("max_shift%d" % a) for a in range(3)]
        lo = [fresh_int("min_shift%d" % a) for a in range(3)]
        shifts = Shifts(sh, lo, hi, nsh)
        want_w, want_h = W.e + lo[1].e - hi[1].e, H.e + lo[0].e - hi[0].e
        assume([want_w >= 1, want_h >= 1, lo[1].e <= hi[1].e, lo[0].e <= hi[0].e])
        # the cell looked at
        f0 = fresh_int("f", 0)
        y0, x0, c0 = fresh_int("y", 0, mk_int(want_h)), fresh_int("x", 0, mk_int(want_w)), fresh_int("c", 0, ch)
        wn, hn, r = fresh_int("width_norm", 1), fresh_int("height_norm", 1), fresh_int("rebin", 1)

        def known(e, upto=None):
            body = z3.Implies(z3.And(i_ >= 0, i_ < M.e), z3.Or(e(i_) < 0, e(i_) == START(i_)))
            return z3.ForAll([i_], body, patterns=[START(i_)]) if False else z3.ForAll([i_], body)

        def fsi_ok():
            return z3.And(known(lambda i: fsi.expr(mk_int(i))), fsi.expr(0) == 0)
        assume(fsi_ok())
        valid_only = bool(fresh_bool("only_valid_data"))
        st = {"k": z3.IntVal(0), "accepted": None}

        def events(p, fs):
            return CNT(ie(p), ie(fs[0]), ie(fs[1]), ie(fs[2]))

        def fsof(i):
            return [mk_int(sh[0](i) - hi[0].e), mk_int(sh[1](i) - hi[1].e), mk_int(sh[2](i))]

        def readframe(raw, cu, hv, ev, w, h, c, a, b, rr, dx, dy, dz, mx):
            k = st["k"]
            prove(ie(raw.p) == START(fl(k)), "the frame is read from its start")
            want = fsof(fl(k))
            prove([eqi(dy, want[0]), eqi(dx, want[1]), eqi(dz, want[2])], "shift of this frame")
            prove([ie(w) == want_w, ie(h) == want_h, eqi(c, ch), eqi(a, wn), eqi(b, hn), eqi(rr, r)],
                  "size and sampling of the image")
            expect(mx == 2 ** 32 - 1, "limit of the dtype")
            row = 0 if sum_frames else f0.e
            tr = st["row"]()
            for arr, add, idx in ((hv, events(raw.p, (dy, dx, dz)), (y0, x0, c0)),
                                  (ev, EMS(ie(raw.p), ie(dy), ie(dx)), (y0, x0))):
                old = arr.expr(*idx)
                new = SymArr.fresh("after", arr.shape, arr.dtype)
                # precondition of exact counting: no overflow of the dtype
                assume(new.expr(*idx) == old + (cu if isinstance(cu, int) else ie(cu)) * add)
                # contract of the reader of one frame: no words, no events
                assume([add >= 0, z3.Implies(LEN(ie(raw.p)) == 0, add == 0)])
                arr[...] = new
            ln = mk_int(LEN(ie(raw.p)))
            return ln, 0, fresh_bool("has_em"), mk_bool(VALID(ie(raw.p))), fresh_int("max_valid")

        def skip_(raw):
            return mk_int(LEN(ie(raw.p)))
        box = {}

        def inv(v, k):
            k = ie(k)
            d = {"frame starts": fsi_ok(), "target": ie(v.target_frame_num) == (0 if sum_frames else k)}
            hy, em = v.hypermap, v.em_image
            st["row"] = lambda: None
            if sum_frames:
                d["sum of the frames so far"] = z3.And(hy.expr(0, y0, x0, c0) == TOT(k), TOT(k) >= 0)
                d["electron images so far"] = z3.And(em.expr(0, y0, x0) == TEM(k), TEM(k) >= 0)
            else:
                d["each frame so far"] = z3.Implies(f0.e < k, hy.expr(f0, y0, x0, c0) == events(mk_int(START(fl(f0.e))), fsof(fl(f0.e))))
                d["electron images so far"] = z3.Implies(f0.e < k, em.expr(f0, y0, x0) == EMS(START(fl(f0.e)), ie(fsof(fl(f0.e))[0]), ie(fsof(fl(f0.e))[1])))
                d["later frames empty"] = z3.And(z3.Implies(f0.e >= k, hy.expr(f0, y0, x0, c0) == 0),
                                                 z3.Implies(f0.e >= k, em.expr(f0, y0, x0) == 0))
            return d

        def on_item(v, k, item):
            k = k.e
            st["k"] = k
            # precondition: frame numbers are those the caller lets through
            assume(z3.And(fl(k) >= 0, fl(k) < M.e, fl(k) < nsh.e, fl(k) <= sweep.e))
            assume(k <= sweep.e)
            fs = fsof(fl(k))
            assume([TOT(k + 1) == TOT(k) + events(mk_int(START(fl(k))), fs),
                    TEM(k + 1) == TEM(k) + EMS(START(fl(k)), ie(fs[0]), ie(fs[1]))])

        def after(v, k):
            st["k"] = L.e
        if not sum_frames:
            # each frame at most once: the target holds sweep+1 frames
            assume(L.e <= sweep.e + 1)
            assume(f0.e <= sweep.e)

        def outer(fname, loc, it):
            return it is frames

        def w1(v, k):
            return {"index": z3.And(ie(v._i) >= 0, ie(v._i) <= ie(v.frame_idx))}

        def w2(v, k):
            return {"start": z3.And(ie(v.p_start) == START(ie(v.frame_num)), ie(v.frame_num) >= 0,
                                    ie(v.frame_num) <= ie(v.frame_idx)),
                    "frame starts": fsi_ok()}

        class Limit:
            max = 2 ** 32 - 1
        C().run.loop_specs = [
            LoopSpec("frames", inv, needs=["hypermap", "target_frame_num", "frame_start_index"], where=outer, on_item=on_item,
                     after=after, mutates=lambda v: [v.hypermap, v.em_image, fsi],
                     types={"valid": lambda o: fresh_bool("valid")}),
            LoopSpec("skip", w2, needs=["p_start", "frame_num", "frame_idx"], kind="while",
                     where=lambda f, loc, it: True, mutates=lambda v: [fsi]),
        ]
        specs = C().run.loop_specs
        specs[1].where = lambda f, loc, it: eq_done(loc)

        def eq_done(loc):
            # the second while loop starts once p_start is known for _i
            return loc.get("frame_num") is loc.get("_i")
        specs.insert(1, LoopSpec("last known frame", w1, needs=["_i", "frame_idx"], kind="while",
                                 where=lambda f, loc, it: not eq_done(loc)))
        m = load_module(J, np_over={"asarray": lambda a, dtype=None: a, "iinfo": lambda d: Limit})
        m._readframe_dense = readframe
        m._skip_frame = skip_
        out = m._readcube("RAW" and RawSlice(mk_int(z3.IntVal(0))), fsi, frames, W, H, ch, wn, hn, r, np.uint32, sweep,
                          shifts, sum_frames, False, valid_only, False)
        data, em, has, nfr, starts, valid, mxs, fsh = out
        k = st["k"]
        if sum_frames:
            prove([ie(data.shape[0]) == want_h, ie(data.shape[1]) == want_w, eqi(data.shape[2], ch)], "shape of the image")
            prove([ie(em.shape[0]) == want_h, ie(em.shape[1]) == want_w], "shape of the electron image")
            # which frames are in: all before the one where reading stopped, and
            # that one if it holds data and is complete (or all are asked for)
            p = START(fl(k))
            stopped = k < L.e
            prove(data.expr(y0, x0, c0) == TOT(k), "the image is the sum of the frames")
            prove(em.expr(y0, x0) == TEM(k), "the electron image is the sum of the frames")
            prove(z3.Implies(stopped, z3.Or(LEN(p) == 0, z3.And(z3.Not(VALID(p)), valid_only))),
                  "a frame is left out only if it is empty or incomplete")
        else:
            prove([ie(data.shape[0]) == k, ie(data.shape[1]) == want_h, ie(data.shape[2]) == want_w, eqi(data.shape[3], ch)],
                  "shape of the image")
            prove([ie(em.shape[0]) == k, ie(em.shape[1]) == want_h, ie(em.shape[2]) == want_w], "shape of the electron image")
            prove(ie(nfr) == k, "number of frames")
            assume(f0.e < k)
            prove(data.expr(f0, y0, x0, c0) == events(mk_int(START(fl(f0.e))), fsof(fl(f0.e))), "each frame holds its events")
            prove(em.expr(f0, y0, x0) == EMS(START(fl(f0.e)), ie(fsof(fl(f0.e))[0]), ie(fsof(fl(f0.e))[1])),
                  "each electron image holds its signal")
            p = START(fl(k))
            prove(z3.Implies(k < L.e, z3.Or(LEN(p) == 0, z3.And(z3.Not(VALID(p)), valid_only))),
                  "a frame is left out only if it is empty or incomplete")
    return run


CONTRACTS = []
for _si in ("u1", "i2", "u4"):
    for _cu in (1, -1):
        CONTRACTS.append(Contract("one frame, dense, %s, %+d" % (_si, _cu), frame(np.dtype(_si), _cu, np.uint32 if _si == "u4" else np.uint16, False),
                                  [J + ":_readframe_dense"]))
for _cu in (1, -1):
    CONTRACTS.append(Contract("one frame, sparse, %+d" % _cu, frame(np.dtype("u1"), _cu, np.uint16, True), [J + ":_readframe_lazy"]))
CONTRACTS.append(Contract("skip a frame", skip, [J + ":_skip_frame"]))
for _s in (True, False):
    CONTRACTS.append(Contract("frames, %s" % ("summed" if _s else "kept apart"), cube(_s), [J + ":_readcube"], feas_ms=100))

ASSUMPTIONS = [
    "numba compiles the frame readers to what their Python bodies mean (the bodies are verified)",
    "numpy.fromfile of the rest of the file gives its 16 bit words",
    "sums of the electron image stay below 2**32",
    "the assembly of the sparse array from the per-frame event lists (array filtering in _readcube) and the header "
    "parser are only exercised by the bounded search, as is the arithmetic of the axes in _read_pts",
    "frame size and sampling divide 4096; frame shifts are whole pixels",
]


# -- concrete runs of the real code ------------------------------------------

def enc_header(d):
    """writes the header tree as the instrument does (inverse of the parser)"""
    out = bytearray()

    def put(name, v):
        nm = name.encode() + b"\x00"
        out.extend(b"\x01" + struct.pack("<i", len(nm)) + nm)
        if isinstance(v, dict):
            out.extend(struct.pack("<ii", 0, 0))
            for a, b in v.items():
                put(a, b)
        elif isinstance(v, tuple):          # page: (text, children)
            t = v[0].encode() + b"\x00"
            out.extend(struct.pack("<ii", 12, len(t)) + t)
            for a, b in v[1].items():
                put(a, b)
        elif isinstance(v, str):
            t = v.encode() + b"\x00"
            out.extend(struct.pack("<ii", 12, len(t)) + t)
        elif isinstance(v, float):
            out.extend(struct.pack("<iid", 5, 8, v))
        elif isinstance(v, int):
            out.extend(struct.pack("<iii", 3, 4, v))
        out.extend(b"\xff")
    for a, b in d.items():
        put(a, b)
    out.extend(b"\xff")
    return bytes(out)


def write_pts(path, words, w, h, sweep, dwell, coef=(0.01, 0.0), kv=200.0, scan=2.0, mag=1000.0):
    head = enc_header({
        "PTTD Param": {"Params": {"PARAMPAGE0": ("SEM", {"ScanSize": scan, "DirAng": 0.0, "DetT": "D", "ElevAng": 22.0,
                                                        "MnKaRES": 138.0}),
                                  "PARAMPAGE1": ("EDXRF", {"Tpl": {"T1": {"DigZ": 96}}})}},
        "PTTD Data": {"AnalyzableMap MeasData": {
            "MeasCond": {"Mag": mag, "AccKV": kv}, "Meas Cond": {"Pixels": "%dx%d" % (w, h), "Tpl": "T1"},
            "Doc": {"CoefA": coef[0], "CoefB": coef[1], "Sweep": sweep, "DwellTime(msec)": dwell, "RealTime": 1.0}}}})
    head_pos = 400
    data_pos = head_pos + 12 + len(head) + 8
    b = struct.pack("<I", 304) + b"JEOL\0\0\0\0" + struct.pack("<6I", 0, 0, head_pos, len(head), data_pos, 2 * len(words))
    b += b"\0" * 260 + struct.pack("<d", 43000.25)
    b = b.ljust(head_pos + 12, b"\0") + head
    b = b.ljust(data_pos, b"\0") + np.array(words, "<u2").tobytes()
    with open(path, "wb") as f:
        f.write(b)


def split(words):
    out, cur, py = [], [], None
    for v in words:
        if v >> 12 == 9:
            y = v & 0xFFF
            if py is not None and y < py:
                out.append(cur)
                cur = []
            py = y
        cur.append(v)
    if cur:
        out.append(cur)
    return out


def gen_words(rng, w, h, n, em, cut):
    hn, wn = 4096 // h, 4096 // w
    words = []
    starts = []
    burst = rng.choice([0, 0, 0.05])
    for f in range(n):
        last = f == n - 1
        starts.append(len(words))
        stop_row = rng.randrange(h) if (cut and last) else h
        lim = stop_row if stop_row < h - 1 or not (cut and last) else h - 1
        for y in range(lim):
            words.append(0x9000 | (y * hn))
            again = rng.random() < 0.2
            for x in range(w):
                if again and x:
                    words.append(0x9000 | (y * hn))
                words.append(0x8000 | (x * wn))
                if em:
                    words.append(0xA000 | rng.choice([0, 1, 5, 4095]))
                if rng.random() < burst:
                    words += [0xB000 | rng.randrange(4096)] * rng.choice([127, 128, 254, 255, 256, 300])
                for _ in range(rng.choice([0, 0, 1, 2, 3])):
                    words.append(0xB000 | rng.choice([rng.randrange(4096), 0, 4095]))
                if rng.random() < 0.05:
                    words.append(0x6000 | rng.randrange(4096))
        if cut and last and lim == 0:
            words.append(0x9000)
            words.append(0x8000)
            words.append(0xB001)
    return words


def spec_frames(words, w, h, ds, ch, reb):
    """counts, electron image and completeness of each frame"""
    wn, hn = 4096 // w * ds[0], 4096 // h * ds[1]
    W, H = w // ds[0], h // ds[1]
    res = []
    for fr in split(words):
        c, e = {}, np.zeros((H, W), np.int64)
        x = y = 0
        lx = ly = -1
        em = False
        for v in fr:
            t, v = v >> 12, v & 0xFFF
            if t == 8:
                x, lx = v // wn, v
            elif t == 9:
                y, ly = v // hn, v
            elif t == 10:
                e[y, x] += v
                em = True
            elif t == 11:
                c[(y, x, v // reb)] = c.get((y, x, v // reb), 0) + 1
        done = ly // hn == H - 1 and (lx // wn == W - 1 or not em)
        res.append((c, e, done, em))
    return res


def search(s):
    from rsciio.jeol import file_reader
    rng = s.rng
    path = os.path.join(os.environ.get("TMPDIR", "/tmp"), "s%d.pts" % os.getpid())
    for it in range(s.n(700, 12000)):
        if not s.left():
            break
        w, h = rng.choice([1, 2, 4, 8]), rng.choice([2, 4, 8])
        n = rng.randint(1, 4) if rng.random() < 0.93 else rng.randint(16, 18)
        if n > 4:
            w, h = 2, 2
        em = rng.random() < 0.6
        cut = rng.random() < 0.4
        words = gen_words(rng, w, h, n, em, cut)
        reb = rng.choice([512, 1024, 2048, 4096, 256])
        ds = (1, 1)
        if rng.random() < 0.4:
            ds = (rng.choice([a for a in (1, 2, 4, 8) if w % a == 0]), rng.choice([a for a in (1, 2, 4) if h % a == 0 and a < h]))
        dwell = 0.5
        sweep = max(1, n - (1 if cut else 0)) if rng.random() < 0.8 else n
        only_valid = rng.random() < 0.6
        sumf = rng.random() < 0.5
        dtype = rng.choice(["uint16", "uint32", "int32"] * 4 + ["uint8", "int8"])
        cutoff = None
        coef = (0.01, 0.0)
        ch = 4096 // reb
        off = coef[1] - coef[0] * 96
        if rng.random() < 0.3:
            cutoff = off + coef[0] * reb * rng.randint(1, ch)
            ch = int(np.round((cutoff - off) / (coef[0] * reb)))
        specs = spec_frames(words, w, h, ds, ch, reb)
        W, H = w // ds[0], h // ds[1]
        nf = len(specs)
        fl = None
        if rng.random() < 0.5:
            ok = [i for i in range(nf) if specs[i][2] and i <= sweep]
            if ok:
                fl = [rng.choice(ok) for _ in range(rng.randint(1, 4))]
                if not sumf:
                    fl = fl[:sweep + 1]
        shifts = None
        if rng.random() < 0.4:
            k = max(nf, sweep + 1)
            nd = rng.choice([2, 3])
            shifts = [[rng.randint(-(H - 1) // 2, (H - 1) // 2), rng.randint(-((W - 1) // 2), (W - 1) // 2)]
                      + ([rng.randint(-1, 1)] if nd == 3 else []) for _ in range(k)]
            if rng.random() < 0.5:
                shifts = np.array(shifts, dtype=rng.choice([np.int16, int]))
        used = fl if fl is not None else list(range(min(sweep + 1, max(nf, 1) if shifts is None else len(shifts))))
        # what the frames hold
        sh = [[0, 0, 0]] * (max(used) + 1) if shifts is None else [list(map(int, q)) + [0] * (3 - len(q)) for q in shifts]
        cons = fl if fl is not None else [i for i in range(sweep + 1) if i < len(sh) or shifts is None]
        cons = [i for i in cons]
        allsh = [sh[i] if i < len(sh) else [0, 0, 0] for i in cons]
        mx = [max(q[a] for q in allsh) for a in (0, 1)]
        mn = [min(q[a] for q in allsh) for a in (0, 1)]
        H2, W2 = H + mn[0] - mx[0], W + mn[1] - mx[1]
        if H2 < 1 or W2 < 1:
            continue
        cubes, ems, peak = [], [], 0
        tot = np.zeros((H, W, ch), np.int64)
        for i in used:
            if i >= nf:
                break
            c, e, done, hasem = specs[i]
            a = np.zeros((H, W, ch), np.int64)
            b = np.zeros((H, W), np.int64)
            dy, dx, dz = sh[i]
            for (y, x, z), v in c.items():
                q = (y + dy - mx[0], x + dx - mx[1], z + dz)
                if 0 <= q[0] < H2 and 0 <= q[1] < W2 and 0 <= q[2] < ch:
                    a[q] += v
            for y in range(H):
                for x in range(W):
                    q = (y + dy - mx[0], x + dx - mx[1])
                    if 0 <= q[0] < H2 and 0 <= q[1] < W2:
                        b[q] += e[y, x]
            tot = tot + a if sumf else a
            peak = max(peak, tot.max(initial=0))
            if not done and only_valid:
                break
            cubes.append(a[:H2, :W2])
            ems.append(b[:H2, :W2])
        anyem = any(specs[i][3] for i in used if i < nf)
        lazy = rng.random() < 0.5
        case = dict(words=words, size=[w, h], sweep=sweep, rebin_energy=reb, downsample=list(ds), cutoff_at_kV=cutoff,
                    only_valid_data=only_valid, sum_frames=sumf, SI_dtype=dtype, frame_list=fl,
                    frame_shifts=None if shifts is None else np.asarray(shifts).tolist(), lazy=lazy)
        s.note(case)
        write_pts(path, words, w, h, sweep, dwell, coef)
        keep = None if shifts is None else np.array(shifts)
        fsi = None
        if rng.random() < 0.3 and any(q[2] for q in specs[:sweep + 1]):
            # the index of an earlier read of other frames
            pre = [rng.choice([i for i in range(min(nf, sweep + 1)) if specs[i][2]]) for _ in range(rng.randint(1, 2))]
            q = file_reader(path, lazy=False, rebin_energy=4096, SI_dtype=np.int32, frame_list=pre, downsample=1)
            fsi = q[0]["original_metadata"]["jeol_pts_frame_start_index"]
            if rng.random() < 0.5:
                fsi = [int(v) for v in fsi]
            case["frame_start_index"] = [int(v) for v in fsi]
        try:
            r = file_reader(path, lazy=lazy, rebin_energy=reb, sum_frames=sumf, SI_dtype=np.dtype(dtype).type,
                            cutoff_at_kV=cutoff, downsample=ds if rng.random() < 0.5 or ds[0] != ds[1] else ds[0],
                            only_valid_data=only_valid, read_em_image=True, frame_list=fl, frame_shifts=shifts,
                            frame_start_index=fsi)
        except ValueError as exc:
            lim = np.iinfo(dtype).max
            if "range of the dtype" in str(exc) and not lazy:
                s.check(peak >= lim, "the dtype is said to be too small only if it is", case)
                continue
            s.fail("reading fails: %r" % exc, case)
            continue
        except Exception as exc:
            import traceback
            case["traceback"] = traceback.format_exc()[-1500:]
            s.fail("reading fails: %r" % exc, case)
            continue
        if not lazy:
            s.check(peak < np.iinfo(dtype).max, "counts that do not fit the dtype are an error", case)
        if shifts is not None:
            s.check(np.array_equal(keep, shifts), "the shifts passed by the user are left alone", case)
        d = r[0]["data"]
        if lazy:
            d = d.compute()
        d = d.todense() if hasattr(d, "todense") else np.asarray(d)
        want = (np.sum(cubes, axis=0) if cubes else np.zeros((H2, W2, ch), np.int64)) if sumf else \
            (np.array(cubes) if cubes else np.zeros((0, H2, W2, ch), np.int64))
        s.check(d.shape == want.shape and np.array_equal(d.astype(np.int64), want),
                "the spectrum image counts each event of the frames once", dict(case, got=d.tolist(), want=want.tolist()))
        if not lazy:
            s.check(d.dtype == np.dtype(dtype), "dtype asked for", case)
        ax = r[0]["axes"]
        s.check([a["size"] for a in ax] == list(want.shape), "axes have the sizes of the image", dict(case, axes=str(ax)))
        names = ([] if sumf else ["Frame"]) + ["y", "x", "Energy"]
        s.check([a["name"] for a in ax] == names, "names of the axes", case)
        um = 2.0 / 1000.0 * 1e3
        if cubes or sumf:
            ay, axx = ax[-3], ax[-2]
            s.check(np.isclose(ax[-1]["scale"], coef[0] * reb) and np.isclose(ax[-1]["offset"], off), "energy axis", case)
            s.check(np.isclose(ay["scale"], um / H) and np.isclose(axx["scale"], um / W), "pixel size", case)
            s.check(np.isclose(ay["offset"], mx[0] * um / H) and np.isclose(axx["offset"], mx[1] * um / W),
                    "offset of the image", case)
        s.check((len(r) == 2) == anyem or (shifts is not None and len(r) == 1), "electron image returned if there is one", case)
        if anyem and len(r) == 2:
            e = np.asarray(r[1]["data"])
            we = (np.sum(ems, axis=0) if ems else np.zeros((H2, W2), np.int64)) if sumf else \
                (np.array(ems) if ems else np.zeros((0, H2, W2), np.int64))
            s.check(e.shape == we.shape and np.array_equal(e.astype(np.int64), we), "electron image adds up its frames",
                    dict(case, got=e.tolist(), want=we.tolist()))
            s.check([a["size"] for a in r[1]["axes"]] == list(we.shape), "axes of the electron image", case)
            s.check([a["navigate"] for a in r[1]["axes"]] == ([] if sumf else [True]) + [False, False],
                    "the electron image is the signal", case)
