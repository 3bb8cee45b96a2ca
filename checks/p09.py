"""P09 - every accepted result frame is readable; a failed one changes nothing."""
import contextlib
import os
import xml.etree.ElementTree as ET

import numpy as np

from sim import fsim
from sim.core import Scenario, Violation

RULE = ("A plan is 1-3 sessions of one series writer (optionally with another series open beside it), each a sequence of valid and invalid frames, storage faults at "
        "the n-th call into the HDF5 store or the n-th index write, and optionally an exception raised by the caller. "
        "Non-trivial: at least one frame accepted and one rejected frame, fault or caller exception.")
STATE_MEASURE = "distinct (sequence of accepted/rejected/faulted frame kinds, way the session ended) tuples"
TIME_UNIT = "frames"
REAL = "feax.utils.XDMFWriter, _normalize_field, h5py/HDF5, ElementTree, Python file I/O"
STUB = "failures raised at the boundary of h5py calls (before the call or after it took effect) and of file writes"
ASSUMPTIONS = ["an HDF5 call fails as a whole, before or after taking effect; HDF5's own file format survives it",
               "a dead process before the session is closed is not covered: the index is written when the session ends"]
CONFIG = dict(quick=dict(wall_s=35, runs=30000, shrink_s=20, plan_s=60),
              thorough=dict(wall_s=900, runs=10 ** 9, shrink_s=40, plan_s=60))


class Boom(RuntimeError):
    pass


class H5:
    """Seam over the h5py object API."""

    def __init__(self):
        self.plan, self.n, self.depth, self.on = {}, 0, 0, None

    def arm(self, plan, on):
        self.plan, self.n, self.on = dict(plan), 0, on

    def call(self, name, fn, *a, **k):
        if self.depth or self.on is None:
            return fn(*a, **k)
        i, self.n = self.n, self.n + 1
        kind = self.plan.get(i)
        self.depth += 1
        try:
            if kind in ("before", "int"):
                self.on(name, kind)
                raise KeyboardInterrupt("injected") if kind == "int" else OSError(28, f"injected before {name}")
            out = fn(*a, **k)
            if kind == "after":
                self.on(name, kind)
                raise OSError(5, f"injected after {name}")
            return out
        finally:
            self.depth -= 1


SEAM = H5()
SHAPES = {"s": (), "s1": (1,), "v2": (2,), "v3": (3,), "t6": (6,), "t9": (9,), "t33": (3, 3), "t22": (2, 2),
          "b4": (4,), "b5": (5,), "b23": (2, 3), "b333": (3, 3, 3)}
KINDCLASS = {"s": ("Scalar", 1), "s1": ("Scalar", 1), "v2": ("Vector", 2), "v3": ("Vector", 3), "t6": ("Tensor6", 6),
             "t9": ("Tensor", 9), "t33": ("Tensor", 9), "t22": ("Tensor", 9)}


class Series(Scenario):
    prop, name = "P09", "series"
    shrink_lists = ("sessions", "ops", "h5", "xml", "fields")

    def setup(self):
        fsim.install()
        import h5py
        import feax as fe
        import feax.utils as U
        self.h5py, self.fe, self.U = h5py, fe, U

        def wrap(cls, nm):
            orig = getattr(cls, nm)

            def w(obj, *a, **k):
                return SEAM.call(nm, orig, obj, *a, **k)
            setattr(cls, nm, w)
        for nm in ("create_dataset", "create_group", "require_group", "__setitem__"):
            wrap(h5py.Group, nm)

    def gen(self, rng):
        mesh = rng.choice(["TRI3", "QUAD4", "TET4", "HEX8", "TRI6", "TET10"])
        pool = ["s", "s1", "v2", "v3", "t6", "t9", "t33", "t22"]
        nf = rng.choice([1, 1, 2, 3])
        fields = [[rng.choice(["point", "cell"]), f"f{i}" if rng.random() < 0.8 else f"my field {i}",
                   rng.choice(pool)] for i in range(nf)]
        sessions = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            ops = []
            f = [list(x) for x in fields]
            if sessions and rng.random() < 0.5:       # another field set in the next session
                f = [[rng.choice(["point", "cell"]), f"g{i}", rng.choice(pool)] for i in range(rng.choice([1, 2]))]
            long = rng.random() < 0.06
            for k in range(rng.randrange(11, 15) if long else rng.randrange(0, 7)):
                op = dict(time=rng.choice([float(k), k * 0.1, k, 1e-9 * k, k / 3.0]), fields=[list(x) for x in f],
                          seed=rng.randrange(10 ** 6), bad=None, rev=0)
                if rng.random() < (0.05 if long else 0.35):
                    bad = rng.choice(["len", "shape", "rename", "extra", "reshape", "nonnum", "drop"])
                    i = rng.randrange(len(f))
                    if bad == "shape":
                        op["fields"][i][2] = rng.choice(["b4", "b5", "b23", "b333"])
                    elif bad == "rename":
                        op["fields"][i][1] = "other"
                    elif bad == "extra":
                        op["fields"].append(["point", "extra", "s"])
                    elif bad == "drop":
                        op["fields"] = op["fields"][:-1]
                    elif bad == "reshape":
                        op["fields"][i][2] = rng.choice([p for p in pool if KINDCLASS[p] != KINDCLASS[f[i][2]]])
                    else:
                        op["bad"] = bad
                        op["at"] = i
                ops.append(op)
            s = dict(ops=ops, h5=[], xml=[], end=rng.choice(["ok", "ok", "ok", "boom", "int"]))
            if rng.random() < 0.45:
                for _ in range(rng.choice([1, 1, 2])):
                    s["h5"].append([rng.randrange(0, 2 + 4 * len(ops) + 2), rng.choice(["before", "after", "int"])])
            if rng.random() < 0.12:
                s["xml"].append([rng.randrange(3), rng.choice(["enospc", "eio", "torn", "short"])])
            sessions.append(s)
        return dict(mesh=mesh, sessions=sessions, uncaught=int(rng.random() < 0.2),
                    file=rng.choice(["run.xdmf"] * 3 + ["run.v2.xdmf", "a.xdmf.d/run.xdmf", "my run.xdmf", ".xdmf.xdmf"]),
                    sibling=rng.choice([None] * 3 + ["run.v1.xdmf", "other.xdmf", "a.xdmf"]))

    def mesh(self, et):
        nn = {"TRI3": 3, "QUAD4": 4, "TET4": 4, "HEX8": 8, "TRI6": 6, "TET10": 10}[et]
        r = np.random.RandomState(nn)
        dim = 2 if et in ("TRI3", "QUAD4", "TRI6") else 3
        npts = nn + 3
        return self.fe.Mesh(r.rand(npts, dim), np.stack([r.permutation(npts)[:nn] for _ in range(3)]).astype(np.int32), ele_type=et)

    def data(self, op, i, n):
        c, nm, sh = op["fields"][i]
        r = np.random.RandomState((op["seed"] * 31 + i) % 2 ** 31)
        if op["bad"] == "len" and op.get("at") == i:
            n += 1
        if op["bad"] == "nonnum" and op.get("at") == i:
            return ["x"] * n
        return r.standard_normal((n,) + SHAPES[sh]) * 10.0 ** (r.randint(-3, 4))

    def execute(self, plan, res):
        m = self.mesh(plan["mesh"])
        npt, nc = len(m.points), len(m.cells)
        with fsim.FS([]) as fs:
            base = os.path.join(fs.root, "d", plan.get("file", "run.xdmf"))
            w = self.U.XDMFWriter(m, base)
            self.expect_raise(w, res)
            trace = []
            with contextlib.ExitStack() as stack:
                sib = plan.get("sibling")
                if sib:                                # another series, open all the time in the same directory
                    m2 = self.mesh("TRI3" if plan["mesh"] != "TRI3" else "TET4")
                    b2 = os.path.join(fs.root, "d", sib)
                    w2 = self.U.XDMFWriter(m2, b2)
                    mine = []

                    def frame(t):
                        op = dict(time=t, fields=[["point", "q", "v3"]], seed=int(t * 4) + 7, bad=None)
                        pts = [("q", self.data(op, 0, len(m2.points)))]
                        w2.write_iteration(t, point_infos=pts)
                        mine.append((op, pts, []))
                    w2.__enter__()
                    stack.callback(self.quiet_exit, w2)
                    frame(0.5)
                try:
                    for s in plan["sessions"]:
                        self.session(plan, s, w, m, npt, nc, base, fs, res, trace)
                        self.expect_raise(w, res)
                        if sib:
                            frame(mine[-1][0]["time"] + 1)
                finally:
                    SEAM.arm({}, None)
                if sib:
                    w2.__exit__(None, None, None)
                    self.verify(b2, m2, mine, res)
                    stack.pop_all()
            res.states.add("|".join(trace))
            res.nontrivial = any(t == "A" for t in trace) and any(t not in "A" for t in trace)

    @staticmethod
    def quiet_exit(w):
        try:
            w.__exit__(None, None, None)
        except Exception:
            pass

    @staticmethod
    def expect_raise(w, res):
        try:
            w.write_iteration(0, point_infos=[])
        except Exception:
            return
        raise Violation("write-outside-session", "a frame was accepted outside of a session")

    def session(self, plan, s, w, m, npt, nc, base, fs, res, trace):
        fired = []

        def on(name, kind):
            fired.append((name, kind))
            res.faults[f"h5-{kind}"] += 1
            res.ev("h5", name, kind)
        SEAM.arm({i: k for i, k in s["h5"]}, on)
        accepted, sig = [], None
        entered = False
        user = Boom("caller") if s["end"] == "boom" else KeyboardInterrupt("caller") if s["end"] == "int" else None
        out_exc = None
        escaped = None
        fs.fired.clear()
        try:
            with w:
                entered = True
                for k, op in enumerate(s["ops"]):
                    fs.plan = {}
                    n0 = len(fired)
                    pts = [(f[1], self.data(op, i, npt)) for i, f in enumerate(op["fields"]) if f[0] == "point"]
                    cls = [(f[1], self.data(op, i, nc)) for i, f in enumerate(op["fields"]) if f[0] == "cell"]
                    names = [(f[0], f[1]) for f in op["fields"]]
                    valid = op["bad"] is None and all(f[2] in KINDCLASS for f in op["fields"]) \
                        and len(set(names)) == len(names) and bool(names)
                    mysig = [(f[0], f[1], KINDCLASS.get(f[2])) for f in op["fields"]]
                    mysig = [x for x in mysig if x[0] == "point"], [x for x in mysig if x[0] == "cell"]
                    if valid and sig is not None and mysig != sig:
                        valid = False
                    if not names:
                        continue                      # a frame without fields: not specified
                    try:
                        w.write_iteration(op["time"], cell_infos=cls or None, point_infos=pts or None)
                        ok, err = True, None
                    except (Exception, KeyboardInterrupt) as e:
                        ok, err = False, e
                    hit = fired[n0:]
                    res.steps += 1
                    res.sim_time += 1
                    res.ev("frame", k, ok, valid, bool(hit))
                    if ok:
                        if hit:
                            # tolerated only if the frame really is complete: checked below
                            res.probes["fault-survived"] += 1
                        if not valid:
                            raise Violation("invalid-frame-accepted", f"frame {k} of a session accepted: fields "
                                            f"{op['fields']} bad={op['bad']}, series has {sig}")
                        accepted.append((op, pts, cls))
                        if sig is None:
                            sig = mysig
                        trace.append("A")
                    else:
                        if valid and not hit:
                            raise Violation("valid-frame-refused", f"frame {k} refused: {type(err).__name__}: {err}; "
                                            f"earlier in this session: {trace}")
                        trace.append("F" if hit else "R" + (op["bad"] or "sig"))
                        if not hit:
                            res.faults["invalid-frame"] += 1
                        if plan["uncaught"]:
                            escaped = err
                            raise err
                fs.plan = {fs.n + i: kk for i, kk in s["xml"]}
                if user is not None:
                    res.faults["caller-exception"] += 1
                    raise user
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:
            out_exc = e
        fs.plan = {}
        xmlhit = [f for f in fs.fired if f[0] != "short"]
        for f in fs.fired:
            res.faults["index-" + f[0]] += 1
        SEAM.arm({}, None)
        if not entered:
            if not fired:
                raise out_exc
            trace.append("E")
            return
        want = escaped or user
        if want is not None:
            if out_exc is not want:
                raise Violation("exception-masked", f"the caller's {want!r} became {out_exc!r}")
        elif out_exc is not None and not xmlhit:
            raise Violation("close-failed", f"closing the session raised {type(out_exc).__name__}: {out_exc}; frames {trace}")
        if xmlhit:
            if want is None and out_exc is None:
                raise Violation("failure-swallowed", "the index could not be written and nobody was told")
            trace.append("X")
            return
        if want is not None:
            trace.append("U")
        self.verify(base, m, accepted, res)

    def verify(self, base, m, accepted, res):
        def bad(kind, msg):
            raise Violation(kind, msg)
        try:
            root = ET.fromstring(fsim.read(base))
        except Exception as e:
            bad("index-unreadable", f"{type(e).__name__}: {e}")
        grids = [g for g in root.iter("Grid") if g.get("GridType") == "Uniform"]
        if len(grids) != len(accepted):
            bad("frame-count", f"the index lists {len(grids)} frames, {len(accepted)} were accepted")
        h5file = os.path.splitext(base)[0] + ".h5"
        try:
            h5 = self.h5py.File(h5file, "r")
        except Exception as e:
            bad("store-unreadable", f"{type(e).__name__}: {e}")
        try:
            def item(di):
                f, path = di.text.strip().split(":", 1)
                if os.path.join(os.path.dirname(base), f) != h5file or path not in h5:
                    bad("dangling-reference", f"{di.text}")
                return h5[path][()], [int(x) for x in di.get("Dimensions").split()]
            for g, (op, pts, cls) in zip(grids, accepted):
                if float(g.find("Time").get("Value")) != float(op["time"]):
                    bad("frame-time", f"{g.find('Time').get('Value')} instead of {op['time']}")
                t, dims = item(g.find("Topology").find("DataItem"))
                if not np.array_equal(t, np.asarray(m.cells)) or dims != list(t.shape):
                    bad("frame-mesh", "cells differ")
                p, dims = item(g.find("Geometry").find("DataItem"))
                if not np.array_equal(p, np.asarray(m.points)) or dims != list(p.shape):
                    bad("frame-mesh", "points differ")
                atts = {(a.get("Center"), a.get("Name")): a for a in g.findall("Attribute")}
                wanted = [("Node", n, d) for n, d in pts] + [("Cell", n, d) for n, d in cls]
                if len(atts) != len(wanted):
                    bad("frame-fields", f"fields {sorted(atts)}")
                for c, n, d in wanted:
                    a = atts.get((c, n))
                    if a is None:
                        bad("frame-fields", f"field {n} missing, has {sorted(atts)}")
                    arr, dims = item(a.find("DataItem"))
                    exp = np.asarray(d, dtype=np.float32)
                    if exp.ndim == 3 and exp.shape[1:] == (2, 2):
                        pad = np.zeros((len(exp), 3, 3), np.float32)
                        pad[:, :2, :2] = exp
                        exp = pad
                    flat = exp.reshape(len(exp), -1)
                    if arr.size != exp.size or not np.array_equal(np.asarray(arr).reshape(flat.shape), flat):
                        bad("frame-values", f"field {n} of the frame at time {op['time']} holds other values")
                    if dims[0] != len(exp) or int(np.prod(dims)) != exp.size:
                        bad("frame-dims", f"field {n}: dimensions {dims} for an array of shape {exp.shape}")
                    sh = next(f[2] for f in op["fields"] if f[1] == n and f[0] == ("point" if c == "Node" else "cell"))
                    if a.get("AttributeType") != KINDCLASS[sh][0]:
                        bad("frame-type", f"field {n} of kind {sh} declared {a.get('AttributeType')}")
        finally:
            h5.close()
        res.probes["sessions-verified"] += 1


SCENARIOS = [Series()]
