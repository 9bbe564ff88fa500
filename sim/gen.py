"""Seeded generation of cases, one profile per property."""
import copy

from . import arch
from .arch import CONTAINERS, Gen, all_paths, leaf_types, leaves, n_params, node_at, numel, out_shape, param_shapes, shape_at
from .rng import Rng

ACT = set(arch.ACTS) | {"CSq"}
NONE_OK_METRIC = {"Linear", "Conv2d", "MaxPool2d", "Upsample", "Flatten", "Reshape"} | ACT
FOCUS = ["Linear", "Conv2d", "Conv2d", "MaxPool2d", "MaxPool2d", "Upsample", "Upsample", "Flatten", "Reshape", "L2Norm", "Skip", "CPar", "CLin",
         "Softplus", "Tanh", "ReLU", "Sigmoid", "Sinusoidal", "TruncExp"]
NONE_OK_MAT = {"Linear", "Conv2d", "MaxPool2d", "Upsample"} | ACT


class Prog:
    """State of the generation of one case."""

    def __init__(self, prop, seed, tier="quick"):
        self.r = Rng(seed, prop, "case")
        self.prop, self.seed = prop, seed
        self.uid = 0
        self.counter = [0]
        r = self.r
        self.case = {"prop": prop, "seed": seed, "dtype": "f64" if r.chance(0.82) else "f32",
                     "defdtype": "f32" if r.chance(0.9) else "f64", "models": {}, "phases": [], "faults": []}
        self.hows = [("new", 5), ("nc", 1), ("t", 0.7), ("off", 0.7), ("exp", 0.3), ("grad", 0.6), ("node", 0.3), ("hasgrad", 0.3), ("keep", 1),
                     ("buf", 1.5), ("bufdata", 0.7)]
        self.ambs = [(None, 8), ("no_grad", 1.3), ("inference", 0.7)]
        self.big = self.image = False
        self.focus = None
        self.flex = False

    def new_uid(self):
        self.uid += 1
        return self.uid

    def model(self, mid, root=None, shape=None, length=None, **kw):
        r = self.r
        if self.big and shape is None:
            self.image = r.chance(0.35)
            shape = r.pick([(1, 2, 2), (1, 3, 3), (2, 2, 2), (1, 2, 3)]) if self.image else (r.int(1, 3),)
            length = r.int(1, 3)
            kw.update(max_numel=12 if self.image else 8, max_params=24, images=self.image, depth=1)
        odd = root is None and shape is None and length is None and r.chance(0.2 if self.prop == "C04" else 0.08)
        focus = root is None and shape is None and length is None and not odd and r.chance(0.22)
        if focus:
            self.focus = r.pick(FOCUS)
        flex = root is None and shape is None and length is None and not odd and not focus and not self.big and r.chance(0.1)
        for _ in range(50):
            g = Gen(r, self.counter, **kw)
            if flex:  # a model that takes inputs of several sizes
                found = g.focused(r.pick(["Skip", "Skip", "Conv2d", "MaxPool2d", "Upsample", "L2Norm", "Flatten", "Tanh", "Softplus"]), flex=True)
                if found is None:
                    continue
                spec, s = found
                if self.sizes_ok(spec, s) and self.alt_shape(spec, s) != s:
                    self.flex = True
                    break
                continue
            if focus:
                found = g.focused(self.focus)
                if found is None:
                    continue
                spec, s = found
                if self.sizes_ok(spec, s):
                    break
                continue
            if odd:
                spec, s = g.odd()
                o = out_shape(spec, s)
                if o is not None and numel(o) <= 48 and self.sizes_ok(spec, s) and n_params(spec) <= 170:
                    break
                continue
            s = shape or g.input_shape()
            rt = root or r.weighted([("Sequential", 9), ("Skip", 1)])
            spec = g.model(s, length, rt)
            o = out_shape(spec, s)
            if o is not None and numel(o) <= 48:
                break
        else:
            if not flex:
                raise AssertionError("no model")
            return self.model(mid, root, g.input_shape(), r.int(2, 4), **kw)
        if spec["t"] == "Sequential" and arch.convertible(spec) and r.chance(0.35):
            for p in list(all_paths(spec)):
                node_at(spec, p).pop("named", None)
            spec["via"] = "convert"
            for l in leaves(spec):
                if l["t"] == "Conv2d":
                    l["vmap"] = True
        elif spec["t"] == "Sequential" and r.chance(0.15):
            spec["named"] = True
        self.case["models"][mid] = {"spec": spec, "shape": list(s)}
        return spec

    def batch(self, node=None):
        r = self.r
        if self.big:
            return r.pick([9, 11, 17, 33] if self.image else [9, 17, 33, 65, 70, 129])
        return r.weighted([(1, 2), (2, 3), (3, 2.5), (4, 1), (5, 0.5)])

    def xd(self, hows=None):
        r = self.r
        d = {"s": r.seed(), "how": r.weighted(hows or self.hows), "buf": r.below(2)}
        if r.chance(0.25):
            d["scale"] = r.pick([0.2, 0.5, 2.0, 3.0])
        return d

    def md(self):
        r = self.r
        d = {"s": r.seed(), "how": r.weighted([("new", 6), ("nc", 0.7), ("t", 0.5), ("off", 0.5), ("exp", 0.4), ("keep", 0.6), ("buf", 0.6)]),
             "buf": 10 + r.below(2), "kind": r.weighted([("any", 5), ("sym", 2), ("psd", 2), ("pos", 1), ("sparse", 0.7), ("onehot", 0.7)]),
             "cols": r.weighted([(1, 2), (2, 3), (3, 2), (5, 1), (9, 0.3)])}
        if d["how"] == "new" and r.chance(0.12):
            d["rg"] = True
        if not any(h == d["how"] for h, _ in self.hows) and d["how"] != "new":
            d["how"] = "new"
        return d

    def alt_shape(self, spec, shape):
        """Another input shape the model accepts, when there is one."""
        r = self.r
        if len(shape) == 3:
            for _ in range(4):
                s = (shape[0], r.int(2, 5), r.int(2, 5))
                o = out_shape(spec, s)
                if o and numel(s) <= 40 and numel(o) <= 48 and self.sizes_ok(spec, s):
                    return s
        elif not any(l["t"] in ("Linear", "CLin", "CPar", "Reshape") for l in leaves(spec)):
            s = (r.int(2, 7),)
            if out_shape(spec, s):
                return s
        return shape

    @staticmethod
    def sizes_ok(spec, s):
        return all(numel(shape_at(spec, s, p)) <= 48 for p in all_paths(spec))

    def pick_node(self, spec, shape, p_root=0.65):
        r = self.r
        paths = [p for p in all_paths(spec)]
        at = [q for q in paths if node_at(spec, q)["t"] == self.focus] if self.focus else []
        if at and r.chance(0.45):
            path = r.pick(at)
        else:
            path = () if r.chance(p_root) else r.pick(paths)
        return list(path), node_at(spec, path), shape_at(spec, shape, path)

    def call(self, mid, spec=None, shape=None, meths=None, wrt=None, p_root=0.65, alt=0.2, path=None):
        r = self.r
        m = self.case["models"].get(mid)
        spec = spec or m["spec"]
        shape = tuple(shape or m["shape"])
        if r.chance(alt * (3 if self.flex else 1)):
            shape = self.alt_shape(spec, shape)
        if path is None:
            path, node, s = self.pick_node(spec, shape, p_root)
        else:
            node, s = node_at(spec, path), shape_at(spec, shape, path)
        bwd_only = bool(leaf_types(node) & {"Conv2d", "Upsample", "MaxPool2d"})
        w = 0.25 if bwd_only else 1.5
        if self.focus and not meths and not bwd_only and node["t"] == self.focus:
            meths = [(a, 1) for a in ("jacobian", "vjp", "mjp", "jTmjp", "jvp", "jmp", "jmjTp")]
        meth = r.weighted(meths or [("jacobian", 2), ("vjp", 2), ("mjp", 2), ("jTmjp", 4), ("jvp", w), ("jmp", w * 1.2), ("jmjTp", w * 2)])
        wrt = wrt or ("weight" if r.chance(0.55 if n_params(node) else 0.15) else "input")
        op = {"k": "call", "uid": self.new_uid(), "m": mid, "path": path, "meth": meth, "wrt": wrt, "b": self.batch(node),
              "shape": list(s), "x": self.xd(), "mat": None}
        t = node["t"]
        if meth in ("jmjTp", "jTmjp"):
            op["fd"], op["td"] = r.chance(0.5), r.chance(0.5)
            if r.chance(0.25):
                op["fd"] = op["td"] = op["db"] = True
            none_ok = t in CONTAINERS or t in NONE_OK_METRIC
            if not (none_ok and r.chance(0.2)):
                op["mat"] = self.md()
            if meth == "jmjTp" and wrt == "weight" and t == "Sequential" and op["mat"] and r.chance(0.4):
                op["aslist"] = True
        elif meth in ("jmp", "mjp"):
            none_ok = t in CONTAINERS or t in NONE_OK_MAT
            if not (none_ok and r.chance(0.15)):
                op["mat"] = self.md()
        elif meth in ("jvp", "vjp"):
            op["mat"] = self.md()
            if r.chance(0.2):
                op["defwrt"] = True
        if r.chance(0.5):
            op["val"] = "own"
            if r.chance(0.2):
                op["valgrad"] = True
        op["amb"] = r.weighted(self.ambs)
        return op

    def fwd(self, mid, spec=None, shape=None, path=None, hows=None, p_root=0.75, alt=0.2):
        m = self.case["models"].get(mid)
        spec = spec or m["spec"]
        shape = tuple(shape or m["shape"])
        if self.r.chance(alt * (3 if self.flex else 1)):
            shape = self.alt_shape(spec, shape)
        if path is None:
            path, node, s = self.pick_node(spec, shape, p_root)
        else:
            s = shape_at(spec, shape, path)
        return {"k": "fwd", "uid": self.new_uid(), "m": mid, "path": path, "b": self.batch(), "shape": list(s), "x": self.xd(hows),
                "amb": self.r.weighted(self.ambs)}

    def call_xv(self, f, spec=None):
        """A product that reuses input and output of an earlier forward."""
        c = self.call(f["m"], spec=spec, path=f["path"], alt=0)
        c["xv"] = f["uid"]
        c["shape"] = f["shape"]
        c.pop("val", None)
        return c

    def again(self, ops):
        """The same call as an earlier one, at another input."""
        r = self.r
        can = [o for o in ops if o["k"] in ("call", "ll") and "xv" not in o]
        if not can:
            return []
        c = copy.deepcopy(r.pick(can))
        c["uid"] = self.new_uid()
        c["x"] = {**c["x"], "s": r.seed()} if r.chance(0.7) else {**c["x"], "turn": r.pick(["rows", "last", "neg", "nudge", "nudge"])}
        if c.get("mat") and r.chance(0.5):
            c["mat"]["s"] = r.seed()
        if "rows" not in c and r.chance(0.2):
            c["b"] = self.batch()
        return [c]

    def update(self, mid, spec=None, path=None, routes=None):
        r = self.r
        m = self.case["models"].get(mid)
        spec = spec or m["spec"]
        if path is None:
            paths = [p for p in all_paths(spec) if n_params(node_at(spec, p))]
            path = list(r.pick(paths)) if paths and r.chance(0.6) else []
        route = r.weighted(routes or ROUTES)
        return {"k": "update", "uid": self.new_uid(), "m": mid, "path": path, "route": route, "s": r.seed(),
                "fresh": r.chance(0.5), "assign": r.chance(0.3), "vg": r.chance(0.1)}

    def mode(self, mid, spec=None):
        """Switches that change no derivative: training, frozen weights."""
        r = self.r
        spec = spec or self.case["models"][mid]["spec"]
        path = list(r.pick(list(all_paths(spec)))) if r.chance(0.4) else []
        return {"k": "mode", "uid": self.new_uid(), "m": mid, "path": path,
                "what": r.pick(["eval", "eval", "train", "freeze", "freeze", "melt"])}

    def grads(self, mid):
        """The caller accumulated gradients earlier."""
        return {"k": "grads", "uid": self.new_uid(), "m": mid, "path": [], "s": self.r.seed()}

    def fault(self, op, kinds=(("oom", 3), ("intr", 3), ("memerr", 1))):
        r = self.r
        kind = r.weighted(kinds)
        at = r.below(r.pick([2, 5, 10, 20, 40, 80, 160]))
        p = {"kind": kind, "at": at}
        if kind == "oom" and r.chance(0.3):
            p["burst"] = r.pick([0.3, 0.7, 1.0])
        self.case["faults"].append([op["uid"], p])

    def schedule(self, lines=True):
        r = self.r
        self.case["gran"] = r.weighted([("line", 7), ("instr", 1.0), ("torch", 2)]) if lines else "torch"
        m = r.weighted([("uniform", 3), ("burst", 2), ("pct", 4), ("op", 1)])
        if m == "uniform":
            self.case["sched"] = {"mode": m, "p": r.pick([0.02, 0.05, 0.15, 0.4])}
        elif m == "burst":
            self.case["sched"] = {"mode": m, "k": r.pick([3, 10, 30, 100])}
        elif m == "pct":
            est = {"line": 400, "instr": 4000, "torch": 150}[self.case["gran"]]
            self.case["sched"] = {"mode": m, "d": r.int(1, 4), "est": r.pick([est // 4, est, est * 2])}
        else:
            self.case["sched"] = {"mode": m}

    def no_buffers(self):
        self.hows = [(h, w) for h, w in self.hows if h not in ("buf", "bufdata")]

    def safe_hows(self):
        """For inputs that must keep their content until the end of the program."""
        return [("new", 5), ("nc", 1), ("t", 0.5), ("off", 0.5)]


ROUTES = [("setw", 3), ("copy_", 1.5), ("data_copy", 1.5), ("data_assign", 1.5), ("data_mul", 1.5), ("index", 1), ("replace", 1),
          ("v2p", 1), ("load", 1.5), ("sgd", 1.5), ("adam", 0.7), ("dtype", 0.8), ("memory", 1), ("swap", 0.8), ("reset", 0.7), ("storage", 0.6), ("layout", 1),
          ("permute", 0.7), ("negate", 0.5), ("nudge", 0.8)]


def histories(p, mids, n, xv=True, modes=True):
    """A mixed list of forwards and products on the models."""
    r, ops, fw = p.r, [], []
    for _ in range(n):
        mid = r.pick(mids)
        if xv and fw and r.chance(0.22):
            ops.append(p.call_xv(r.pick(fw)))
        elif modes and r.chance(0.04):
            ops.append(p.mode(mid))
        elif ops and r.chance(0.12):
            ops += p.again(ops)
        elif r.chance(0.25):
            f = p.fwd(mid, hows=p.safe_hows() if xv else None)
            fw.append(f)
            ops.append(f)
        else:
            ops.append(p.call(mid))
    return ops


def gen_C01(p):
    r = p.r
    if r.chance(0.04):  # a long life: many cheap calls at a few inputs
        p.model("m0", shape=(r.int(1, 3),) if r.chance(0.7) else (1, 2, 2), length=r.int(1, 3), max_numel=6, max_params=16, depth=1)
        p.case["phases"] = [[histories(p, ["m0"], r.int(30, 90))]]
        return
    if r.chance(0.05):
        p.big = True
        p.model("m0")
    elif r.chance(0.04):  # wide
        a, b = r.pick([(2, 40), (33, 3), (20, 20), (1, 65), (66, 2)])
        spec = {"t": "Sequential", "oid": 1, "hooks": True, "ch": [
            {"t": "Linear", "oid": 2, "in": a, "out": b, "bias": r.chance(0.5)}, {"t": "Tanh", "oid": 3},
            {"t": "Linear", "oid": 4, "in": b, "out": r.int(1, 3), "bias": r.chance(0.5)}]}
        p.counter[0] = 4
        p.case["models"]["m0"] = {"spec": spec, "shape": [a]}
    else:
        p.model("m0", length=r.pick([None, None, None, None, 8, 10]))
    mids = ["m0"]
    if r.chance(0.3) and not p.big:
        p.model("m1")
        mids.append("m1")
    p.case["phases"] = [[histories(p, mids, r.int(4, 9))]]


def gen_C02(p):
    r = p.r
    shared = r.chance(0.3)
    p.ambs = [(None, 8), ("no_grad", 1)]
    p.model("m0", max_numel=28, max_params=80)
    mids = ["m0"]
    if shared:
        add_sharing_model(p, "m1", ["m0"])
        mids.append("m1")
    nt = r.weighted([(2, 7), (3, 3), (4, 0.6)])
    tasks = []
    focus = r.chance(0.5)
    base = p.call("m0") if focus else None
    for t in range(nt):
        ops = []
        for _ in range(r.int(1, 3)):
            if focus and r.chance(0.6):  # the same method at other inputs
                c = copy.deepcopy(base)
                c["uid"] = p.new_uid()
                c["b"] = p.batch()
                c["x"] = p.xd()
                if p.flex and r.chance(0.6):
                    m0 = p.case["models"]["m0"]
                    c["shape"] = list(shape_at(m0["spec"], p.alt_shape(m0["spec"], tuple(m0["shape"])), c["path"]))
                if c.get("mat"):
                    c["mat"] = {**c["mat"], "s": r.seed()}
                ops.append(c)
            elif r.chance(0.25):
                ops.append(p.fwd(r.pick(mids)))
            elif r.chance(0.15):
                f = p.fwd(r.pick(mids), hows=p.safe_hows())
                ops += [f, p.call_xv(f)]
            elif r.chance(0.1):
                ops.append(ll_op(p, r.pick(mids)))
            elif r.chance(0.06) and n_params(p.case["models"]["m0"]["spec"]):
                ops.append({"k": "getw", "uid": p.new_uid(), "m": "m0", "path": [], "scribble": False})
            else:
                ops.append(p.call(r.pick(mids)))
        tasks.append(ops)
    p.case["phases"] = [tasks]
    p.schedule()


def gen_C03(p):
    r = p.r
    p.model("m0", max_numel=32, max_params=90)
    mids = ["m0"]
    if r.chance(0.25):
        add_sharing_model(p, "m1", ["m0"])
        mids.append("m1")
    nt = 2 if r.chance(0.2) else 1
    tasks = []
    for t in range(nt):
        ops, fw = [], []
        for _ in range(r.int(1, 2)):
            f = p.fwd(r.pick(mids), hows=p.safe_hows(), alt=0.1)
            fw.append(f)
            ops.append(f)
        for _ in range(r.int(2, 4)):
            z = r.rand()
            mid = r.pick(mids)
            if z < 0.3:
                ops.append(bad_op(p, mid))
            elif z < 0.85:
                c = p.call(mid) if r.chance(0.7) else (p.fwd(mid) if r.chance(0.5) else p.call_xv(r.pick(fw)))
                if r.chance(0.1):
                    c = ll_op(p, mid)
                p.fault(c)
                ops.append(c)
            else:
                ops.append(p.call(mid))
            if r.chance(0.5):
                ops.append(p.call_xv(r.pick(fw)) if r.chance(0.5) else p.call(mid))
        ops.append(p.call_xv(r.pick(fw)))
        ops.append(p.call(r.pick(mids), p_root=0.9))
        tasks.append(ops)
    p.case["phases"] = [tasks]
    if r.chance(0.4):
        p.case["phases"].insert(0, [[p.grads(m) for m in mids]])
    if nt > 1:
        p.schedule(lines=r.chance(0.5))


def bad_op(p, mid, spec=None, shape=None):
    r = p.r
    m = p.case["models"][mid]
    path, node, s = p.pick_node(m["spec"], tuple(m["shape"]), 0.8)
    if r.chance(0.12):
        o = ll_op(p, mid)
        o.update(k="bad", meth="ll", how=r.pick(["x", "m", "wrt", "dtype", "type"]), s=r.seed(), x=p.xd([("new", 1), ("nc", 0.3)]))
        return o
    meth = r.weighted([("forward", 1), ("jacobian", 1.5), ("jvp", 1), ("jmp", 1), ("jmjTp", 1), ("vjp", 1.5), ("mjp", 1.5), ("jTmjp", 2), ("set_weight", 0.6)])
    how = r.weighted([("x", 2), ("m", 2), ("empty", 0.5), ("wrt", 0.7), ("dtype", 1), ("type", 0.7), ("db", 0.7 if meth in ("jTmjp", "jmjTp") else 0)])
    return {"k": "bad", "uid": p.new_uid(), "m": mid, "path": path, "shape": list(s), "b": p.batch(), "x": p.xd([("new", 1), ("nc", 0.3)]),
            "meth": meth, "wrt": r.pick(["input", "weight"]), "how": how, "s": r.seed(), "td": r.chance(0.5)}


def gen_C04(p):
    r = p.r
    p.no_buffers()
    p.model("m0", max_numel=28, max_params=80)
    mids = ["m0"]
    nt = 2 if r.chance(0.15) else 1
    tasks = []
    for t in range(nt):
        ops = histories(p, mids, r.int(2, 5), modes=(nt == 1))
        for _ in range(r.weighted([(0, 4), (1, 4), (2, 2)])):
            ops.append(ll_op(p, "m0"))
        if r.chance(0.35):
            ops += p.again([o for o in ops if o["k"] == "ll"])
        tasks.append(ops)
    p.case["phases"] = [tasks]
    if nt > 1:
        p.schedule(lines=False)
    else:
        tail = []
        for _ in range(r.int(1, 2)):
            tail.append(p.update("m0", routes=[("setw", 2), ("copy_", 2), ("data_copy", 2), ("data_mul", 2), ("sgd", 2), ("index", 1)]))
            tail += histories(p, mids, r.int(1, 2), xv=False)
        p.case["phases"].append([tail])
    if r.chance(0.4):
        p.case["phases"].insert(0, [[p.grads("m0")]])


def gen_C05(p):
    r = p.r
    p.model("m0")
    mids = ["m0"]
    p.hows = p.hows + [("keep", 4)]
    ops = histories(p, mids, r.int(1, 3), xv=False)
    last = None
    turns = None
    if r.chance(0.15):
        p.case["dyadic"] = True
        turns = [("permute", 6), ("negate", 3), ("swap", 2), ("setw", 1), ("sgd", 1)]
    for _ in range(r.int(2, 5)):
        c = last if last is not None and r.chance(0.6) else p.call("m0", p_root=0.8)
        if c["x"]["how"] not in ("keep",) and r.chance(0.6):
            c["x"]["how"] = "keep"
        a = copy.deepcopy(c)
        a["uid"] = p.new_uid()
        ops.append(a)
        ops.append(p.update("m0", routes=turns))
        if r.chance(0.3):
            ops.append(p.update("m0"))
        if r.chance(0.15):
            ops.append(p.mode("m0"))
        b = copy.deepcopy(c)
        b["uid"] = p.new_uid()
        ops.append(b)
        if r.chance(0.4):
            ops.append(p.fwd("m0"))
        last = c
    p.case["phases"] = [[ops]]


def gen_C06(p):
    r = p.r
    p.model("m0")
    mids = ["m0"]
    if r.chance(0.35):
        add_sharing_model(p, "m1", ["m0"])
        mids.append("m1")
    if not n_params(p.case["models"]["m0"]["spec"]):
        p.model("m0", shape=(3,), length=4)
    ops, got = [], []
    for _ in range(r.int(4, 9)):
        mid = r.pick(mids)
        spec = p.case["models"][mid]["spec"]
        paths = [q for q in all_paths(spec) if n_params(node_at(spec, q))]
        path = list(r.pick(paths)) if paths and r.chance(0.4) else []
        z = r.rand()
        if z < 0.25:
            o = {"k": "getw", "uid": p.new_uid(), "m": mid, "path": path, "scribble": r.chance(0.35)}
            if not o["scribble"]:
                got.append((o["uid"], mid, path))
            ops.append(o)
        elif z < 0.7:
            o = {"k": "setw", "uid": p.new_uid(), "m": mid, "path": path, "s": r.seed(), "scribble": r.chance(0.4),
                 "how": r.weighted([("new", 5), ("nc", 1), ("off", 0.7), ("grad", 0.5)])}
            if r.chance(0.12):
                o["near"] = r.pick(["all", "one", "same"])
            if o["how"] in ("off", "grad"):
                o["scribble"] = o["how"] == "off" and o["scribble"]
            z2 = r.rand()
            if z2 < 0.2:
                n = n_params(node_at(spec, path))
                o["extra"] = r.pick([1, 2, 5, n, -1, -min(3, n), -n])
            elif z2 < 0.4 and got:
                u, m2, p2 = r.pick(got)
                o.update(src=u, m=m2, path=p2, scribble=False)
            elif z2 < 0.75:
                p.fault(o, (("intr", 4), ("oom", 2), ("memerr", 1)))
                p.case["faults"][-1][1]["at"] = r.below(r.pick([2, 4, 8, 16, 30]))
            ops.append(o)
        elif z < 0.82:
            ops.append(p.mode(mid) if r.chance(0.35) else
                       p.update(mid, routes=[("copy_", 1), ("data_mul", 1), ("sgd", 1), ("replace", 0.5), ("layout", 2), ("load", 0.6),
                                             ("data_assign", 0.6), ("v2p", 0.5), ("storage", 0.4), ("swap", 0.4)] + ([("dtype", 0.4)] if len(mids) == 1 else [])))
        else:
            ops.append(p.call(mid, meths=[("jacobian", 3), ("vjp", 1), ("mjp", 1)], wrt="weight"))
    ops.append({"k": "getw", "uid": p.new_uid(), "m": "m0", "path": [], "scribble": False})
    ops.append(p.call("m0", meths=[("jacobian", 1)], wrt="weight", p_root=1.0))
    p.case["phases"] = [[ops]]


def gen_C07(p):
    r = p.r
    p.model("m0")
    if r.chance(0.3):
        p.case["shared_inside"] = share_inside(p, "m0")
    spec = p.case["models"]["m0"]["spec"]
    nt = 2 if r.chance(0.2) else 1
    tasks = [[] for _ in range(nt)]
    ops = tasks[0]
    ops += histories(p, ["m0"], r.int(0, 3), modes=(nt == 1))
    if nt == 1 and r.chance(0.2) and not p.case.get("shared_inside"):
        spec = copy.deepcopy(spec)
        for _ in range(r.int(1, 2)):
            e = edit_op(p, spec, tuple(p.case["models"]["m0"]["shape"]))
            if e is not None:
                ops.append(e)
    mids = {"m0": spec}
    shapes = {"m0": p.case["models"]["m0"]["shape"]}

    def use(n, who=None):
        out = []
        for _ in range(n):
            mid = who or r.pick(sorted(mids))
            out.append(p.call(mid, mids[mid], shapes[mid]) if r.chance(0.8) else p.fwd(mid, mids[mid], shapes[mid]))
        return out

    names = []
    for i in range(r.int(1, 3)):
        src = r.pick(sorted(mids))
        path = []
        if r.chance(0.2):
            path = list(r.pick(list(all_paths(mids[src]))))
        new = f"c{i}"
        if r.chance(0.6):
            how = r.weighted([("deepcopy", 4), ("pickle", 3), ("save", 2), ("state", 2)])
            ops.append({"k": "copy", "uid": p.new_uid(), "m": src, "path": path, "how": how, "new": new, "proto": r.pick([2, 4, 5])})
            if r.chance(0.15):
                p.fault(ops[-1], (("intr", 1), ("oom", 1)))
        else:
            name = f"f{i}"
            io = None
            if r.chance(0.4):
                io = {"kind": r.weighted([("enospc", 2), ("eio", 1), ("short", 1), ("lost", 0.5), ("iocrash", 2)]), "at": r.below(r.pick([2, 6, 15]))}
            if r.chance(0.5):  # an older complete checkpoint exists
                ops.append({"k": "ckpt", "uid": p.new_uid(), "m": src, "path": path, "name": name, "how": r.pick(["pickle", "save", "state"])})
                ops += use(1)
                ops.append(p.update(src, mids[src]))
            ops.append({"k": "ckpt", "uid": p.new_uid(), "m": src, "path": path, "name": name, "how": r.pick(["pickle", "save", "state"]), "io": io})
            names.append((name, src, path))
            ops.append({"k": "restore", "uid": p.new_uid(), "name": name, "new": new})
        mids[new] = node_at(mids[src], path)
        shapes[new] = list(shape_at(mids[src], shapes[src], path))
        ops += use(r.int(0, 1))
        ops.append(p.update(r.pick([src, new]), None if False else mids[src] if r.chance(0.5) else mids[new], path=[],
                            routes=[(a, b) for a, b in ROUTES if a not in ("dtype",)]))
        ops += use(1, new)
        ops += use(1, src)
    for t in tasks[1:]:
        t += [p.call("m0", mids["m0"], shapes["m0"]) for _ in range(2)]
    p.case["phases"] = [tasks]
    if names:  # after a crash: only the disk is left
        ops2 = []
        for i, (name, src, path) in enumerate(names):
            new = f"r{i}"
            ops2.append({"k": "restore", "uid": p.new_uid(), "name": name, "new": new})
            mids2 = node_at(mids[src], path)
            sh = list(shape_at(mids[src], shapes[src], path))
            ops2 += [p.call(new, mids2, sh), p.fwd(new, mids2, sh)]
        p.case["phases"].append([ops2])
    if nt > 1:
        # a copy is taken while another task uses the model: no updates then
        p.case["phases"][0][0] = [o for o in tasks[0] if o["k"] != "update"]
        p.schedule(lines=r.chance(0.6))


def _plain(n):
    return {k: [_plain(c) for c in v] if k == "ch" else v for k, v in sorted(n.items()) if k != "via"}


def consistent(*specs):
    """Every object is described the same wherever it occurs, and does not contain itself."""
    seen = {}
    for spec in specs:
        for q in all_paths(spec):
            n = node_at(spec, q)
            n = str(_plain(n))
            oid = node_at(spec, q)["oid"]
            if seen.setdefault(oid, n) != n:
                return False
    return True


def share_inside(p, mid):
    """Use a parameterless layer object of the model at several places of it."""
    before = copy.deepcopy(p.case["models"][mid]["spec"])
    done = _share_inside(p, mid)
    if not consistent(p.case["models"][mid]["spec"]):
        p.case["models"][mid]["spec"] = before
        return False
    return done


def _share_inside(p, mid):
    r = p.r
    spec = p.case["models"][mid]["spec"]
    if spec.get("via"):
        return False
    shape = p.case["models"][mid]["shape"]
    spots = [(q, node_at(spec, q)) for q in all_paths(spec) if q]
    pool = [n for _, n in spots if n_params(n) == 0 and (n["t"] in ACT or n["t"] in ("MaxPool2d", "Upsample", "Flatten", "L2Norm") or n["t"] == "Sequential")]
    if not pool:
        return False
    done = False
    for _ in range(r.int(1, 3)):
        n = r.pick(pool)
        if r.chance(0.6):  # insert it somewhere else
            conts = [q for q in all_paths(spec) if node_at(spec, q)["t"] in CONTAINERS]
            c = node_at(spec, r.pick(conts))
            if any(x is n for x in _ancestors(n, c)):
                continue
            i = r.below(len(c["ch"]) + 1)
            c["ch"].insert(i, copy.deepcopy(n))
            o = out_shape(spec, shape)
            if o is None or numel(o) > 48 or not p.sizes_ok(spec, tuple(shape)) or _tricky(spec):
                del c["ch"][i]
                continue
            done = True
        else:  # let it take the place of one of its kind
            same = [(q, x) for q, x in spots if x is not n and x["t"] == n["t"] and x["oid"] != n["oid"] and n["t"] not in CONTAINERS]
            if same:
                q, x = r.pick(same)
                try:
                    if node_at(spec, q) is not x:
                        continue
                except (IndexError, KeyError):
                    continue
                par = node_at(spec, q[:-1])
                old = par["ch"][q[-1]]
                par["ch"][q[-1]] = copy.deepcopy(n)
                if out_shape(spec, shape) is None or not p.sizes_ok(spec, tuple(shape)):
                    par["ch"][q[-1]] = old
                else:
                    done = True
    return done


def _ancestors(n, c):
    """Nodes from which c would be reached inside n (inserting n into itself is not possible)."""
    out = []
    if n["t"] in CONTAINERS:
        for q in all_paths(n):
            if node_at(n, q)["oid"] == c["oid"]:
                out.append(n)
    return out


def _tricky(spec):
    """More than one TruncExp in a chain explodes; pooling right after Upsample or ReLU has ties."""
    ls = list(leaves(spec))
    if sum(l["t"] == "TruncExp" for l in ls) > 1:
        return True
    return any(a["t"] in ("Upsample", "ReLU", "MaxPool2d") and b["t"] == "MaxPool2d" for a, b in zip(ls, ls[1:]))


def add_sharing_model(p, mid, others):
    """A second model built out of layer objects of the first, and new ones."""
    r = p.r
    src = r.pick(others)
    m = p.case["models"][src]
    spec, shape = m["spec"], tuple(m["shape"])
    paths = [q for q in all_paths(spec) if q]
    z = r.rand()
    if z < 0.35 and spec["t"] in CONTAINERS:
        # a run of consecutive layers, maybe extended
        n = len(spec["ch"])
        i = r.below(n)
        j = r.int(i + 1, n)
        ch = [copy.deepcopy(c) for c in spec["ch"][i:j]]
        s = shape_at(spec, shape, (i,))
    elif z < 0.5:
        ch = [copy.deepcopy(spec)]
        s = shape
    else:
        q = r.pick(paths)
        ch = [copy.deepcopy(node_at(spec, q))]
        s = shape_at(spec, shape, q)
    new = {"t": "Sequential", "oid": 0, "ch": ch, "hooks": r.chance(0.7)}
    p.counter[0] += 1
    new["oid"] = p.counter[0]
    o = out_shape(new, s)
    if r.chance(0.6) and o is not None and sum(l["t"] == "TruncExp" for l in leaves(new)) == 0:
        g = Gen(r, p.counter, max_numel=28, max_params=40, depth=1)
        extra, _ = g.chain(o, r.int(1, 2), 1)
        new["ch"] = new["ch"] + extra
        if out_shape(new, s) is None or _tricky(new) or numel(out_shape(new, s)) > 48:
            new["ch"] = new["ch"][: len(ch)]
    for c in new["ch"]:
        for q in all_paths(c):
            node_at(c, q).pop("via", None)
    assert consistent(new, *[m["spec"] for m in p.case["models"].values()])
    p.case["models"][mid] = {"spec": new, "shape": list(s)}
    return new


def gen_C08(p):
    r = p.r
    p.model("m0", depth=2)
    inside = share_inside(p, "m0") if r.chance(0.7) else False
    mids = ["m0"]
    if not inside or r.chance(0.6):
        add_sharing_model(p, "m1", ["m0"])
        mids.append("m1")
        if r.chance(0.3):
            add_sharing_model(p, "m2", ["m0"])
            mids.append("m2")
    two = r.chance(0.2)
    ops = []
    for _ in range(r.int(3, 7)):
        z = r.rand()
        if z < 0.12 and not two:
            ops.append(p.update(r.pick(mids), routes=[("setw", 2), ("copy_", 2), ("data_mul", 1), ("sgd", 1), ("load", 1)]))
        elif z < 0.2 and p.case["models"]["m0"]["spec"]["t"] == "Sequential" and not two:
            n = len(p.case["models"]["m0"]["spec"]["ch"])
            i = r.below(n)
            j = r.int(i + 1, n)
            new = f"s{p.uid}"
            ops.append({"k": "slice", "uid": p.new_uid(), "m": "m0", "path": [], "i": i, "j": j, "new": new})
            sp = {"t": "Sequential", "oid": -1, "ch": p.case["models"]["m0"]["spec"]["ch"][i:j]}
            sh = list(shape_at(p.case["models"]["m0"]["spec"], p.case["models"]["m0"]["shape"], [i]))
            ops.append(p.call(new, sp, sh))
        else:
            f = r.chance(0.25)
            ops.append(p.fwd(r.pick(mids)) if f else ll_op(p, r.pick(mids)) if r.chance(0.06) else p.call(r.pick(mids), p_root=0.85))
    if two:
        p.case["phases"] = [[ops, [p.call(r.pick(mids), p_root=0.85) for _ in range(2)]]]
        p.schedule()
    else:
        p.case["phases"] = [[ops]]


def gen_C09(p):
    r = p.r
    p.model("m0", root="Sequential" if r.chance(0.85) else "Skip", depth=2, max_params=90)
    spec = copy.deepcopy(p.case["models"]["m0"]["spec"])
    shape = tuple(p.case["models"]["m0"]["shape"])
    # usually all layers are kept small, so that edits keep the shapes compatible
    ops = histories(p, ["m0"], r.int(0, 2), xv=False)
    n_edits = 0
    for _ in range(r.int(2, 5)):
        e = edit_op(p, spec, shape)
        if e is not None:
            ops.append(e)
            n_edits += 1
        for _ in range(r.int(1, 2)):
            z = r.rand()
            if r.chance(0.05):
                ops.append(p.mode("m0", spec))
            if z < 0.7:
                ops.append(p.call("m0", spec, shape, p_root=0.85, alt=0))
            elif z < 0.8:
                ops.append(p.fwd("m0", spec, shape, alt=0))
            elif z < 0.9:
                ops.append(p.update("m0", spec))
            elif n_params(spec):
                ops.append({"k": "getw", "uid": p.new_uid(), "m": "m0", "path": [], "scribble": False})
    ops.append(p.call("m0", spec, shape, p_root=1.0, alt=0))
    ops.append(p.call("m0", spec, shape, p_root=1.0, alt=0, wrt="weight"))
    p.case["phases"] = [[ops]]


def edit_op(p, spec, shape):
    from .world import World

    r = p.r
    for _ in range(12):
        conts = [q for q in all_paths(spec) if node_at(spec, q)["t"] in CONTAINERS]
        path = list(r.pick(conts)) if r.chance(0.5) else []
        node = node_at(spec, path)
        ch = node["ch"]
        n = len(ch)
        what = r.weighted([("append", 3), ("insert", 2), ("extend", 1), ("iadd", 0.7), ("setitem", 3), ("delitem", 2), ("delslice", 0.6),
                           ("pop", 1), ("name", 0.8), ("add_module", 0.8), ("swap", 1.5), ("again", 0.8)])
        if what == "insert" and (node.get("named") or node.get("_odd")):
            continue  # torch.nn.Sequential.insert only works with the default names
        if p.prop == "C07" and (what == "add_module" or (node.get("named") and what not in ("setitem", "name", "swap"))):
            continue  # the names in a state are those of a newly built model
        i = r.below(n + 1 if what == "insert" else max(n, 1))
        op = {"k": "edit", "uid": p.uid + 1, "m": "m0", "path": path, "what": what, "i": i}
        g = Gen(r, p.counter, max_numel=36, max_params=60, depth=1)
        g.trunc = not any(l["t"] == "TruncExp" for l in leaves(spec))
        s = shape_at(spec, shape, path)
        at = {"append": n, "extend": n, "iadd": n, "add_module": n, "insert": i, "setitem": i, "name": i}.get(what)
        if at is not None:
            for c in ch[:at]:
                s = out_shape(c, s)
            new, _ = g.chain(s, 2 if what in ("extend", "iadd") else 1, 1)
            if what in ("setitem", "name") and r.chance(0.6):
                # the same kind with the same output, so that what follows still fits
                old = ch[i]
                if old["t"] == "Linear":
                    new = [g.leaf("Linear", **{"in": old["in"], "out": old["out"], "bias": r.chance(0.5)})]
                elif old["t"] == "Conv2d":
                    new = [{**copy.deepcopy(old), "oid": g.oid(), "bias": r.chance(0.5)}]
            if not new:
                continue
            op["new"] = new
        if what == "delslice":
            op["j"] = r.int(i + 1, n)
        if what == "swap":
            if n < 2:
                continue
            op["j"] = r.pick([k for k in range(n) if k != i])
        if what == "again":  # a layer that was removed comes back, at the end
            pool = [x for x in p.case.get("removed", []) if not any(node_at(spec, q)["oid"] == y["oid"] for q in all_paths(spec) for y in [x] + list(leaves(x)))]
            if not pool:
                continue
            op["new"] = [copy.deepcopy(r.pick(pool))]
        if what in ("delitem", "setitem", "pop") and r.chance(0.25):
            op["i"] = i - n  # negative index
        trial = copy.deepcopy(spec)
        World.edit_spec(node_at(trial, path)["ch"], what, op["i"], op.get("j"), [copy.deepcopy(x) for x in op.get("new", [])])
        o = out_shape(trial, shape)
        if not node_at(trial, path)["ch"] or o is None or numel(o) > 48 or _tricky(trial) or not p.sizes_ok(trial, shape) or n_params(trial) > 170:
            continue
        if what in ("delitem", "pop", "setitem", "name"):
            p.case.setdefault("removed", []).append(copy.deepcopy(ch[op["i"]]))
        World.edit_spec(ch, what, op["i"], op.get("j"), [copy.deepcopy(x) for x in op.get("new", [])])
        if what == "add_module":
            node["_odd"] = True
        p.new_uid()
        return op
    return None


def ll_op(p, mid, spec=None, shape=None, **kw):
    r = p.r
    m = p.case["models"][mid]
    dist = r.pick(["LogGaussian", "LogBinaryBernoulli", "LogBernoulli"])
    what = r.weighted([("forward", 2), ("gradient", 3), ("ggn", 5)])
    ms = r.pick(["diag", "full"])
    mb = "approx" if ms == "diag" and dist != "LogBernoulli" and r.chance(0.35) else "exact"
    wrt = "weight" if n_params(m["spec"]) and r.chance(0.7) else "input"
    op = {"k": "ll", "uid": p.new_uid(), "m": mid, "path": [], "b": p.batch(), "shape": list(shape or m["shape"]), "x": p.xd(),
          "ts": r.seed(), "dist": dist, "what": what, "agg": r.pick(["return all", "sum", "average"]), "ms": ms, "mb": mb, "wrt": wrt,
          "onehot": r.chance(0.7), "tk": r.weighted([("hard", 5), ("soft", 1.5), ("met", 1.5)]), "passt": r.chance(0.7), "amb": r.weighted(p.ambs)}
    op.update(kw)
    return op


def gen_C10(p):
    r = p.r
    big = r.chance(0.06)
    if big:
        p.big = True
        p.model("m0")
    else:
        p.model("m0", max_numel=24, max_params=90)
    spec = p.case["models"]["m0"]["spec"]
    if r.chance(0.25):  # a last layer that gives large logits
        s = p.case["models"]["m0"]["shape"]
        o = out_shape(spec, s)
        if len(o) == 1 and spec["t"] == "Sequential" and not spec.get("via"):
            p.counter[0] += 1
            spec["ch"].append({"t": "Linear", "oid": p.counter[0], "in": o[0], "out": r.int(1, 4), "bias": True})
        p.case["logits"] = True
    nt = r.weighted([(1, 5), (2, 3), (3, 1)])
    tasks = [[] for _ in range(nt)]
    ops = []
    if r.chance(0.6):  # one data set, split among workers in some way
        b = (r.pick([9, 17, 33]) if p.image else r.pick([33, 40, 65])) if big else r.int(2, 6)
        base = ll_op(p, "m0", b=b)
        base["x"] = {"s": r.seed(), "how": r.pick(["new", "nc", "keep"]), "buf": 0, **({"scale": 40.0} if p.case.get("logits") else {})}
        if r.chance(0.3):
            base["x"]["mix"] = r.pick([1e-2, 30.0, 1e3])
        order = r.shuffle(range(b))
        while order:
            n = r.int(1, len(order))
            c = copy.deepcopy(base)
            c["uid"] = p.new_uid()
            c["rows"] = order[:n]
            order = order[n:]
            ops.append(c)
        c = copy.deepcopy(base)
        c["uid"] = p.new_uid()
        ops.append(c)
    for _ in range(r.int(1, 4)):
        o = ll_op(p, "m0")
        if p.case.get("logits") and r.chance(0.5):
            o["x"]["scale"] = r.pick([10.0, 100.0, 1000.0, 1e5] + ([1e8, 1e15] if p.case["dtype"] == "f64" else []))
        if r.chance(0.2):
            o["x"]["mix"] = r.pick([1e-2, 30.0, 1e3])
        ops.append(o)
    if r.chance(0.3):
        ops.append(p.call("m0"))
    for i, o in enumerate(r.shuffle(ops)):
        tasks[i % nt].append(o)
        if o["k"] == "ll" and r.chance(0.2):
            p.fault(o)
            p.case["faults"][-1][1].pop("burst", None)
    p.case["phases"] = [tasks]
    if nt > 1:
        p.schedule(lines=r.chance(0.5))


def gen_C11(p):
    r = p.r
    p.no_buffers()
    p.model("m0")
    ops, graphs, second = [], [], []
    if r.chance(0.25):
        ops.append(p.grads("m0"))

    def backward(g):
        z = r.rand()
        o = {"k": "gbwd", "uid": p.new_uid(), "g": g["uid"], "s": r.seed(), "hess": z < 0.1, "acc": z > 0.6}
        if 0.1 < z < 0.25:
            o["second"] = r.seed() >> 8
            second.append(o)
        return o

    for _ in range(r.int(1, 3)):
        m = p.case["models"]["m0"]
        path, node, s = p.pick_node(m["spec"], tuple(m["shape"]), 0.8)
        g = {"k": "gfwd", "uid": p.new_uid(), "m": "m0", "path": path, "b": p.batch(), "shape": list(s), "x": p.xd([("new", 1)]),
             "raw": r.chance(0.5)}
        ops.append(g)
        graphs.append(g)
        for _ in range(r.int(1, 3)):
            z = r.rand()
            if z < 0.4:
                ops.append(p.call_xv(r.pick(graphs)))
            elif z < 0.8:
                ops.append(p.call("m0"))
            elif z < 0.9:
                ops.append(ll_op(p, "m0"))
            else:
                ops.append(p.fwd("m0"))
            if r.chance(0.15):
                p.fault(ops[-1])
        if r.chance(0.5):
            if r.chance(0.1):
                ops.append(p.mode("m0"))
            ops.append(backward(r.pick(graphs)))
    for g in r.shuffle(graphs):
        ops.append(backward(g))
    for g in second:
        for _ in range(r.int(0, 2)):
            ops.append(p.call("m0") if r.chance(0.6) else p.call_xv(r.pick(graphs)))
        ops.append({"k": "gbwd2", "uid": p.new_uid(), "g": g["uid"]})
    if r.chance(0.2):
        other = [p.call("m0") for _ in range(2)]
        p.case["phases"] = [[ops, other]]
        p.schedule(lines=r.chance(0.5))
    else:
        p.case["phases"] = [[ops]]


def gen_C13(p):
    r = p.r
    p.no_buffers()
    p.model("m0", max_numel=28, max_params=60, depth=2)
    mids = ["m0"]
    if r.chance(0.25):
        add_sharing_model(p, "m1", ["m0"])
        mids.append("m1")
    nt = r.weighted([(1, 5), (2, 5), (3, 2)])
    tasks = []
    for t in range(nt):
        ops, fw = [], []
        for _ in range(r.int(2, 5) if nt == 1 else r.int(1, 3)):
            z, mid = r.rand(), r.pick(mids)
            if z < 0.5:
                f = p.fwd(mid, hows=p.safe_hows() + [("grad", 1), ("node", 1)])
                fw.append(f)
                ops.append(f)
            elif z < 0.6 and fw:
                ops.append(p.call_xv(r.pick(fw)))
            elif z < 0.65:
                ops.append(ll_op(p, mid))
            elif z < 0.7:
                ops.append(bad_op(p, mid))
            elif z < 0.75 and nt == 1:
                ops.append(p.mode(mid))
            else:
                ops.append(p.call(mid))
            if r.chance(0.2):
                p.fault(ops[-1])
        tasks.append(ops)
    p.case["phases"] = [tasks]
    if nt > 1:
        p.schedule()
    elif r.chance(0.4):
        spec, tail = copy.deepcopy(p.case["models"]["m0"]["spec"]), []
        shape = tuple(p.case["models"]["m0"]["shape"])
        for _ in range(r.int(1, 3)):
            e = edit_op(p, spec, shape) if len(mids) == 1 and r.chance(0.6) else p.update("m0", spec)
            if e is not None:
                tail.append(e)
            tail.append(p.fwd("m0", spec, shape, hows=p.safe_hows(), alt=0))
        p.case["phases"].append([tail])


def gen_C12(p):
    r = p.r
    p.case["defdtype"] = "f32"
    p.model("m0", max_numel=24, max_params=60)
    m = p.case["models"]["m0"]
    spec, shape = m["spec"], m["shape"]
    p.case["vary"] = r.weighted([("values", 5), ("batch", 2), ("none", 1)])
    ops = histories(p, ["m0"], r.int(1, 4))
    if r.chance(0.35):
        ops.append(ll_op(p, "m0"))
        if r.chance(0.3):
            p.fault(ops[-1])
    for _ in range(r.weighted([(0, 6), (1, 3), (3, 1)])):
        ops.append(bad_op(p, "m0"))
    for _ in range(r.weighted([(0, 5), (1, 3), (2, 2)])):
        o = p.call("m0")
        p.fault(o)
        ops.append(o)
    if r.chance(0.25):
        ops.append({"k": "gfwd", "uid": p.new_uid(), "m": "m0", "path": [], "b": 2, "shape": shape,
                    "x": p.xd([("new", 1)]), "raw": True})
        if r.chance(0.5):
            ops.append({"k": "gbwd", "uid": p.new_uid(), "g": ops[-1]["uid"], "s": 3})
    if r.chance(0.3):
        ops.append(p.update("m0", routes=[("setw", 1), ("copy_", 1)]))
    if r.chance(0.25) and n_params(spec):
        ops.append({"k": "getw", "uid": p.new_uid(), "m": "m0", "path": [], "scribble": False})
    if r.chance(0.35):  # models that are made, used and dropped
        how = r.weighted([("wrap", 3), ("deepcopy", 2), ("pickle", 1), ("slice", 2 if spec["t"] == "Sequential" else 0)])
        new = f"t{p.uid}"
        if how == "slice":
            n = len(spec["ch"])
            i = r.below(n)
            j = r.int(i + 1, n)
            ops.append({"k": "slice", "uid": p.new_uid(), "m": "m0", "path": [], "i": i, "j": j, "new": new})
            sp = {"t": "Sequential", "oid": -1, "ch": spec["ch"][i:j]}
            sh = list(shape_at(spec, shape, [i]))
        elif how == "wrap":
            ops.append({"k": "wrap", "uid": p.new_uid(), "m": "m0", "path": [], "new": new, "hooks": r.chance(0.8)})
            sp, sh = {"t": "Sequential", "oid": -1, "ch": [spec]}, shape
        else:
            ops.append({"k": "copy", "uid": p.new_uid(), "m": "m0", "path": [], "how": how, "new": new})
            sp, sh = spec, shape
        if r.chance(0.8):
            ops.append(p.call(new, sp, sh))
    p.case["phases"] = [[ops]]


GENERATORS = {n[4:]: f for n, f in globals().items() if n.startswith("gen_C")}


def generate(prop, seed):
    p = Prog(prop, seed)
    if prop not in ("C01", "C10", "C12") and p.r.chance(0.03):
        p.big = True
    GENERATORS[prop](p)
    return p.case
