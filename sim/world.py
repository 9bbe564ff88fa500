"""Executes one case (a program for one or more tasks) on the real nnj objects, and judges what it did."""
import copy
import ctypes
import hashlib
import io
import pickle
import random
import traceback

import torch

from . import arch, ref
from .arch import CONTAINERS, leaf_types, leaves, n_params, node_at, numel, out_shape, param_shapes
from .decide import Decider
from .kernel import Abandon, Crash, Kernel, OutOfMemory, patched_locks
from .ref import F64, Ref, flatten_blocks, tolerance
from .rng import Rng, derive

DT = {"f64": torch.float64, "f32": torch.float32}
FAULT_EXC = {"oom": OutOfMemory, "memerr": MemoryError, "intr": KeyboardInterrupt}


def gen_tensor(seed, shape, dtype, scale=1.0):
    g = torch.Generator().manual_seed(seed & 0x7FFFFFFFFFFF)
    return (torch.randn(tuple(shape), generator=g, dtype=F64) * scale).to(dtype)


def digest_of(h, r):
    if isinstance(r, (list, tuple)):
        h.update(b"[")
        for k in r:
            digest_of(h, k)
        h.update(b"]")
    elif torch.is_tensor(r):
        h.update(str(tuple(r.shape)).encode() + str(r.dtype).encode())
        h.update(bytes(torch.empty(r.numel(), dtype=r.dtype).copy_(r.detach().reshape(-1)).view(torch.uint8).tolist()) if r.numel() else b"")
    else:
        h.update(repr(r).encode())


def snap(r):
    """A private copy of a result."""
    if isinstance(r, (list, tuple)):
        return [snap(k) for k in r]
    if torch.is_tensor(r):
        return r.detach().clone()
    return r


def same_bits(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_bits(x, y) for x, y in zip(a, b))
    if torch.is_tensor(a):
        return torch.is_tensor(b) and a.shape == b.shape and a.dtype == b.dtype and bool(
            ((a == b) | ((a != a) & (b != b))).all())
    return a == b


class HarnessError(Exception):
    pass


def nnj_site(e):
    """The innermost frame of the code under test an exception passed through."""
    tb, site = e.__traceback__, None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "/nnj/" in f:
            site = f"{f.rsplit('/', 1)[-1]}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return site


class World:
    def __init__(self, nnj, case, kernel):
        self.nnj, self.case, self.k = nnj, case, kernel
        self.prop = case["prop"]
        self.registry, self.shadow, self.models = {}, {}, {}
        self.counter = [10**6]
        self.obs = []
        self.violations = []
        self.h = hashlib.sha256()
        self.keep = {}      # tensors the program keeps: (task, name) -> tensor
        self.fwd = {}       # uid of a forward -> (x, val)
        self.disk = {}
        self.stats = {"calls": 0, "skipped": 0, "undecidable": 0, "judged": 0, "raised": {}, "combos": set(), "ops": 0}
        self.live_args = {}
        self.graphs = {}
        self.llobjs = {}
        self.accrued = {}
        self.edited = False  # (weights or layers: records of earlier passes cannot be checked any more)
        self.cycle = 0   # C12: which repetition of the program this is
        for mid, m in case["models"].items():
            self.add_model(mid, m["spec"], tuple(m["shape"]), m.get("dtype", case["dtype"]), m.get("wseed", case["seed"]))
        self.module_flags = self.flags()

    # ------------------------------------------------------------------ models

    def add_model(self, mid, spec, shape, dt, wseed):
        spec = copy.deepcopy(spec)
        dtype = DT[dt]
        for l in leaves(spec):
            if l["oid"] not in self.shadow:
                self.shadow[l["oid"]] = arch.init_params(l, wseed, dtype)
                if self.case.get("dyadic"):  # sums of the weights are exact, in any order
                    self.shadow[l["oid"]] = type(self.shadow[l["oid"]])((n, (v * 16).round() / 16) for n, v in self.shadow[l["oid"]].items())
        with patched_locks():
            obj = arch.build(self.nnj, spec, self.shadow, dtype, self.registry)
        self.models[mid] = {"spec": spec, "obj": obj, "shape": shape, "dtype": dtype}

    def target(self, op):
        m = self.models.get(op["m"])
        if m is None:
            return None
        path = op.get("path", [])
        try:
            node = node_at(m["spec"], path)
            obj = arch.object_at(m["obj"], m["spec"], path)
        except (IndexError, KeyError):
            return None
        return m, node, obj

    def flags(self):
        """Observable switches of the models, and of torch."""
        out = {}
        for mid, m in self.models.items():
            for n, mod in m["obj"].named_modules():
                out[("training", mid, n)] = mod.training
            for n, p in m["obj"].named_parameters():
                out[("rg", mid, n)] = p.requires_grad
                out[("id", mid, n)] = id(p)
                out[("leaf", mid, n)] = p.is_leaf
            out[("keys", mid)] = tuple(m["obj"].state_dict().keys())
        return out

    @staticmethod
    def torch_flags():
        return {
            "default_dtype": torch.get_default_dtype(),
            "threads": torch.get_num_threads(),
            "deterministic": torch.are_deterministic_algorithms_enabled(),
            "anomaly": torch.is_anomaly_enabled(),
            "matmul": torch.get_float32_matmul_precision(),
            "cudnn": (torch.backends.cudnn.enabled, torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic),
            "mkldnn": torch.backends.mkldnn.enabled if hasattr(torch.backends.mkldnn, "enabled") else None,
            "checkarray": torch.autograd.graph.is_multithreading_enabled() if hasattr(torch.autograd.graph, "is_multithreading_enabled") else None,
        }

    @staticmethod
    def thread_flags():
        return {
            "grad": torch.is_grad_enabled(),
            "inference": torch.is_inference_mode_enabled(),
            "autocast": torch.is_autocast_enabled(),
            "functorch": torch._C._functorch.maybe_current_level() if hasattr(torch._C._functorch, "maybe_current_level") else None,
        }

    def params_of(self, node):
        return {l["oid"]: dict(self.shadow[l["oid"]]) for l in leaves(node)}

    def frozen(self, node):
        """Description and weights as they are now (weights are replaced, never changed in place, in the shadow)."""
        return copy.deepcopy(node), self.params_of(node)

    def read_back(self, node):
        """After an update which does not go through nnj: the real weights are the truth."""
        for l in leaves(node):
            o = self.registry[l["oid"]]
            self.shadow[l["oid"]] = {n: p.detach().to(F64).clone(memory_format=torch.contiguous_format) for n, p in arch.obj_params(o, l).items()}

    def weights_match(self, node):
        for l in leaves(node):
            o = self.registry[l["oid"]]
            for n, p in arch.obj_params(o, l).items():
                if not torch.equal(p.detach().to(F64), self.shadow[l["oid"]][n]):
                    return f"{l['t']}.{n} (object {l['oid']})"
        return None

    # ------------------------------------------------------------------ reporting

    def report(self, cls, uid, detail, solo=None):
        self.violations.append({"prop": self.prop, "cls": cls, "uid": uid, "detail": detail, "solo": solo})

    def watch_weights(self, where):
        for mid, m in self.models.items():
            w = self.weights_match(m["spec"])
            if w:
                return f"weights of {mid} changed {where}: {w}"
        return None

    # ------------------------------------------------------------------ arguments

    def tensor(self, d, shape, dtype, tid):
        """d: {"s": seed, "how": .., "scale": ..}.  The argument object, built in one of the ways callers do."""
        how, seed, scale = d.get("how", "new"), d["s"] + self.cycle * 7919, d.get("scale", 1.0)
        shape = tuple(shape)
        base = gen_tensor(seed, shape, dtype, scale)
        if d.get("turn"):  # the same numbers at other places
            base = (base.neg() if d["turn"] == "neg" else base * (1 + 10.0 ** -(5 + seed % 4)) if d["turn"] == "nudge"
                    else base.flip(0 if d["turn"] == "rows" else -1))
        if d.get("round"):
            base = (base * 4).round() / 4
        if d.get("mix"):  # rows of very different size
            base[::2] *= d["mix"]
        if how == "new":
            return base
        if how == "nc":  # not contiguous
            big = torch.empty(*shape[:-1], shape[-1] * 2 + 1, dtype=dtype).fill_(7.5)
            v = big[..., 1 : 1 + 2 * shape[-1] : 2]
            v.copy_(base)
            return v
        if how == "t":  # transposed storage
            if len(shape) < 2:
                return base
            if len(shape) == 4 and seed % 2:
                return base.contiguous(memory_format=torch.channels_last)
            return base.transpose(0, -1).contiguous().transpose(0, -1)
        if how == "off":  # a window of a larger buffer
            big = torch.empty(shape[0] + 2, *shape[1:], dtype=dtype).fill_(-3.5)
            v = big[1:-1]
            v.copy_(base)
            return v
        if how == "exp":  # one row, expanded
            return base[:1].expand(shape)
        if how == "grad":
            return base.requires_grad_(True)
        if how == "node":  # a result of earlier computations, part of a graph
            return base.requires_grad_(True) * 1.0
        if how == "hasgrad":  # gradients were accumulated in it before
            base.requires_grad_(True).grad = gen_tensor(seed + 1, shape, dtype)
            return base
        name = (tid, d["buf"], shape, str(dtype))
        if how == "keep":  # the same object, unchanged
            if name not in self.keep:
                self.keep[name] = base
            return self.keep[name]
        if how in ("buf", "bufdata"):  # the same object, refilled in place
            if name not in self.keep:
                self.keep[name] = base.clone()
            t = self.keep[name]
            with torch.no_grad():
                (t.data if how == "bufdata" else t).copy_(base)
            return t
        raise AssertionError(how)

    def metric(self, d, shape, dtype, tid, kind):
        """kind: any | sym | psd | neg (for square ones)"""
        t = self.tensor(d, shape, dtype, tid)
        if d.get("how") in ("keep", "buf", "bufdata", "nc", "exp", "off", "t"):
            return t
        if len(shape) == 3 and shape[1] == shape[2] and kind in ("sym", "psd"):
            t = t + t.transpose(1, 2) if kind == "sym" else t @ t.transpose(1, 2)
        if kind == "pos":
            t = t.abs()
        if kind == "sparse":
            t = t * (gen_tensor(d["s"] + 1, t.shape, dtype) > 0)
        if kind == "onehot" and t.shape[-1] > 0:
            z = torch.zeros_like(t)
            z[..., d["s"] % t.shape[-1]] = 1.0
            t = z
        if d.get("rg"):
            t = t.detach().requires_grad_(True)
        return t

    # ------------------------------------------------------------------ operations

    def body(self, task):
        for op in task.ops:
            self.exec(task, op)

    def exec(self, task, op):
        self.stats["ops"] += 1
        try:
            getattr(self, "op_" + op["k"])(task, op)
            if self.prop == "C13":
                self.edited = self.edited or op["k"] in ("update", "edit")
                if len(self.k.tasks) == 1:
                    self.all_records(op["uid"])
        except Exception as e:
            site = nnj_site(e)
            if isinstance(e, arch.Structure):  # the models are not what they were any more
                self.report("structure", op["uid"], f"op {op['uid']} {op['k']}: {e}")
            elif site is not None:  # the code under test, called from outside a simulated part
                self.report("raised:update" if op["k"] == "update" else "construct-raised", op["uid"], f"op {op['uid']} {op['k']} raised {type(e).__name__}: {str(e)[:200]} in {site}")
            elif not self.violations:  # (after a violation the models may not be what the program expects)
                raise

    def simulated(self, task, op, fn):
        """Runs code under test as part of the operation; returns ("ok", r) or ("exc", e)."""
        k = self.k
        k.begin(task, op["uid"])
        try:
            return self.go_on(task, fn)
        finally:
            k.end(task)

    def go_on(self, task, fn):
        try:
            return ("ok", fn())
        except (Abandon, Crash):
            raise
        except BaseException as e:
            self.stats["raised"][type(e).__name__] = self.stats["raised"].get(type(e).__name__, 0) + 1
            site = nnj_site(e) or "-"
            e.__traceback__ = None
            e.__context__ = None
            return ("exc", (type(e), str(e)[:200], site))

    def ambient(self, op):
        a = op.get("amb")
        if a == "no_grad":
            return torch.no_grad()
        if a == "inference":
            return torch.inference_mode()
        import contextlib

        return contextlib.nullcontext()

    def prepare(self, task, op, node, m):
        """x, matrix (and what the reference needs) of a call; None when the operation makes no sense here."""
        dtype = m["dtype"]
        if "xv" in op:
            fv = self.fwd.get(op["xv"])
            if fv is None:
                return None
            x, val, shape = fv["x"], fv["val"], tuple(fv["x"].shape[1:])
            if x.dtype != dtype or fv["node"] != node:
                return None
        else:
            shape = tuple(op["shape"])
            x, val = None, None
        o = out_shape(node, shape)
        if o is None:
            return None
        if x is None:
            x = self.tensor(op["x"], (op["b"], *shape), dtype, task.tid)
        b = x.shape[0]
        no, ni = numel(o), numel(shape)
        np_ = n_params(node)
        meth, wrt = op.get("meth"), op.get("wrt", "input")
        dim_in = ni if wrt == "input" else np_
        mat = None
        if meth in ("jvp", "vjp", "jmp", "mjp", "jmjTp", "jTmjp") and op.get("mat") is not None:
            d = op["mat"]
            side = dim_in if meth in ("jvp", "jmp", "jmjTp") else no
            if meth in ("jvp", "vjp"):
                ms = (b, side)
            elif meth == "jmp":
                ms = (b, side, d.get("cols", 2))
            elif meth == "mjp":
                ms = (b, d.get("cols", 2), side)
            else:
                ms = (b, side) if op.get("fd") else (b, side, side)
            if side == 0:
                # a model without parameters: any metric of the right rank
                ms = tuple(s if s else 1 for s in ms)
            mat = self.metric(d, ms, dtype, task.tid, d.get("kind", "any"))
        arg = mat
        if mat is not None and op.get("aslist") and meth == "jmjTp" and wrt == "weight" and np_ and node["t"] == "Sequential":
            arg = self.as_list(node, mat, op.get("fd"), [0])
        return {"x": x, "val": val, "mat": mat, "arg": arg, "shape": shape, "o": o, "dtype": dtype}

    def as_list(self, node, mat, fd, p):
        out = []
        for c in node["ch"]:
            n = n_params(c)
            if n == 0:
                continue
            if c["t"] == "Sequential" and self.case["seed"] % 2:
                out.append(self.as_list(c, mat, fd, p))
            else:
                out.append(mat[:, p[0] : p[0] + n] if fd else mat[:, p[0] : p[0] + n, p[0] : p[0] + n])
                p[0] += n
        return out

    @staticmethod
    def invoke(obj, op, x, val, arg):
        meth, wrt = op["meth"], op.get("wrt", "input")
        f = getattr(obj, meth)
        if meth == "jacobian":
            return f(x, val, wrt=wrt)
        if meth in ("jmjTp", "jTmjp"):
            kw = dict(wrt=wrt, from_diag=bool(op.get("fd")), to_diag=bool(op.get("td")))
            if op.get("db"):
                kw["diag_backprop"] = True
            return f(x, val, arg, **kw)
        if op.get("defwrt") and wrt == "input":
            return f(x, val, arg)
        return f(x, val, arg, wrt=wrt)

    def op_call(self, task, op):
        t = self.target(op)
        pre = None if t is None else self.prepare(task, op, t[1], t[0])
        if pre is None:
            self.stats["skipped"] += 1
            return
        m, node, obj = t
        x, arg = pre["x"], pre["arg"]
        spec, params = self.frozen(node)
        ob = {"uid": op["uid"], "op": op, "spec": spec, "params": params, "x": x.detach().clone(), "dtype": pre["dtype"],
              "mat": None if pre["mat"] is None else pre["mat"].detach().clone(), "kind": "call"}
        guard = self.before(task, op, x, arg, pre["val"])

        def run():
            with self.ambient(op):
                val = pre["val"]
                if val is None and op.get("val") == "own":
                    val = obj(x)
                    if op.get("amb") is None and not op.get("valgrad"):
                        val = val.detach()
                return self.invoke(obj, op, x, val, arg)

        out = self.simulated(task, op, run)
        self.after(task, op, ob, out, guard, [x, pre["val"]] + flatten_blocks(arg if arg is not None else []))

    def op_fwd(self, task, op):
        t = self.target(op)
        if t is None or out_shape(t[1], op["shape"]) is None:
            self.stats["skipped"] += 1
            return
        m, node, obj = t
        x = self.tensor(op["x"], (op["b"], *op["shape"]), m["dtype"], task.tid)
        spec, params = self.frozen(node)
        ob = {"uid": op["uid"], "op": op, "spec": spec, "params": params, "x": x.detach().clone(), "dtype": m["dtype"],
              "kind": "fwd"}
        guard = self.before(task, op, x, None, None)

        def run():
            with self.ambient(op):
                return obj(x)

        out = self.simulated(task, op, run)
        if out[0] == "ok":
            self.fwd[op["uid"]] = {"x": x, "val": out[1].detach(), "node": copy.deepcopy(node)}
            if self.prop == "C13" and len(self.k.tasks) == 1:
                self.records(op["uid"], op["m"], node, obj, m["dtype"], x, True)
        self.after(task, op, ob, out, guard)

    # -- invariants around an operation

    def before(self, task, op, x, arg, val):
        if self.prop not in ("C03", "C04"):
            return None
        args = [a for a in [x, val] + flatten_blocks(arg if arg is not None else []) if torch.is_tensor(a)]
        watched = [(a, a.detach().clone(), a.requires_grad, a.is_leaf, a.grad.clone() if a.is_leaf and a.grad is not None else None) for a in args]
        g = {"args": watched, "thread": self.thread_flags(), "torch": self.torch_flags(), "flags": self.flags(),
             "rng": torch.get_rng_state(), "py": random.getstate(), "grad": self.grads(),
             "fast": [(o, "training", o.training) for m in self.models.values() for o in m["obj"].modules()]
             + [(p, "requires_grad", p.requires_grad) for m in self.models.values() for p in m["obj"].parameters()]}
        self.live_args[task.tid] = g
        return g

    def grads(self):
        return {(mid, n): (None if p.grad is None else p.grad.clone()) for mid, m in self.models.items()
                for n, p in m["obj"].named_parameters()}

    def check_guard(self, g, where, full):
        for a, c, rg, leaf, ag in g["args"]:
            if not torch.equal(a.detach(), c) and not same_bits(a.detach(), c):
                return "argument-changed", f"a tensor the caller passed was changed {where}"
            if full and (a.requires_grad != rg or a.is_leaf != leaf):
                return "argument-flag", f"requires_grad of a caller's tensor changed {where}"
            if full and leaf and not same_bits(a.grad, ag):
                return "argument-grad", f".grad of a caller's tensor changed {where}"
        w = self.watch_weights(where)
        if w:
            return "weights-changed", w
        if self.torch_flags() != g["torch"]:
            return "torch-global", f"a process wide torch setting was changed {where}: {self.torch_flags()}"
        if not full:
            for o, a, v in g["fast"]:
                if getattr(o, a) != v:
                    return "model-flags", f"{a} of {type(o).__name__} was {getattr(o, a)} {where}"
            return None
        fl = self.flags()
        if fl != g["flags"]:
            d = [k for k in set(fl) | set(g["flags"]) if fl.get(k) != g["flags"].get(k)]
            return "model-flags", f"model switches changed {where}: {sorted(map(str, d))[:3]}"
        if full:
            if self.thread_flags() != g["thread"]:
                return "torch-mode", f"torch modes of the caller changed {where}: {self.thread_flags()}"
            if not torch.equal(torch.get_rng_state(), g["rng"]) or random.getstate() != g["py"]:
                return "rng", f"the random number generators advanced {where}"
            gr = self.grads()
            if gr.keys() != g["grad"].keys() or any(not same_bits(gr[k], g["grad"][k]) for k in gr):
                return "grad-changed", f".grad of a parameter changed {where}"
        return None

    def watch(self, task):
        """At every torch event of a C04 run."""
        g = self.live_args.get(task.tid)
        if g is None or self.violations:
            return
        r = self.check_guard(g, "while a call was running", False)
        if r:
            self.report(r[0] + "-during", task.uid, r[1])

    def after(self, task, op, ob, out, guard, given=()):
        self.stats["calls"] += 1
        ob["faults"] = list(task.op_faults)
        ob["outcome"] = out[0]
        if out[0] == "ok":
            ob["live"] = out[1]
            ob["result"] = snap(out[1])
            # (a product that is the identity may hand back the very tensor it was given)
            ob["rg"] = [r.grad_fn is not None for r in flatten_blocks(out[1]) if torch.is_tensor(r) and not any(r is a for a in given)]
        else:
            ob["exc"] = out[1]
        if guard is not None:
            self.live_args.pop(task.tid, None)
            r = self.check_guard(guard, "by a call" if out[0] == "ok" else "by a call that failed", True)
            if r and self.prop in ("C03", "C04"):
                self.report(r[0], op["uid"], r[1])
        self.obs.append(ob)

    # -- weights

    def op_update(self, task, op):
        t = self.target(op)
        if t is None:
            self.stats["skipped"] += 1
            return
        m, node, obj = t
        route = op["route"]
        ps = [(l, n) for l in leaves(node) for n, _ in param_shapes(l)]
        if not ps and route != "dtype":
            self.stats["skipped"] += 1
            return
        dtype = m["dtype"]
        seed = op["s"]

        def newval(l, n):
            s = dict(param_shapes(l))[n]
            v = gen_tensor(derive(seed, l["oid"] if not op.get("byname") else n, n) >> 16, s, F64)
            v = v * (0.3 if n == "bias" else 1.2 / max(1, numel(s[1:])) ** 0.5)
            return v.to(dtype)

        def real(l, n):
            return arch.obj_params(self.registry[l["oid"]], l)[n]

        some = [p for i, p in enumerate(ps) if derive(seed, i, "some") % 3 or len(ps) == 1] or ps
        if route == "setw":
            vec = torch.cat([newval(l, n).reshape(-1) for l, n in ps])
            if op.get("vg"):
                vec.requires_grad_(True)
            out = self.simulated(task, op, lambda: obj.set_weight(vec))
            if out[0] == "ok":
                for l, n in ps:
                    self.shadow.setdefault(l["oid"], {})
                    self.shadow[l["oid"]] = {**self.shadow[l["oid"]], n: newval(l, n).to(F64)}
                w = self.weights_match(node)
                if w and not task.op_faults:
                    self.report("set-weight", op["uid"], f"set_weight did not store the vector: {w}")
            else:
                self.report("set-weight-raised", op["uid"], f"set_weight raised {out[1]}")
            return
        with torch.no_grad():
            if route == "copy_":
                for l, n in some:
                    real(l, n).copy_(newval(l, n))
            elif route == "data_copy":
                for l, n in some:
                    real(l, n).data.copy_(newval(l, n))
            elif route == "data_assign":
                for l, n in some:
                    real(l, n).data = newval(l, n)
            elif route == "layout":  # the same logical order, another order in memory (channels last, a strided vector)
                for l, n in some:
                    v = newval(l, n)
                    if v.dim() == 4 and seed % 2:
                        v = v.contiguous(memory_format=torch.channels_last)
                    elif v.dim() >= 2:
                        v = v.transpose(0, -1).contiguous().transpose(0, -1)
                    else:
                        v = torch.stack([v, v.flip(0) + 1], -1).select(-1, 0)
                    real(l, n).data = v
            elif route == "permute":  # the same numbers at other places
                for l, n in some:
                    real(l, n).data.copy_(real(l, n).data.flip(seed % real(l, n).dim()))
            elif route == "nudge":  # hardly anything changes
                for l, n in some:
                    (real(l, n).data if seed % 2 else real(l, n)).mul_(1 + 10.0 ** -(5 + seed // 2 % 4))
            elif route == "negate":
                for l, n in some:
                    real(l, n).data.neg_()
            elif route == "data_mul":
                for l, n in some:
                    real(l, n).data.mul_(-0.75)
            elif route == "index":
                l, n = some[seed % len(some)]
                p, at = real(l, n).data, []
                k = seed % p.numel()
                for d in reversed(p.shape):
                    at.insert(0, k % d)
                    k //= d
                p[tuple(at)] += 1.5
            elif route == "memory":  # a write torch does not see, as through a numpy view or shared memory
                for l, n in some:
                    if real(l, n).is_contiguous():
                        v = newval(l, n).contiguous()
                        ctypes.memmove(real(l, n).data_ptr(), v.data_ptr(), v.numel() * v.element_size())
            elif route == "storage":
                for l, n in some:
                    if not real(l, n).is_contiguous():
                        continue
                    v = newval(l, n).contiguous().reshape(-1)
                    real(l, n).data.set_(v.untyped_storage(), 0, tuple(real(l, n).shape), tuple(real(l, n).stride()))
            elif route == "swap":  # two weights of the same shape change places
                byshape = {}
                for l, n in ps:
                    byshape.setdefault(tuple(real(l, n).shape), []).append(real(l, n))
                for g in byshape.values():
                    if len(g) > 1:
                        g[0].data, g[1].data = g[1].data, g[0].data
            elif route == "reset":
                for l, n in some:
                    o = self.registry[l["oid"]]
                    if hasattr(o, "reset_parameters"):
                        o.reset_parameters()
            elif route == "replace":
                for l, n in some:
                    setattr(self.registry[l["oid"]], n, torch.nn.Parameter(newval(l, n)))
            elif route == "v2p":
                torch.nn.utils.vector_to_parameters(torch.cat([newval(l, n).reshape(-1) for l, n in ps]), obj.parameters())
            elif route == "load":
                sd = {k: v.clone() for k, v in obj.state_dict().items()}
                pn = {id(p): k for k, p in obj.named_parameters()}
                for l, n in some:
                    sd[pn[id(real(l, n))]] = newval(l, n)
                obj.load_state_dict(sd, assign=bool(op.get("assign")))
                if op.get("assign"):
                    for p in obj.parameters():
                        p.requires_grad_(True)
            elif route == "dtype":
                new = torch.float32 if dtype == torch.float64 else torch.float64
                self.models[op["m"]]["obj"].to(new)
                m["dtype"] = new
                for key in [k for k in self.keep if k[0] == "opt"]:  # their buffers have the old precision
                    del self.keep[key]
                node = m["spec"]
        if route in ("sgd", "adam"):
            key = ("opt", op["m"], route)
            params = list(obj.parameters())
            if op.get("fresh") or key not in self.keep:
                self.keep[key] = (torch.optim.SGD(params, lr=0.3, momentum=0.5) if route == "sgd"
                                  else torch.optim.Adam(params, lr=0.3))
            if not op.get("fresh"):
                node = m["spec"]
                params = [p for g in self.keep[key].param_groups for p in g["params"]]
            for i, p in enumerate(params):
                p.grad = gen_tensor(derive(seed, i) >> 16, p.shape, p.dtype)
            self.keep[key].step()
            for p in params:
                p.grad = None
        for mid, mm in self.models.items():  # the layer may be part of several models
            self.read_back(mm["spec"])

    def op_mode(self, task, op):
        t = self.target(op)
        if t is None:
            self.stats["skipped"] += 1
            return
        m, node, obj = t
        if op["what"] in ("eval", "train"):
            obj.train(op["what"] == "train")
        else:
            obj.requires_grad_(op["what"] == "melt")

    def op_grads(self, task, op):
        """The caller has accumulated gradients in some weights."""
        t = self.target(op)
        if t is None:
            self.stats["skipped"] += 1
            return
        m, node, obj = t
        for l in leaves(node):
            for n, q in arch.obj_params(self.registry[l["oid"]], l).items():
                z = derive(op["s"], l["oid"], n) % 4
                if z:
                    q.grad = gen_tensor(derive(op["s"], l["oid"], n) >> 16, q.shape, q.dtype)
                    self.accrued[l["oid"], n] = q.grad.clone()

    def accrued_kept(self, uid):
        """Only backward passes change the gradients that have been accumulated."""
        for (oid, n), g in self.accrued.items():
            l = next((l for mm in self.models.values() for l in leaves(mm["spec"]) if l["oid"] == oid), None)
            if l is not None and not same_bits(arch.obj_params(self.registry[oid], l)[n].grad, g):
                self.report("grad-disturbed", uid, f"the gradient accumulated in {l['t']}.{n} changed between backward passes")
                return

    # -- the feature maps that containers record (C13)

    def containers(self, node, obj, path=()):
        """(path, description, object) of every sequential model in it, also of the chain inside a skip connection."""
        if node["t"] not in CONTAINERS:
            return
        kids = list(obj.children())
        if node["t"] == "Skip":
            inner = kids[0] if len(kids) == 1 else None
            if not isinstance(inner, self.nnj.Sequential):
                return
            node, obj = {"t": "Sequential", "oid": node["oid"], "ch": node["ch"], "hooks": node.get("hooks", True)}, inner
            kids = list(obj._modules.values())
        else:
            kids = list(obj._modules.values())
        yield path, node, obj
        if len(kids) == len(node["ch"]):
            for i, (c, o) in enumerate(zip(node["ch"], kids)):
                yield from self.containers(c, o, path + (i,))

    def records(self, uid, mid, node, obj, dtype, x=None, done=False):
        """Every record is that of one complete pass; x: the input of the pass through obj that was just made."""
        if self.violations:
            return
        for path, n, o in self.containers(node, obj):
            maps = getattr(o, "feature_maps", None)
            who = f"{mid}{list(path)} {brief(n)}"
            if not getattr(o, "add_hooks", n.get("hooks", True)):
                if maps:
                    return self.report("record-off", uid, f"{who}: feature maps are recorded although that was switched off")
                continue
            if maps is None:
                return self.report("record-none", uid, f"{who}: no list of feature maps")
            if len(maps) == 0 and not done:
                continue
            self.stats["judged"] += 1
            if len(maps) != len(n["ch"]) + 1:
                return self.report("record-length", uid, f"{who}: {len(maps)} feature maps for {len(n['ch'])} layers")
            for t in maps:
                if not torch.is_tensor(t) or t.grad_fn is not None or t.requires_grad:
                    return self.report("record-graph", uid, f"{who}: a recorded feature map is part of an autograd graph")
            if x is not None and path == () and not same_bits(maps[0], x.detach()):
                return self.report("record-input", uid, f"{who}: the first feature map is not the input of the last forward pass")
            if maps[0].dtype not in DT.values():  # (an ill-typed call that got through)
                continue
            for i, c in enumerate(n["ch"]):
                ob = {"uid": uid, "op": {"k": "fwd"}, "kind": "fwd", "spec": c, "params": self.params_of(c), "x": maps[i].detach().clone(),
                      "dtype": maps[i].dtype, "outcome": "ok", "result": maps[i + 1].detach().clone(), "faults": []}
                try:
                    r = judge_result(ob, {"undecidable": 0, "judged": 0, "combos": set()})
                except HarnessError:
                    raise
                except Exception as e:
                    r = ("malformed", f"{type(e).__name__}: {str(e)[:150]}")
                if r is not None:
                    return self.report("record-mixed", uid, f"{who}: feature map {i + 1} is not layer {i} of feature map {i}: {r[1]}")

    def all_records(self, uid):
        if self.prop == "C13" and not self.edited:
            for mid, m in self.models.items():
                self.records(uid, mid, m["spec"], m["obj"], m["dtype"])

    # -- the flat weight vector (C06)

    def op_getw(self, task, op):
        t = self.target(op)
        if t is None:
            return
        m, node, obj = t
        exp = ref.flat(node, self.shadow).to(m["dtype"])
        if exp.numel() == 0:
            return
        out = self.simulated(task, op, lambda: obj.get_weight())
        if out[0] == "exc":
            if not task.op_faults:
                self.report("get-weight-raised", op["uid"], f"get_weight raised {out[1]}")
            return
        v = out[1]
        self.stats["judged"] += 1
        if not (torch.is_tensor(v) and v.shape == exp.shape and v.dtype == exp.dtype and torch.equal(v.detach(), exp)):
            self.report("get-weight", op["uid"], "get_weight is not the concatenation of the current weights in order")
            return
        if v.requires_grad:
            self.report("get-weight-graph", op["uid"], "get_weight returned a tensor attached to an autograd graph")
        if op.get("scribble"):
            with torch.no_grad():
                v.mul_(3.0).add_(1.0)
            w = self.watch_weights("after the caller overwrote the vector it got")
            if w:
                self.report("get-weight-alias", op["uid"], w)
        else:
            self.keep[("w", op["uid"])] = (v, v.detach().clone())

    def op_setw(self, task, op):
        """set_weight with all its obligations; the vector may be short or long, the write may be interrupted."""
        t = self.target(op)
        if t is None:
            return
        m, node, obj = t
        ps = [(l, n, s) for l in leaves(node) for n, s in param_shapes(l)]
        n = n_params(node)
        if n == 0:
            return
        dtype = m["dtype"]
        src = op.get("src")
        if src is not None and ("w", src) in self.keep and self.keep[("w", src)][1].numel() == n \
                and self.keep[("w", src)][1].dtype == dtype:
            vec = self.keep[("w", src)][0]
        else:
            vec = self.tensor({"s": op["s"], "how": op.get("how", "new")}, (n + op.get("extra", 0),), dtype, task.tid) \
                if n + op.get("extra", 0) > 0 else torch.zeros(0, dtype=dtype)
        if op.get("near") and not op.get("extra", 0):  # (almost) what is there already
            vec = ref.flat(node, self.shadow).to(dtype)
            if op["near"] == "all":
                vec = vec * (1 + 1e-9)
            elif op["near"] == "one":
                vec[op["s"] % n] += 1e-7
        exact = vec.detach().clone()
        ids = {k: id(p) for k, p in obj.named_parameters()}
        rg = {k: p.requires_grad for k, p in obj.named_parameters()}
        out = self.simulated(task, op, lambda: obj.set_weight(vec))
        faulted = bool(task.op_faults)
        self.stats["judged"] += 1
        if not same_bits(vec.detach(), exact):
            self.report("set-weight-arg", op["uid"], "set_weight changed the vector it was given")
            return
        if {k: id(p) for k, p in obj.named_parameters()} != ids or {k: p.requires_grad for k, p in obj.named_parameters()} != rg:
            self.report("set-weight-identity", op["uid"], "set_weight replaced parameter objects (optimizers lose them)")
            return
        if op.get("extra", 0) != 0:
            if out[0] == "ok":
                self.report("set-weight-length", op["uid"], f"a vector of length {exact.numel()} was accepted for {n} weights")
                return
            w = self.watch_weights("by a refused set_weight")
            if w:
                self.report("set-weight-refused-changed", op["uid"], w)
            return
        new, p = {}, 0
        for l, nm, s in ps:
            k = numel(s)
            new[(l["oid"], nm)] = exact[p : p + k].reshape(s).to(F64)
            p += k
        if out[0] == "exc" and not faulted:
            self.report("set-weight-raised", op["uid"], f"set_weight raised {out[1]}")
            return
        if out[0] == "exc":
            # interrupted: every weight is old or new, the others untouched; the retry completes
            for l, nm, s in ps:
                real = arch.obj_params(self.registry[l["oid"]], l)[nm].detach().to(F64)
                old = self.shadow[l["oid"]][nm]
                if tuple(real.shape) != tuple(s) or not bool(((real == old) | (real == new[(l["oid"], nm)])).all()):
                    self.report("set-weight-torn", op["uid"], f"after an interrupted write {l['t']}.{nm} holds values that were never set")
                    return
            self.read_back(node)
            w = self.watch_weights("outside of the written layer by an interrupted set_weight")
            if w:
                self.report("set-weight-outside", op["uid"], w)
                return
            out = self.go_on(task, lambda: obj.set_weight(vec))
            if out[0] == "exc":
                self.report("set-weight-retry", op["uid"], f"the retry after an interrupted write raised {out[1]}")
                return
        for l, nm, s in ps:
            self.shadow[l["oid"]] = {**self.shadow[l["oid"]], nm: new[(l["oid"], nm)]}
        w = self.watch_weights("not as set by set_weight")
        if w:
            self.report("set-weight", op["uid"], w)
            return
        if op.get("scribble"):
            with torch.no_grad():
                vec.mul_(-2.0).add_(0.5)
            w = self.watch_weights("when the caller reused its vector")
            if w:
                self.report("set-weight-alias", op["uid"], w)

    # -- malformed calls (C03)

    def op_bad(self, task, op):
        t = self.target(op)
        if t is None:
            return
        m, node, obj = t
        how = op["how"]
        shape = tuple(op["shape"])
        if out_shape(node, shape) is None:
            return
        dtype = m["dtype"]
        x = self.tensor(op["x"], (op["b"], *shape), dtype, task.tid)
        o = out_shape(node, shape)
        no, ni, np_ = numel(o), numel(shape), n_params(node)
        meth, wrt = op["meth"], op["wrt"]
        side = (ni if wrt == "input" else max(np_, 1)) if meth in ("jvp", "jmp", "jmjTp") else no
        mat = gen_tensor(op["s"], (x.shape[0], side) if meth in ("jvp", "vjp") else (x.shape[0], side, side), dtype)
        val = None
        if how == "x":  # an input the model cannot take (fails somewhere inside)
            x = gen_tensor(op["s"], (op["b"], *[s + 1 + (i == 0) for i, s in enumerate(shape)]), dtype)
        elif how == "m":
            mat = gen_tensor(op["s"], (x.shape[0], side + 1) if meth in ("jvp", "vjp") else (x.shape[0], side + 1, side + 2), dtype)
        elif how == "wrt":
            wrt = "weights"
        elif how == "dtype":
            x = x.to(torch.float32 if dtype == torch.float64 else torch.float64)
        elif how == "type":
            mat = "identity"
        elif how == "empty":
            x, mat = x[:0], mat[:0]
        elif how == "db":
            pass
        if meth == "ll":
            mat = mat if how == "type" else gen_tensor(op["s"], (op["b"], *o[:-1], o[-1] + (how == "m")), dtype).abs()
        guard = self.before(task, op, x, mat if torch.is_tensor(mat) else None, None)

        def run():
            if meth == "forward":
                return obj(x)
            if meth == "ll":
                ll = getattr(self.nnj, op["dist"])(aggregate_batch=op["agg"], metric_shape=op["ms"], metric_backprop=op["mb"])
                return ll(x, obj, mat) if op["what"] == "forward" else getattr(ll, op["what"])(x, obj, mat, wrt=wrt)
            if meth == "set_weight":
                return obj.set_weight(torch.zeros(np_ + 1, dtype=dtype))
            if meth == "jacobian":
                return obj.jacobian(x, val, wrt=wrt)
            if meth in ("jmjTp", "jTmjp"):
                return getattr(obj, meth)(x, val, mat, wrt=wrt, from_diag=False, to_diag=op.get("td", False),
                                          diag_backprop=(how == "db"))
            return getattr(obj, meth)(x, val, mat, wrt=wrt)

        out = self.simulated(task, op, run)
        self.live_args.pop(task.tid, None)
        self.stats["calls"] += 1
        if guard is not None:
            r = self.check_guard(guard, "by a call that was refused" if out[0] == "exc" else "by a malformed call", True)
            if r:
                self.report(r[0], op["uid"], r[1])
        self.obs.append({"uid": op["uid"], "op": op, "kind": "bad", "outcome": out[0],
                         "exc": out[1] if out[0] == "exc" else None, "faults": list(task.op_faults)})

    # -- edits of containers (C09)

    def op_edit(self, task, op):
        t = self.target(op)
        if t is None or t[1]["t"] not in CONTAINERS:
            self.stats["skipped"] += 1
            return
        m, node, obj = t
        seq = arch.inner(obj) if node["t"] == "Skip" else obj
        what, ch = op["what"], node["ch"]
        kids = []
        for s in op.get("new", []):
            s = copy.deepcopy(s)
            for l in leaves(s):
                if l["oid"] not in self.shadow:
                    self.shadow[l["oid"]] = arch.init_params(l, self.case["seed"], m["dtype"])
            with patched_locks():
                kids.append((s, arch.build(self.nnj, s, self.shadow, m["dtype"], self.registry)))
            if op["what"] == "again":  # the model may have changed its precision meanwhile
                kids[-1][1].to(m["dtype"])
                self.read_back(s)
        i = op.get("i", 0)
        n = len(ch)
        if what in ("setitem", "delitem", "pop", "insert", "name", "swap") and not (-n <= i < n or (what == "insert" and i <= n)):
            self.stats["skipped"] += 1
            return
        trial = copy.deepcopy(m["spec"])
        tnode = node_at(trial, op.get("path", []))
        try:
            self.edit_spec(tnode["ch"], what, i, op.get("j"), [copy.deepcopy(s) for s, _ in kids])
        except IndexError:
            self.stats["skipped"] += 1
            return
        if not tnode["ch"] or out_shape(trial, m["shape"]) is None:
            self.stats["skipped"] += 1
            return

        def run():
            if what == "append":
                seq.append(kids[0][1])
            elif what == "insert":
                seq.insert(i, kids[0][1])
            elif what == "extend":
                seq.extend([k for _, k in kids])
            elif what == "iadd":
                x = seq
                x += torch.nn.Sequential(*[k for _, k in kids])
            elif what == "setitem":
                seq[i] = kids[0][1]
            elif what == "swap":
                seq[i], seq[op["j"]] = seq[op["j"]], seq[i]
            elif what == "again":
                seq.append(kids[0][1])
            elif what == "delitem":
                del seq[i]
            elif what == "delslice":
                del seq[i : op["j"]]
            elif what == "pop":
                seq.pop(i)
            elif what == "name":  # through the registered name, as modules are edited by hand
                setattr(seq, list(seq._modules)[i], kids[0][1])
            elif what == "add_module":
                seq.add_module(f"extra{op['uid']}", kids[0][1])

        out = self.simulated(task, op, run)
        if out[0] == "exc":
            self.report("edit-raised", op["uid"], f"{what} raised {out[1]}")
            return
        self.edit_spec(node["ch"], what, i, op.get("j"), [s for s, _ in kids])
        for q in arch.all_paths(m["spec"]):
            node_at(m["spec"], q).pop("via", None)  # no longer what was converted
        count = getattr(obj, "_n_params", None)
        if isinstance(count, int) and count != n_params(node):
            self.report("count", op["uid"], f"after {what} the parameter count is {count}, not {n_params(node)}")

    @staticmethod
    def edit_spec(ch, what, i, j, new):
        if what in ("append", "add_module", "again"):
            ch.append(new[0])
        elif what == "swap":
            ch[i], ch[j] = ch[j], ch[i]
        elif what == "insert":
            ch.insert(i, new[0])
        elif what in ("extend", "iadd"):
            ch.extend(new)
        elif what in ("setitem", "name"):
            ch[i] = new[0]
        elif what in ("delitem", "pop"):
            del ch[i]
        elif what == "delslice":
            del ch[i:j]

    def op_slice(self, task, op):
        """A slice of a Sequential is a new model made of the same layer objects."""
        t = self.target(op)
        if t is None or t[1]["t"] != "Sequential":
            self.stats["skipped"] += 1
            return
        m, node, obj = t
        i, j = op["i"], op["j"]
        ch = node["ch"][i:j]
        if not ch:
            return
        out = self.simulated(task, op, lambda: obj[i:j])
        if out[0] == "exc":
            self.report("slice-raised", op["uid"], f"slicing raised {out[1]}")
            return
        self.counter[0] += 1
        spec = {"t": "Sequential", "oid": self.counter[0], "ch": [copy.deepcopy(c) for c in ch], "hooks": True}
        self.registry[spec["oid"]] = out[1]
        shape = arch.shape_at(m["spec"], m["shape"], list(op.get("path", [])) + [i])
        self.models[op["new"]] = {"spec": spec, "obj": out[1], "shape": shape, "dtype": m["dtype"]}

    def op_wrap(self, task, op):
        """A new Sequential around a model."""
        t = self.target(op)
        if t is None:
            self.stats["skipped"] += 1
            return
        m, node, obj = t
        out = self.simulated(task, op, lambda: self.nnj.Sequential(obj, add_hooks=op.get("hooks", True)))
        if out[0] == "exc":
            self.report("wrap-raised", op["uid"], f"Sequential(model) raised {out[1]}")
            return
        self.counter[0] += 1
        spec = {"t": "Sequential", "oid": self.counter[0], "ch": [copy.deepcopy(node)]}
        self.registry[spec["oid"]] = out[1]
        self.models[op["new"]] = {"spec": spec, "obj": out[1], "shape": m["shape"], "dtype": m["dtype"]}

    # -- copies and checkpoints (C07)

    def op_copy(self, task, op):
        t = self.target(op)
        if t is None:
            self.stats["skipped"] += 1
            return
        m, node, obj = t
        how = op["how"]

        def run():
            if how == "deepcopy":
                return copy.deepcopy(obj)
            if how == "pickle":
                return pickle.loads(pickle.dumps(obj, protocol=op.get("proto", 4)))
            if how == "save":
                b = io.BytesIO()
                torch.save(obj, b)
                b.seek(0)
                return torch.load(b, weights_only=False)
            if how == "state":
                b = io.BytesIO()
                torch.save(obj.state_dict(), b)
                b.seek(0)
                return torch.load(b, weights_only=True)
            raise AssertionError(how)

        out = self.simulated(task, op, run)
        if out[0] == "exc":
            if not task.op_faults:
                self.report("copy-raised", op["uid"], f"{how} raised {out[1]}")
            return
        self.adopt(op, m, node, out[1], state=(how == "state"))

    def adopt(self, op, m, node, new, state=False, shape=None, params=None):
        """A copy becomes a model of its own."""
        params = params or self.params_of(node)
        spec, table = arch.fresh_oids(node, self.counter, keep_sharing=True)
        for l in leaves(spec):
            self.shadow[l["oid"]] = dict(params[l["_old"]])
        if state:
            zero = {l["oid"]: {n: torch.zeros(s, dtype=F64) for n, s in param_shapes(l)} for l in leaves(spec)}
            reg = {}
            with patched_locks():
                obj = arch.build(self.nnj, spec, zero, m["dtype"], reg)
            r = self.go_on(None, lambda: obj.load_state_dict(new))
            if r[0] == "exc":
                self.report("load-raised", op["uid"], f"load_state_dict into a newly built model raised {r[1]}")
                return
            self.registry.update(reg)
        else:
            obj = new
            try:
                arch.register(obj, spec, self.registry)
                arch.obj_params  # the structure of the copy is walked by weights_match below
                bad = self.weights_match(spec)
            except Exception as e:
                bad = f"the copy has another structure ({type(e).__name__}: {e})"
            if bad:
                self.report("copy-differs", op["uid"], f"a copy does not hold the weights of the original: {bad}")
                return
            src = {id(p) for p in m["obj"].parameters()}
            ptr = {p.data_ptr() for p in m["obj"].parameters()}
            if any(id(p) in src or p.data_ptr() in ptr for p in obj.parameters()):
                self.report("copy-shares", op["uid"], "a copy shares weights with the original")
                return
            mods = {id(x) for x in m["obj"].modules()}
            if any(id(x) in mods for x in obj.modules()):
                self.report("copy-shares", op["uid"], "a copy shares layer objects with the original")
                return
        self.models[op["new"]] = {"spec": spec, "obj": obj, "shape": shape or arch.shape_at(m["spec"], m["shape"], op.get("path", [])),
                                  "dtype": m["dtype"]}

    def op_ckpt(self, task, op):
        """Write a checkpoint the usual way: to a temporary file on the simulated disk, then rename."""
        t = self.target(op)
        if t is None:
            return
        m, node, obj = t
        k = self.k
        f = SimFile(self, task, op.get("io"))

        def run():
            if op["how"] == "pickle":
                pickle.dump(obj, f, protocol=4)
            elif op["how"] == "save":
                torch.save(obj, f)
            else:
                torch.save(obj.state_dict(), f)
            f.flush()

        try:
            out = self.simulated(task, op, run)
        except Crash:
            raise
        if out[0] == "exc":
            if not task.op_faults and not f.fired:
                self.report("copy-raised", op["uid"], f"writing a checkpoint raised {out[1]}")
            return
        if f.fired:  # the disk lied: what is stored is not what was written
            return
        spec, params = self.frozen(node)
        self.disk[op["name"]] = {"data": bytes(f.buf), "how": op["how"], "spec": spec, "params": params, "dtype": m["dtype"],
                                 "shape": arch.shape_at(m["spec"], m["shape"], op.get("path", []))}

    def op_restore(self, task, op):
        d = self.disk.get(op["name"])
        if d is None:
            self.stats["skipped"] += 1
            return
        b = io.BytesIO(d["data"])

        def run():
            if d["how"] == "pickle":
                return pickle.load(b)
            return torch.load(b, weights_only=(d["how"] == "state"))

        out = self.simulated(task, op, run)
        if out[0] == "exc":
            if not task.op_faults:
                self.report("restore-raised", op["uid"], f"reading a complete checkpoint raised {out[1]}")
            return
        fake = {"obj": torch.nn.Module(), "spec": d["spec"], "shape": d["shape"], "dtype": d["dtype"]}
        self.adopt(op, fake, d["spec"], out[1], state=(d["how"] == "state"), shape=d["shape"], params=d["params"])

    # -- autograd graphs (C11)

    def op_gfwd(self, task, op):
        t = self.target(op)
        if t is None or out_shape(t[1], op["shape"]) is None:
            return
        m, node, obj = t
        x = self.tensor({"s": op["x"]["s"], "scale": op["x"].get("scale", 1.0)}, (op["b"], *op["shape"]), m["dtype"], task.tid)
        x.requires_grad_(True)
        spec, params = self.frozen(node)
        out = self.simulated(task, op, lambda: obj(x))
        if out[0] == "exc":
            self.report("forward-raised", op["uid"], f"forward raised {out[1]}")
            return
        self.graphs[op["uid"]] = {"x": x, "out": out[1], "spec": spec, "params": params, "dtype": m["dtype"],
                                  "ps": [(l, n, arch.obj_params(self.registry[l["oid"]], l)[n]) for l in leaves(node) for n, _ in param_shapes(l)]}
        self.graphs[op["uid"]]["ps"] = [e for e in self.graphs[op["uid"]]["ps"] if e[2].requires_grad]
        self.fwd[op["uid"]] = {"x": x, "val": out[1] if op.get("raw") else out[1].detach(), "node": copy.deepcopy(node)}

    def op_gbwd(self, task, op):
        g = self.graphs.pop(op["g"], None)
        if g is None:
            self.stats["skipped"] += 1
            return
        o, x = g["out"], g["x"]
        g["live"] = [e for e in g["ps"] if e[2].requires_grad]  # (weights may have been frozen since)
        seedgrad = gen_tensor(op["s"], o.shape, g["dtype"])

        leafs = [x] + [p for _, _, p in g["live"]]
        acc = bool(op.get("acc")) and op.get("second") is None
        prev = None
        if acc:
            self.accrued_kept(op["uid"])
            prev = [None if t.grad is None else t.grad.clone() for t in leafs]

        def run():
            if acc:
                o.backward(seedgrad)
                return [t.grad for t in leafs]
            if op.get("hess") or op.get("second") is not None:
                return torch.autograd.grad(o, leafs, seedgrad, create_graph=True, allow_unused=True)
            return torch.autograd.grad(o, leafs, seedgrad, allow_unused=True)

        out = self.go_on(task, run)
        self.obs.append({"uid": op["uid"], "op": op, "kind": "bwd", "outcome": out[0], "g": g, "sg": seedgrad, "prev": prev,
                         "result": None if out[0] == "exc" else [None if r is None else r.detach().clone() for r in out[1]],
                         "exc": out[1] if out[0] == "exc" else None, "spec": g["spec"], "params": g["params"], "faults": [],
                         "x": x.detach().clone(), "dtype": g["dtype"]})
        if acc and out[0] == "ok":
            for (l, n, q) in g["live"]:
                if q.grad is not None:
                    self.accrued[l["oid"], n] = q.grad.clone()
        if op.get("second") is not None and out[0] == "ok":
            vs = [None if r is None else gen_tensor(op["second"] + i, r.shape, r.dtype) for i, r in enumerate(out[1])]
            s = sum((r * v).sum() for r, v in zip(out[1], vs) if r is not None)
            if torch.is_tensor(s) and s.requires_grad:
                self.graphs[op["uid"]] = {**g, "sg": seedgrad, "vs": vs, "sum": s, "leafs": leafs}

    def op_gbwd2(self, task, op):
        """The backward pass of a backward pass."""
        g = self.graphs.pop(op["g"], None)
        if g is None:
            self.stats["skipped"] += 1
            return
        g["live2"] = [i for i, t in enumerate(g["leafs"]) if t.requires_grad]
        out = self.go_on(task, lambda: torch.autograd.grad(g["sum"], [g["leafs"][i] for i in g["live2"]], allow_unused=True))
        self.obs.append({"uid": op["uid"], "op": op, "kind": "bwd2", "outcome": out[0], "g": g, "sg": g["sg"],
                         "result": None if out[0] == "exc" else [None if r is None else r.detach().clone() for r in out[1]],
                         "exc": out[1] if out[0] == "exc" else None, "spec": g["spec"], "params": g["params"], "faults": [],
                         "x": g["x"].detach().clone(), "dtype": g["dtype"]})

    # -- likelihoods (C10)

    def op_ll(self, task, op):
        t = self.target(op)
        if t is None:
            return
        m, node, obj = t
        shape = tuple(op["shape"])
        o = out_shape(node, shape)
        if o is None:
            self.stats["skipped"] += 1
            return
        dtype = m["dtype"]
        x = self.tensor(op["x"], (op["b"], *shape), dtype, task.tid)
        tgt = gen_tensor(op["ts"], (op["b"], *o), dtype)
        if op["dist"] != "LogGaussian":
            if op.get("tk") == "soft":
                tgt = torch.softmax(tgt, -1) if op["dist"] == "LogBernoulli" else torch.sigmoid(tgt)
            elif op["dist"] == "LogBernoulli" and op.get("onehot"):
                z = torch.zeros_like(tgt)
                tgt = z.scatter(-1, tgt.argmax(-1, keepdim=True), 1.0)
            else:
                tgt = (tgt > 0).to(dtype)
        rows = op.get("rows")
        if rows is not None:
            x, tgt = x[rows], tgt[rows]
        if op["dist"] == "LogGaussian" and op.get("tk") == "met":  # some rows are fitted exactly
            with torch.no_grad():
                try:
                    v = obj(x)
                except Exception:
                    v = tgt
            if v.shape == tgt.shape and v.dtype == dtype:
                tgt[:: 1 + op["ts"] % 2] = v[:: 1 + op["ts"] % 2]
        cfg = dict(aggregate_batch=op["agg"], metric_shape=op["ms"], metric_backprop=op["mb"])
        key = ("ll", op["dist"], op["agg"], op["ms"], op["mb"])
        spec, params = self.frozen(node)
        ob = {"uid": op["uid"], "op": op, "spec": spec, "params": params, "x": x.detach().clone(), "tgt": tgt.clone(),
              "dtype": dtype, "kind": "ll"}
        guard = self.before(task, op, x, tgt, None)
        what = op["what"]

        def run():
            if key not in self.llobjs:
                self.llobjs[key] = getattr(self.nnj, op["dist"])(**cfg)
            ll = self.llobjs[key]
            with self.ambient(op):
                if what == "forward":
                    return ll(x, obj, tgt)
                if what == "gradient":
                    return ll.gradient(x, obj, tgt, wrt=op["wrt"])
                return ll.ggn(x, obj, tgt, wrt=op["wrt"]) if op.get("passt", True) else ll.ggn(x, obj, wrt=op["wrt"])

        out = self.simulated(task, op, run)
        tries = 0
        while out[0] == "exc" and task.op_faults and tries < 3:
            # the worker retries a chunk that failed: the result counts once
            tries += 1
            task.op_faults = []
            out = self.go_on(task, run)
        self.after(task, op, ob, out, guard)

    # ------------------------------------------------------------------ judging

    def judge_all(self):
        torch.set_grad_enabled(True)
        torch.set_default_dtype(torch.float32)
        for ob in self.obs:
            digest_of(self.h, [ob["uid"], ob["outcome"], ob.get("result") if ob["outcome"] == "ok" else str(ob.get("exc"))])
        for ob in self.obs:
            self.judge(ob)
        if self.prop == "C11":
            self.accrued_kept(-1)
        if self.prop in ("C04", "C05"):
            for ob in self.obs:
                if "live" in ob and not same_bits(snap(ob["live"]), ob["result"]):
                    if self.prop == "C04":
                        self.report("result-changed", ob["uid"], "a result that had been returned changed afterwards")
        if self.prop == "C06":
            for k, v in self.keep.items():
                if isinstance(k, tuple) and k[0] == "w" and not self.case.get("scribbled") and not same_bits(v[0].detach(), v[1]):
                    self.report("get-weight-live", k[1], "a weight vector that had been returned changed afterwards")

    def permitted(self, ob):
        op, e = ob["op"], ob["exc"][0]
        if issubclass(e, NotImplementedError):
            bad = arch.NO_FORWARD_MODE.get(op.get("meth"), ())
            if any(t in bad for t in leaf_types(ob["spec"])):
                return True
            if op.get("meth") in ("jmjTp", "jmp", "jvp") and ob["spec"]["t"] == "Skip":
                return False
        return False

    def judge(self, ob):
        if ob["kind"] == "bad" or self.prop == "C13":
            return
        op = ob["op"]
        if ob["faults"]:
            if ob["outcome"] == "exc":
                return  # the call failed as it had to; what it left behind is judged by the later operations
        elif ob["outcome"] == "exc":
            if not self.permitted(ob):
                self.report("raised:" + (op.get("meth") or op.get("what") or op["k"]), op["uid"],
                            f"{self.describe(ob)} raised {ob['exc'][0].__name__}: {ob['exc'][1]} in {ob['exc'][2]}", self.solo(ob))
            return
        try:
            r = judge_result(ob, self.stats)
        except HarnessError:
            raise
        except Exception as e:  # what was returned cannot even be compared
            r = ("malformed:" + (op.get("meth") or op.get("what") or op["k"]), f"{type(e).__name__}: {str(e)[:150]}")
        if r is not None:
            self.report(r[0], op["uid"], f"{self.describe(ob)}: {r[1]}", self.solo(ob))
        if self.prop == "C11" and (ob["kind"] == "call" or (ob["kind"] == "ll" and op["what"] != "forward")) and any(ob.get("rg", [])):
            self.report("graph-kept", op["uid"], f"{self.describe(ob)} returned a tensor that is part of an autograd graph")

    def describe(self, ob):
        op = ob["op"]
        f = "".join(c for c, k in (("d", "fd"), ("D", "td"), ("B", "db")) if op.get(k))
        return (f"op {op['uid']} {op.get('m')}{list(op.get('path', []))}.{op.get('meth') or op.get('what') or op['k']}"
                f"[{op.get('wrt', 'input')}{',' + f if f else ''}{',val' if op.get('val') or 'xv' in op else ''}]"
                f" b={ob['x'].shape[0]} on {brief(ob['spec'])}")

    def solo(self, ob):
        if ob["kind"] not in ("call", "fwd", "ll"):
            return None
        op = ob["op"]
        spec, table = arch.fresh_oids(ob["spec"], [0])
        params = {l["oid"]: {n: ob["params"][l["_old"]][n] for n, _ in param_shapes(l)} for l in leaves(spec)}
        b = {"spec": spec, "params": params, "x": ob["x"], "mat": ob.get("mat"), "op": op, "dtype": ob["dtype"], "kind": ob["kind"],
             "tgt": ob.get("tgt"), "seed": self.case["seed"]}
        return pickle.dumps(b)


def brief(spec):
    t = spec["t"]
    if t in CONTAINERS:
        return f"{'Seq' if t == 'Sequential' else 'Skip'}({','.join(brief(c) for c in spec['ch'])})"
    return t + (f"#{spec['oid']}" if False else "")


def combo(ob):
    op = ob["op"]
    return (op.get("meth") or op.get("what") or op["k"], op.get("wrt"), bool(op.get("fd")), bool(op.get("td")), bool(op.get("db")),
            op.get("mat") is None, tuple(sorted(leaf_types(ob["spec"]))))


def judge_result(ob, stats):
    """None, or (class, detail): the result against the reference at the call's own input and weights."""
    op, dtype = ob["op"], ob["dtype"]
    try:
        R = Ref(ob["spec"], ob["params"], ob["x"])
        ok = R.decidable(dtype)
    except Exception as e:
        raise HarnessError(f"reference: {e!r}")
    if not ok:
        stats["undecidable"] += 1
        return None
    tol = tolerance(R, dtype)
    name = op.get("meth") or op.get("what") or op["k"]

    def expected(R, absolute=False):
        if ob["kind"] == "fwd":
            return R.val().abs() + 1 if absolute else R.val()
        if ob["kind"] == "ll":
            return expected_ll(R, ob, absolute)
        if ob["kind"] == "bwd":
            return expected_bwd(R, ob, absolute)
        if ob["kind"] == "bwd2":
            return expected_bwd2(R, ob, absolute)
        return R.product(op["meth"], op.get("wrt", "input"), ob.get("mat"), bool(op.get("fd")), bool(op.get("td")),
                         bool(op.get("db")), absolute)

    try:
        exp = expected(R)
    except Exception as e:
        raise HarnessError(f"reference: {e!r}")
    got = ob.get("result")
    if ob["kind"] in ("bwd", "bwd2") and ob["outcome"] == "exc":
        return ("backward-raised", f"backward raised {ob['exc'][0].__name__}: {ob['exc'][1]}")
    stats["judged"] += 1
    stats["combos"].add(combo(ob))
    if exp is None or got is None:
        if exp is None and got is None:
            return None
        return ("none:" + name, f"expected {'no result' if exp is None else 'a tensor'}, got {'no result' if got is None else 'a tensor'}")
    bound = expected(R, True)
    E, G, B = flatten_blocks(exp), flatten_blocks(got), flatten_blocks(bound)
    if isinstance(exp, list) != isinstance(got, (list, tuple)):
        return ("shape:" + name, f"expected {'a list of blocks' if isinstance(exp, list) else 'one tensor'}, got {type(got).__name__}")
    if len(E) != len(G):
        return ("shape:" + name, f"expected {len(E)} blocks, got {len(G)}")
    for e, g, bd in zip(E, G, B):
        if e is None and g is None:
            continue
        if e is None or g is None:
            if e is not None and not bool((e != 0).any()):
                continue
            return ("none:" + name, "a block is missing")
        if tuple(e.shape) != tuple(g.shape):
            return ("shape:" + name, f"expected shape {tuple(e.shape)}, got {tuple(g.shape)}")
        if g.dtype != dtype:
            return ("dtype:" + name, f"expected {dtype}, got {g.dtype}")
    # every row of the batch is held to its own size, unless the rows were added up
    rows = ob["kind"] in ("fwd", "call") or ob["kind"] == "ll" and op["agg"] == "return all"
    err = mismatch(E, G, B, tol, rows)
    if err is None:
        return None
    if not torch.isfinite(torch.cat([e.reshape(-1) for e in E if e is not None])).all():
        stats["undecidable"] += 1
        return None
    # the terms that are summed may be larger than the result: the bound that counts is the layer by layer one
    E3 = flatten_blocks(expected(R, "chain"))
    err = mismatch(E, G, E3, tol, rows)
    if err is None:
        return None
    # is the point well conditioned?  an answer that moves under a rounding sized change of the arguments is not judged
    eps = 1e-14 if dtype == F64 else 1e-6
    for s in range(2):
        x2 = R.x * (1 + eps * gen_tensor(s + 1, R.x.shape, F64)) + eps * gen_tensor(s + 11, R.x.shape, F64)
        p2 = {o: {n: v * (1 + eps * gen_tensor(s + 21, v.shape, F64)) for n, v in d.items()} for o, d in ob["params"].items()}
        R2 = Ref(ob["spec"], p2, x2)
        E2 = flatten_blocks(expected(R2))
        if mismatch(E, E2, E3, max(tol / 8, min(err, 1.0) / 1000), rows) is not None:
            stats["undecidable"] += 1
            return None
    return ("wrong:" + name, f"relative error {err:.2e} (tolerance {tol:.0e})")


def mismatch(E, G, B, tol, rows=False):
    worst = None
    for e, g, b in zip(E, G, B):
        if e is None or g is None or e.numel() == 0:
            continue
        g = g.to(F64)
        s = b.max() if b.numel() else torch.zeros((), dtype=F64)
        if rows and b.dim() > 1:
            s = b.reshape(b.shape[0], -1).amax(1).reshape(-1, *([1] * (b.dim() - 1)))
        lim = tol * s + 1e-30
        d = (e - g).abs()
        if not bool((d <= lim).all()):
            w = float((torch.nan_to_num(d, nan=float("inf")) / (s + 1e-300)).max())
            worst = w if worst is None else max(worst, w)
    return worst


def expected_bwd(R, ob, absolute):
    g, sg = ob["g"], ob["sg"].to(F64).reshape(R.b, -1)
    a = (lambda t: t.abs()) if absolute else (lambda t: t)
    jac = (lambda w: R.chain_abs(w)) if absolute == "chain" else (lambda w: R.jac(w))
    out = [torch.einsum("bi,bij->bj", a(sg), a(jac("input"))).reshape(R.x.shape)]
    J = jac("weight")
    if J is not None:
        v = torch.einsum("bi,bij->j", a(sg), a(J))
        d = ref.unflat(ob["spec"], v)
        for l, n, p in g["live"]:
            out.append(d[l["oid"]][n])
    if ob.get("prev") is not None:
        out = [t if q is None else t + a(q.to(F64)) for t, q in zip(out, ob["prev"])]
    return out


def expected_bwd2(R, ob, absolute):
    g = ob["g"]
    with torch.enable_grad():
        x = R.x.clone().requires_grad_(True)
        params = {o: {n: t.clone().requires_grad_(True) for n, t in d.items()} for o, d in ob["params"].items()}
        leafs = [x] + [params[l["oid"]][n] for l, n, _ in g["live"]]
        first = torch.autograd.grad(ref.forward(ob["spec"], params, x), leafs, g["sg"].to(F64), create_graph=True, allow_unused=True)
        s = sum((f * v.to(F64)).sum() for f, v in zip(first, g["vs"]) if f is not None and v is not None)
        if not (torch.is_tensor(s) and s.requires_grad):
            out = [torch.zeros_like(t) for t in leafs]
        else:
            out = [torch.zeros_like(t) if r is None else r for r, t in zip(torch.autograd.grad(s, leafs, allow_unused=True), leafs)]
    out = [out[i].detach() for i in g["live2"]]
    if absolute:  # no term by term bound here: everything is held to the largest entry
        top = max([1.0] + [float(r.abs().max()) for r in out if r.numel()] + [float(f.detach().abs().max()) for f in first if f is not None and f.numel()])
        return [torch.full_like(r, top * 1e3) for r in out]
    return out


def expected_ll(R, ob, absolute):
    op = ob["op"]
    v = R.val()
    y = ob["tgt"].to(F64)
    b = R.b
    dist, what, wrt = op["dist"], op["what"], op["wrt"]
    a = (lambda t: t.abs()) if absolute else (lambda t: t)

    def agg(t):
        if t is None:
            return None
        if isinstance(t, list):
            return [agg(k) for k in t]
        return {"return all": lambda: t, "sum": lambda: t.sum(0), "average": lambda: t.mean(0)}[op["agg"]]()

    if dist == "LogGaussian":
        res = y - v
        H = -torch.ones(b, v[0].numel(), dtype=F64)
        ll = -0.5 * (v - y) ** 2
        bound = 0.5 * (v.abs() + y.abs()) ** 2 + 1
    elif dist == "LogBinaryBernoulli":
        p = torch.sigmoid(v)
        res = y - p
        H = -(p * (1 - p)).reshape(b, -1)
        ll = y * v - torch.logaddexp(v, torch.zeros_like(v))
        bound = v.abs() + 1
    else:
        p = torch.softmax(v, -1)
        res = y - p
        n = v[0].numel()
        c = v.shape[-1]
        pl = p.reshape(b, -1, c)
        H = torch.zeros(b, n, n, dtype=F64)
        for i in range(pl.shape[1]):
            q = pl[:, i]
            H[:, i * c : (i + 1) * c, i * c : (i + 1) * c] = torch.einsum("bi,bj->bij", q, q) - torch.diag_embed(q)
        ll = y * torch.log_softmax(v, -1)
        bound = v.abs() + v.abs().max() + 1
    if what == "forward":
        return agg((bound if absolute else ll).reshape(b, -1).sum(1))
    if what == "gradient":
        if absolute:
            res = y.abs() + 1 + (v.abs() if dist == "LogGaussian" else 0)
        r = R.product("vjp", wrt, res.reshape(b, -1), absolute=absolute)
        return agg(r)
    td = op["ms"] == "diag"
    if absolute:
        H = H.abs() + 1e-2
    r = R.product("jTmjp", wrt, H, fd=(H.dim() == 2), td=td, db=op["mb"] == "approx", absolute=absolute)
    return agg(r)


class SimFile:
    """A file on the simulated disk, as a Python file object; every write is a fault point."""

    def __init__(self, world, task, plan):
        self.w, self.t, self.plan = world, task, plan
        self.buf = bytearray()
        self.n = 0
        self.fired = None

    def write(self, b):
        b = bytes(b)
        k = self.n
        self.n += 1
        p = self.plan
        if p is not None and k == p["at"] and self.fired is None:
            self.fired = p["kind"]
            f = self.w.k.fired
            f[p["kind"]] = f.get(p["kind"], 0) + 1
            self.w.k.trace.update(f"IO {p['kind']};".encode())
            if p["kind"] == "enospc":
                self.buf += b[: len(b) // 2]
                raise OSError(28, "No space left on device (simulated)")
            if p["kind"] == "eio":
                raise OSError(5, "Input/output error (simulated)")
            if p["kind"] == "short":
                self.buf += b[: len(b) // 2]
                return len(b) // 2
            if p["kind"] == "lost":
                return len(b)
            if p["kind"] == "iocrash":
                self.buf += b[: len(b) // 2]
                self.w.k.crashed = True
                raise Crash()
        self.buf += b
        return len(b)

    def flush(self):
        pass

    def tell(self):
        return len(self.buf)
