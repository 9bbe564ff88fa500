"""Model descriptions: shape inference, weights, construction of the real nnj objects, random generation.

A description is a tree.  A leaf is {"t": layer, "oid": object id, options}; a container is
{"t": "Sequential" | "Skip", "oid": .., "ch": [children], "hooks": bool}.  Two nodes with the same oid
are the same Python object.
"""
import copy
from collections import OrderedDict

import torch

from . import custom
from .rng import Rng, derive

ACTS = ("Tanh", "ReLU", "Sigmoid", "Sinusoidal", "Softplus", "TruncExp")
NO_FORWARD_MODE = {"jvp": ("Conv2d", "Upsample", "MaxPool2d"), "jmp": ("Conv2d", "Upsample"),
                   "jmjTp": ("Conv2d", "Upsample", "MaxPool2d")}
CONTAINERS = ("Sequential", "Skip")


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def leaves(spec):
    if spec["t"] in CONTAINERS:
        for c in spec["ch"]:
            yield from leaves(c)
    else:
        yield spec


def leaf_types(spec):
    return {l["t"] for l in leaves(spec)}


def param_shapes(leaf):
    t = leaf["t"]
    if t == "Linear":
        r = [("weight", (leaf["out"], leaf["in"]))]
        return r + [("bias", (leaf["out"],))] if leaf["bias"] else r
    if t == "Conv2d":
        r = [("weight", (leaf["out"], leaf["in"], *leaf["k"]))]
        return r + [("bias", (leaf["out"],))] if leaf["bias"] else r
    if t == "CPar":
        return [("w", (2, leaf["n"]))]
    return []


def n_params(spec):
    return sum(numel(s) for l in leaves(spec) for _, s in param_shapes(l))


def pool_args(spec, i):
    """(kernel, stride, padding, dilation, ceil) of a MaxPool2d along height or width."""
    k, s, p, d = (spec.get(a, 1) for a in "kspd")
    return tuple(a[i] if isinstance(a, (list, tuple)) else a for a in (k, s, p, d)) + (bool(spec.get("ceil")),)


def pooled(n, k, s, p, d, ceil):
    free = n + 2 * p - d * (k - 1) - 1
    if free < 0:
        return None
    m = (free + (s - 1 if ceil else 0)) // s + 1
    if ceil and (m - 1) * s >= n + p:  # the last window must start inside the image
        m -= 1
    for j in range(m):  # every window sees a pixel
        if not any(0 <= j * s - p + i * d < n for i in range(k)):
            return None
    return m


def out_shape(spec, shape):
    """Shape (without batch) of the output, or None when the input shape is not accepted."""
    t = spec["t"]
    shape = tuple(shape)
    if t == "Sequential":
        for c in spec["ch"]:
            shape = out_shape(c, shape)
            if shape is None:
                return None
        return shape
    if t == "Skip":
        o = shape
        for c in spec["ch"]:
            o = out_shape(c, o)
            if o is None:
                return None
        if len(o) != len(shape) or o[1:] != shape[1:]:
            return None
        return (shape[0] + o[0],) + shape[1:]
    if t == "Linear":
        return (spec["out"],) if shape == (spec["in"],) else None
    if t == "Conv2d":
        if len(shape) != 3 or shape[0] != spec["in"]:
            return None
        h = shape[1] + 2 * spec["p"][0] - spec["k"][0] + 1
        w = shape[2] + 2 * spec["p"][1] - spec["k"][1] + 1
        return (spec["out"], h, w) if h > 0 and w > 0 else None
    if t == "MaxPool2d":
        if len(shape) != 3:
            return None
        hw = [pooled(shape[1 + i], *pool_args(spec, i)) for i in (0, 1)]
        return (shape[0], *hw) if None not in hw else None
    if t == "Upsample":
        return (shape[0], shape[1] * spec["f"], shape[2] * spec["f"]) if len(shape) == 3 else None
    if t == "Flatten":
        return (numel(shape),)
    if t == "Reshape":
        return tuple(spec["dims"]) if numel(shape) == numel(spec["dims"]) else None
    if t == "CLin":
        return (spec["out"],) if shape == (spec["in"],) else None
    if t == "CPar":
        return shape if shape == (spec["n"],) else None
    if t == "L2Norm":
        return shape
    return shape


def node_at(spec, path):
    for i in path:
        spec = spec["ch"][i]
    return spec


def shape_at(spec, shape, path):
    """Input shape of the node at the path, when the root gets an input of the given shape."""
    shape = tuple(shape)
    for i in path:
        for c in spec["ch"][:i]:
            shape = out_shape(c, shape)
        spec = spec["ch"][i]
    return shape


def all_paths(spec, pre=()):
    yield pre
    if spec["t"] in CONTAINERS:
        for i, c in enumerate(spec["ch"]):
            yield from all_paths(c, pre + (i,))


# ---------------------------------------------------------------- weights


def init_params(leaf, seed, dtype, scale=1.0):
    """Exact values (held in float64, representable in dtype) of the leaf's parameters."""
    r = OrderedDict()
    for name, shape in param_shapes(leaf):
        g = torch.Generator().manual_seed(derive(seed, leaf["oid"], name) >> 16)
        v = torch.randn(shape, generator=g, dtype=torch.float64)
        if name == "bias":
            v = v * 0.3
        else:
            v = v * (1.2 / max(1, numel(shape[1:])) ** 0.5)
        r[name] = (v * scale).to(dtype).double()
    return r


def obj_params(obj, leaf):
    """The real parameters of a layer, by the reference's names."""
    named = dict(obj.named_parameters())
    for name, shape in param_shapes(leaf):
        if name not in named or tuple(named[name].shape) != tuple(shape):
            raise Structure(f"a {leaf['t']} has no parameter {name} of shape {tuple(shape)} any more")
    return OrderedDict((name, named[name]) for name, _ in param_shapes(leaf))


# ---------------------------------------------------------------- construction of the real objects


def make_leaf(nnj, leaf):
    t = leaf["t"]
    if t == "Linear":
        return nnj.Linear(leaf["in"], leaf["out"], bias=leaf["bias"])
    if t == "Conv2d":
        k, p = tuple(leaf["k"]), tuple(leaf["p"])
        if leaf.get("intargs") and k[0] == k[1] and p[0] == p[1]:
            k, p = k[0], p[0]
        return nnj.Conv2d(leaf["in"], leaf["out"], k, padding=p, bias=leaf["bias"],
                          use_vmap_for_backprop=leaf.get("vmap", True))
    if t == "MaxPool2d":
        return nnj.MaxPool2d(*pool_make(leaf)[0], **pool_make(leaf)[1])
    if t == "Upsample":
        return nnj.Upsample(scale_factor=leaf["f"])
    if t == "Reshape":
        return nnj.Reshape(*leaf["dims"])
    if t == "Softplus":
        return nnj.Softplus(beta=leaf["beta"])
    if t in ("CLin", "CPar", "CSq"):
        return custom.make(nnj, leaf)
    if t == "L2Norm":
        return nnj.L2Norm(leaf["eps"]) if leaf["eps"] != 1e-6 else nnj.L2Norm()
    return getattr(nnj, t)()


def pool_make(leaf):
    t = lambda a: tuple(a) if isinstance(a, list) else a
    kw = {"stride": t(leaf["s"]), "padding": t(leaf["p"])}
    if "d" in leaf:
        kw["dilation"] = t(leaf["d"])
    if leaf.get("ceil"):
        kw["ceil_mode"] = True
    return (t(leaf["k"]),), kw


def make_plain(leaf):
    """The torch.nn layer that convert_to_nnj would be given."""
    nn = torch.nn
    t = leaf["t"]
    if t == "Linear":
        return nn.Linear(leaf["in"], leaf["out"], bias=leaf["bias"])
    if t == "Conv2d":
        return nn.Conv2d(leaf["in"], leaf["out"], tuple(leaf["k"]), padding=tuple(leaf["p"]), bias=leaf["bias"])
    if t == "MaxPool2d":
        return nn.MaxPool2d(*pool_make(leaf)[0], **pool_make(leaf)[1])
    if t == "Upsample":
        return nn.Upsample(scale_factor=leaf["f"])
    if t == "Softplus":
        return nn.Softplus(beta=leaf["beta"])
    return getattr(nn, t)()


CONVERTIBLE = {"Linear", "Conv2d", "MaxPool2d", "Upsample", "Softplus", "Tanh", "ReLU", "Sigmoid", "Flatten"}


def convertible(spec):
    if spec["t"] == "Skip":
        return False
    if spec["t"] == "Sequential":
        return all(convertible(c) for c in spec["ch"])
    return spec["t"] in CONVERTIBLE


def load(obj, leaf, params, dtype):
    obj.to(dtype)
    with torch.no_grad():
        for name, p in obj_params(obj, leaf).items():
            p.copy_(params[leaf["oid"]][name].to(dtype))


def build(nnj, spec, params, dtype, registry):
    """The real object of the description; registry maps an oid to the object already made for it."""
    oid = spec["oid"]
    if oid in registry:
        return registry[oid]
    if spec.get("via") == "convert":
        plain = build_plain(spec, params, dtype)
        obj = nnj.convert_to_nnj(plain)
        register(obj, spec, registry)
        return obj
    if spec["t"] in CONTAINERS:
        kids = [build(nnj, c, params, dtype, registry) for c in spec["ch"]]
        if spec["t"] == "Skip":
            obj = nnj.SkipConnection(*kids, add_hooks=spec.get("hooks", True))
        elif spec.get("named"):
            obj = nnj.Sequential(OrderedDict((f"layer_{i}", k) for i, k in enumerate(kids)),
                                 add_hooks=spec.get("hooks", True))
        else:
            obj = nnj.Sequential(*kids, add_hooks=spec.get("hooks", True))
        obj.to(dtype)
    else:
        obj = make_leaf(nnj, spec)
        load(obj, spec, params, dtype)
    registry[oid] = obj
    return obj


def build_plain(spec, params, dtype):
    if spec["t"] == "Sequential":
        return torch.nn.Sequential(*[build_plain(c, params, dtype) for c in spec["ch"]])
    m = make_plain(spec)
    load(m, spec, params, dtype)
    return m


class Structure(Exception):
    """A model that was built or copied does not have the layers it should have."""


def inner(obj):
    """The chain inside a skip connection."""
    f = getattr(obj, "_F", None)
    if isinstance(f, torch.nn.Module):
        return f
    for c in obj.children():
        if isinstance(c, torch.nn.Sequential):
            return c
    return obj


def kids_of(obj, spec):
    """The real children of a container object, in order."""
    if spec["t"] == "Skip":
        obj = inner(obj)
    return list(obj.children()) if not isinstance(obj, torch.nn.Sequential) else list(obj)


def register(obj, spec, registry):
    registry[spec["oid"]] = obj
    if spec["t"] in CONTAINERS:
        kids = kids_of(obj, spec)
        if len(kids) != len(spec["ch"]):
            raise Structure(f"{type(obj).__name__} has {len(kids)} layers, not {len(spec['ch'])}")
        for o, s in zip(kids, spec["ch"]):
            register(o, s, registry)


def object_at(obj, spec, path):
    for i in path:
        obj = kids_of(obj, spec)[i]
        spec = spec["ch"][i]
    return obj


def fresh_oids(spec, counter, keep_sharing=False, table=None):
    """A copy of the description with new object ids (and the map from old to new leaf ids)."""
    table = {} if table is None else table
    spec = copy.deepcopy(spec)

    def walk(n):
        old = n["oid"]
        if keep_sharing and old in table:
            n["oid"] = table[old]
        else:
            counter[0] += 1
            n["oid"] = counter[0]
            table.setdefault(old, n["oid"])
        n.setdefault("_old", old)
        n["_old"] = old
        for c in n.get("ch", ()):
            walk(c)

    walk(spec)
    return spec, table


# ---------------------------------------------------------------- random generation


class Gen:
    """Random model descriptions of bounded size."""

    def __init__(self, rng, counter=None, max_numel=40, max_params=120, custom_layers=True, trunc=True, l2=True,
                 images=True, depth=2, unsupported=True):
        self.r = rng
        self.counter = counter if counter is not None else [0]
        self.max_numel, self.max_params = max_numel, max_params
        self.custom_layers, self.trunc, self.l2, self.images = custom_layers, trunc, l2, images
        self.depth = depth
        self.used = 0
        self.trunc_left = 1
        self.unsupported = unsupported  # layers without forward mode products

    def oid(self):
        self.counter[0] += 1
        return self.counter[0]

    def leaf(self, t, **a):
        return {"t": t, "oid": self.oid(), **a}

    def act(self, img=False):
        opts = [("Tanh", 3), ("ReLU", 3), ("Sigmoid", 2), ("Sinusoidal", 2), ("Softplus", 2)]
        if self.trunc and self.trunc_left > 0:
            opts.append(("TruncExp", 1))
        if self.custom_layers:
            opts.append(("CSq", 1))
        t = self.r.weighted(opts)
        if t == "TruncExp":
            self.trunc_left -= 1
        if t == "Softplus":
            return self.leaf(t, beta=self.r.pick([1, 1, 2, 0.5]))
        return self.leaf(t)

    def budget(self, n):
        return self.used + n <= self.max_params

    def layer(self, shape, depth):
        """One layer that accepts an input of this shape (never None)."""
        r = self.r
        if len(shape) == 1:
            n = shape[0]
            opts = [("act", 4)]
            opts.append(("Linear", 5))
            if self.l2:
                opts.append(("L2Norm", 0.7))
            if self.custom_layers:
                opts += [("CLin", 0.8), ("CPar", 0.8 if self.budget(2 * n) else 0)]
            if depth > 0:
                opts += [("Skip", 1.0 if 2 * n <= self.max_numel else 0), ("Sequential", 1.0)]
            if self.images and self.factor(n):
                opts.append(("Reshape", 0.9))
            k = r.weighted(opts)
        else:
            c, h, w = shape
            opts = [("act", 3)]
            if self.unsupported:
                opts += [("Conv2d", 5), ("MaxPool2d", 1.5), ("Upsample", 1.2 if c * h * w * 4 <= self.max_numel else 0)]
            opts.append(("Flatten", 1.0))
            if self.l2:
                opts.append(("L2Norm", 0.4))
            if depth > 0:
                opts += [("Skip", 0.7 if 2 * c * h * w <= self.max_numel else 0), ("Sequential", 0.7)]
            k = r.weighted(opts)
        if k == "act":
            return self.act()
        if k == "Flatten":
            return self.leaf(k)
        if k == "L2Norm":
            return self.leaf(k, eps=r.pick([1e-6, 1e-6, 1e-3, 0.1, 1.0]))
        if k == "Linear":
            for _ in range(6):
                out, bias = r.int(1, 6), r.chance(0.7)
                n = shape[0] * out + (out if bias else 0)
                if self.budget(n):
                    self.used += n
                    return self.leaf("Linear", **{"in": shape[0], "out": out, "bias": bias})
            return self.act()
        if k == "CLin":
            return self.leaf("CLin", **{"in": shape[0], "out": r.int(1, 5), "seed": r.seed()})
        if k == "CPar":
            self.used += 2 * shape[0]
            return self.leaf("CPar", n=shape[0])
        if k == "Reshape":
            return self.leaf("Reshape", dims=list(r.pick(self.factor(shape[0]))))
        if k == "Conv2d":
            c, h, w = shape
            for _ in range(8):
                kk = (r.int(1, 3), r.int(1, 3))
                p = (r.int(0, min(1, kk[0] - 1)), r.int(0, min(1, kk[1] - 1)))
                if r.chance(0.15):
                    p = (r.int(0, kk[0] - 1), r.int(0, kk[1] - 1))
                out, bias = r.int(1, 3), r.chance(0.7)
                s = self.leaf("Conv2d", **{"in": c, "out": out, "k": list(kk), "p": list(p), "bias": bias,
                                           "vmap": r.chance(0.6), "intargs": r.chance(0.4)})
                o = out_shape(s, shape)
                n = n_params(s)
                if o and numel(o) <= self.max_numel and self.budget(n):
                    self.used += n
                    return s
            return self.act()
        if k == "MaxPool2d":
            for _ in range(4):
                kk = r.pick([2, 2, 3])
                s = self.leaf("MaxPool2d", k=kk, s=r.pick([1, 2, kk]), p=r.pick([0, 0, 1 if kk > 1 else 0]))
                if r.chance(0.25):
                    kk = [r.int(1, 3), r.int(1, 3)]
                    s.update(k=kk, s=[r.int(1, 2), r.int(1, 3)], p=[r.int(0, kk[0] // 2), r.int(0, kk[1] // 2)])
                if r.chance(0.1):
                    s["d"] = r.pick([2, [2, 1], [1, 2]])
                if r.chance(0.12):
                    s["ceil"] = True
                o = out_shape(s, shape)
                if o:
                    return s
            return self.act()
        if k == "Upsample":
            c, h, w = shape
            return self.leaf("Upsample", f=r.weighted([(2, 6), (3, 2 if 9 * c * h * w <= self.max_numel else 0), (1, 0.7)]))
        if k in ("Skip", "Sequential"):
            ch, o = self.chain(shape, r.int(1, 3), depth - 1, keep_hw=(k == "Skip"), skip=(k == "Skip"))
            s = {"t": k, "oid": self.oid(), "ch": ch, "hooks": r.chance(0.7)}
            oo = out_shape(s, shape)
            if ch and oo and numel(oo) <= self.max_numel:
                return s
            return self.act()
        raise AssertionError(k)

    @staticmethod
    def factor(n):
        r = []
        for c in (1, 2, 3):
            for h in (2, 3, 4):
                if n % (c * h) == 0 and n // (c * h) >= 2:
                    r.append((c, h, n // (c * h)))
        return r

    def chain(self, shape, length, depth, keep_hw=False, skip=False):
        ch, cur, prev = [], tuple(shape), None
        for _ in range(length):
            for _ in range(6):
                before = (self.used, self.trunc_left)
                l = self.layer(cur, depth)
                o = out_shape(l, cur)
                kinds = [x["t"] for x in leaves(l)]
                bad = o is None or numel(o) > self.max_numel
                if skip and o is not None and (len(o) != len(shape) or (len(o) == 3 and o[1:] != tuple(shape)[1:])):
                    bad = True
                if prev in ("Upsample", "ReLU") and kinds and kinds[0] == "MaxPool2d":
                    bad = True
                if bad:
                    self.used, self.trunc_left = before
                    continue
                ch.append(l)
                cur = o
                prev = kinds[-1] if kinds else prev
                break
        return ch, cur

    def model(self, shape, length=None, root="Sequential"):
        r = self.r
        length = length or r.weighted([(2, 2), (3, 4), (4, 4), (5, 3), (7, 1), (1, 0.7)])
        ch, out = self.chain(shape, length, self.depth, skip=(root == "Skip"))
        if not ch:
            ch = [self.act()]
        if root == "Sequential" and not any(param_shapes(l) for c in ch for l in leaves(c)) and r.chance(0.8):
            c2, out = self.chain(shape, 1, 0)
            if len(shape) == 1:
                o = r.int(2, 5)
                ch = [self.leaf("Linear", **{"in": shape[0], "out": o, "bias": True})]
                ch += self.chain((o,), max(1, length - 1), self.depth)[0]
            else:
                ch = c2 + self.chain(out, max(1, length - 1), self.depth)[0]
        spec = {"t": root, "oid": self.oid(), "ch": ch, "hooks": r.chance(0.75)}
        return spec

    def odd(self):
        """(description, input shape) of an unusual model: layers that only hand things through, single layers,
        long chains, deep nesting."""
        r = self.r
        n = r.int(2, 5)
        S = lambda *ch: {"t": "Sequential", "oid": self.oid(), "ch": list(ch), "hooks": r.chance(0.7)}
        K = lambda *ch: {"t": "Skip", "oid": self.oid(), "ch": list(ch), "hooks": r.chance(0.7)}
        lin = lambda a, b: self.leaf("Linear", **{"in": a, "out": b, "bias": r.chance(0.7)})
        flat, shp = (lambda: self.leaf("Flatten")), (lambda k: self.leaf("Reshape", dims=[k]))
        kind = r.weighted([("through", 3), ("single", 3), ("long", 3), ("deep", 2)])
        if kind == "through":
            t = r.below(8)
            if t == 0:
                return S(flat()), (n,)
            if t == 1:
                return S(flat()), (1, 2, n)
            if t == 2:
                return K(r.pick([flat, lambda: shp(n)])()), (n,)
            if t == 3:
                return S(K(flat()), lin(2 * n, 2)), (n,)
            if t == 4:
                return S(lin(n, 2), K(S(flat())), flat()), (n,)
            if t == 5:
                return K(K(shp(n))), (n,)
            if t == 6:
                return S(flat(), self.leaf("Reshape", dims=[1, 2, n]), flat(), shp(2 * n)), (2, n, 1)
            return S(S(flat()), self.act(), K(flat())), (n,)
        if kind == "single":
            s = r.pick([(n,), (1, 3, 3), (2, 2, 3)])
            l = self.layer(s, 0)
            if out_shape(l, s) is None:
                l = self.act()
            m = (K if r.chance(0.3) and len(out_shape(l, s)) == len(s) and out_shape(l, s)[1:] == s[1:] else S)(l)
            return (S(m) if r.chance(0.2) else m), s
        if kind == "long":
            ch, cur = [], n
            for i in range(r.int(11, 14)):
                if r.chance(0.6):
                    o = r.int(1, 3)
                    ch.append(lin(cur, o))
                    cur = o
                else:
                    ch.append(self.leaf(r.pick(["Tanh", "Sinusoidal", "Sigmoid", "Tanh"])))
            return S(*ch), (n,)
        d = r.int(3, 6)
        core = [lin(n, n), self.act()]
        for i in range(d):
            core = [r.weighted([(S, 3), (K, 1 if i == 0 else 0)])(*core)]
            if r.chance(0.4):
                core.append(self.act() if r.chance(0.5) else lin(out_shape(S(*core), (n,))[0], r.int(1, 3)))
        return S(*core), (n,)

    def focused(self, kind, flex=False):
        """(description, input shape) of a small model around one layer of this kind."""
        r = self.r
        for _ in range(60):
            self.used, self.trunc_left = 0, 1
            image = (flex and r.chance(0.5)) or kind in ("Conv2d", "MaxPool2d", "Upsample") or (kind not in ("Linear", "CLin", "CPar", "Reshape") and r.chance(0.5 if kind == "Flatten" else 0.3))
            s0 = s = r.pick([(1, 3, 3), (1, 2, 4), (2, 2, 3), (1, 4, 3), (2, 3, 3)]) if image else (r.pick([2, 3, 4, 4, 6, 8]),)
            ch = []
            if r.chance(0.5):
                ch, s = self.chain(s, r.int(1, 2), 0)
            for _ in range(30):
                l = self.layer(s, 1 if kind in CONTAINERS else 0) if kind not in ACTS else self.leaf(kind, **({"beta": r.pick([1, 2, 0.5])} if kind == "Softplus" else {}))
                if l["t"] == kind and out_shape(l, s) is not None:
                    break
            else:
                continue
            ch = ch + [l]
            s = out_shape(l, s)
            if r.chance(0.6):
                ch += self.chain(s, r.int(1, 2), 0)[0]
            m = {"t": "Sequential", "oid": self.oid(), "ch": ch, "hooks": r.chance(0.7)}
            ls = [x["t"] for x in leaves(m)]
            if sum(t == "TruncExp" for t in ls) > 1 or any(a in ("Upsample", "ReLU", "MaxPool2d") and b == "MaxPool2d" for a, b in zip(ls, ls[1:])):
                continue
            o = out_shape(m, s0)
            if o is not None and numel(o) <= self.max_numel:
                return m, s0
        return None

    def input_shape(self):
        r = self.r
        if self.images and r.chance(0.4):
            return r.pick([(1, 3, 3), (1, 4, 4), (1, 3, 5), (2, 3, 3), (1, 5, 4), (2, 2, 4), (1, 5, 5), (3, 2, 3)])
        return (r.weighted([(1, 0.6), (2, 2), (3, 3), (4, 3), (5, 2), (6, 2), (8, 0.7), (12, 0.6)]),)
