"""The reference: an independent float64 functional model of a description, differentiated by autograd.

It shares no code with nnj.  Products are formed from the explicit Jacobian.  `Margin` records how close an
evaluation is to a point where the derivative is not defined (a kink of ReLU, a tie of a pooling window, the
clamped region of TruncExp, the origin for L2Norm): such evaluations decide nothing.
"""
import math

import torch
import torch.nn.functional as F
from torch.func import jacrev, vmap

from . import arch
from .arch import leaves, n_params, numel, param_shapes
from .custom import clin_matrix

F64 = torch.float64


class Margin:
    """gap: distance to the nearest point without derivative; sat: how deep the saturating layers are driven
    (there the derivative is a difference of nearly equal numbers, and its relative precision is lost)."""

    def __init__(self):
        self.gap = float("inf")
        self.sat = 0.0
        self.slack = 0.0

    def saturate(self, v):
        if v.numel():
            self.sat = max(self.sat, float(v.abs().max()))

    def see(self, v):
        if v.numel():
            self.gap = min(self.gap, float(v.min()))


def leaf_forward(leaf, p, x, margin=None):
    t = leaf["t"]
    if t == "Linear":
        y = x @ p["weight"].T
        return y + p["bias"] if leaf["bias"] else y
    if t == "Conv2d":
        return F.conv2d(x, p["weight"], p["bias"] if leaf["bias"] else None, padding=tuple(leaf["p"]))
    if t == "MaxPool2d":
        (kh, sh, ph, dh, ceil), (kw, sw, pw, dw, _) = arch.pool_args(leaf, 0), arch.pool_args(leaf, 1)
        if margin is not None:
            _, oh, ow = arch.out_shape(leaf, tuple(x.shape[1:]))
            need_h, need_w = (oh - 1) * sh + (kh - 1) * dh + 1, (ow - 1) * sw + (kw - 1) * dw + 1
            xp = F.pad(x.detach(), (pw, max(need_w - x.shape[3] - pw, 0), ph, max(need_h - x.shape[2] - ph, 0)), value=float("-inf"))
            win = torch.stack([xp[:, :, i * dh: i * dh + (oh - 1) * sh + 1: sh, j * dw: j * dw + (ow - 1) * sw + 1: sw]
                               for i in range(kh) for j in range(kw)], dim=-1)
            if kh * kw > 1:
                top = win.topk(2, dim=-1).values
                d = top[..., 0] - top[..., 1]
                margin.see(d[torch.isfinite(d)])
        return F.max_pool2d(x, (kh, kw), (sh, sw), (ph, pw), (dh, dw), ceil)
    if t == "Upsample":
        return x.repeat_interleave(leaf["f"], dim=2).repeat_interleave(leaf["f"], dim=3)
    if t == "Flatten":
        return x.reshape(x.shape[0], -1)
    if t == "Reshape":
        return x.reshape(x.shape[0], *leaf["dims"])
    if t == "Tanh":
        if margin is not None:
            margin.saturate(x)
        return torch.tanh(x)
    if t == "Sigmoid":
        if margin is not None:
            margin.saturate(x / 2)
        return torch.sigmoid(x)
    if t == "ReLU":
        if margin is not None:
            margin.see(x.abs())
        return x * (x > 0).to(x.dtype)
    if t == "Sinusoidal":
        return torch.sin(x)
    if t == "Softplus":
        b = leaf["beta"]
        if margin is not None and bool(((b * x > 18) & (b * x < 38)).any()):
            margin.slack = 1e-7  # torch takes softplus for linear from 20 on
        return torch.logaddexp(b * x, torch.zeros_like(x)) / b
    if t == "TruncExp":
        if margin is not None:
            margin.see((14.0 - x.abs()) * 1.0)
        return torch.exp(x)
    if t == "L2Norm":
        n = x.reshape(x.shape[0], -1).pow(2).sum(1).sqrt()
        if margin is not None:
            margin.see(n - 0.05)
        return x / (n + leaf["eps"]).reshape(-1, *([1] * (x.dim() - 1)))
    if t == "CLin":
        return torch.sin(x @ clin_matrix(leaf, F64).T)
    if t == "CPar":
        return p["w"][0] * x + p["w"][1] * torch.roll(x, -1, dims=1) ** 2
    if t == "CSq":
        return x + 0.3 * x**2
    raise AssertionError(t)


def forward(spec, params, x, margin=None):
    t = spec["t"]
    if t == "Sequential":
        for c in spec["ch"]:
            x = forward(c, params, x, margin)
        return x
    if t == "Skip":
        y = x
        for c in spec["ch"]:
            y = forward(c, params, y, margin)
        return torch.cat([x, y], dim=1)
    return leaf_forward(spec, params.get(spec["oid"], {}), x, margin)


def flat(spec, params):
    vs = [params[l["oid"]][n].reshape(-1) for l in leaves(spec) for n, _ in param_shapes(l)]
    return torch.cat(vs) if vs else torch.zeros(0, dtype=F64)


def unflat(spec, vec):
    out, p = {}, 0
    for l in leaves(spec):
        for n, s in param_shapes(l):
            k = numel(s)
            out.setdefault(l["oid"], {})[n] = vec[p : p + k].reshape(s)
            p += k
    return out


def leaf_blocks(spec):
    """Sizes of the parametric leaves, in the order of the flat weight vector."""
    return [n for n in (n_params(l) for l in leaves(spec)) if n]


class Ref:
    """Values and Jacobians of one description at one (weights, input)."""

    def __init__(self, spec, params, x):
        self.spec, self.params = spec, params
        self.x = x.detach().to(F64).contiguous()
        self.b = x.shape[0]
        self._c = {}

    def val(self):
        if "v" not in self._c:
            self.margin = Margin()
            with torch.no_grad():
                self._c["v"] = forward(self.spec, self.params, self.x, self.margin)
        return self._c["v"]

    def decidable(self, dtype):
        """False when the evaluation is too near a kink, or too deep in saturation, to be judged."""
        v = self.val()
        return bool(torch.isfinite(v).all()) and self.margin.gap >= min_gap(dtype) and self.margin.sat <= max_sat(dtype)

    def jac(self, wrt):
        if wrt not in self._c:
            spec = self.spec
            theta = flat(spec, self.params)
            if wrt == "input":
                f = lambda xi: forward(spec, self.params, xi.unsqueeze(0)).reshape(-1)
                j = vmap(jacrev(f))(self.x)
                self._c[wrt] = j.reshape(self.b, j.shape[1], -1)
            elif theta.numel() == 0:
                self._c[wrt] = None
            else:
                f = lambda xi, th: forward(spec, unflat(spec, th), xi.unsqueeze(0)).reshape(-1)
                self._c[wrt] = vmap(jacrev(f, argnums=1), in_dims=(0, None))(self.x, theta)
        return self._c[wrt]

    def chain_abs(self, wrt):
        """Bound on the size of the terms that are summed when the Jacobian is formed layer by layer."""
        a, ws = self._chain(self.spec, self.x)
        if wrt == "input":
            return a
        return torch.cat(ws, dim=2) if ws else None

    def _chain(self, spec, x):
        t = spec["t"]
        if t in ("Sequential", "Skip"):
            xs, a, ws = x, None, []
            for c in spec["ch"]:
                ca, cw = self._chain(c, xs)
                ws = [ca @ w for w in ws] + cw
                a = ca if a is None else ca @ a
                with torch.no_grad():
                    xs = forward(c, self.params, xs)
            if t == "Skip":
                b, n = x.shape[0], x[0].numel()
                eye = torch.eye(n, dtype=F64).expand(b, n, n)
                a = eye if a is None else torch.cat([eye, a], 1)
                ws = [torch.cat([torch.zeros(b, n, w.shape[2], dtype=F64), w], 1) for w in ws]
            if a is None:
                n = x[0].numel()
                a = torch.eye(n, dtype=F64).expand(x.shape[0], n, n)
            return a, ws
        j = self._leaf_j(spec, x, "input").abs()
        if t == "L2Norm":
            n = j.shape[1]
            j = j + 2 * torch.eye(n, dtype=F64) / x.reshape(x.shape[0], -1).norm(dim=1).reshape(-1, 1, 1)
        w = self._leaf_j(spec, x, "weight")
        return j, ([] if w is None else [w.abs()])

    def n_in(self):
        return self.x[0].numel()

    def n_out(self):
        return self.val()[0].numel()

    # -- products -------------------------------------------------------------------------------

    def mask(self):
        blocks = leaf_blocks(self.spec)
        n = sum(blocks)
        m = torch.zeros(n, n, dtype=F64)
        p = 0
        for k in blocks:
            m[p : p + k, p : p + k] = 1
            p += k
        return m

    def product(self, meth, wrt, matrix=None, fd=False, td=False, db=False, absolute=False):
        """Returns a tensor, a list of leaf blocks, or None (no parameters)."""
        J = self.jac(wrt)
        if J is None:
            return None
        ab = (lambda t: None if t is None else t.abs()) if absolute else (lambda t: t)
        J = J if absolute is False else self.chain_abs(wrt) if absolute == "chain" else J.abs()
        M = None if matrix is None else ab(matrix.to(F64))
        b, no, ni = J.shape
        if meth == "jacobian":
            return J
        if meth == "jvp":
            return torch.einsum("bij,bj->bi", J, M)
        if meth == "vjp":
            return torch.einsum("bi,bij->bj", M, J)
        if meth == "jmp":
            return J if M is None else torch.einsum("bij,bjk->bik", J, M)
        if meth == "mjp":
            return J if M is None else torch.einsum("bki,bij->bkj", M, J)
        container = self.spec["t"] in ("Sequential", "Skip")
        if meth == "jmjTp":
            if M is None:
                M, fd = torch.ones(b, ni, dtype=F64), True
            if db:
                return self.diag_forward(wrt, M, absolute)
            full = torch.diag_embed(M) if fd else M
            if wrt == "weight" and container:
                full = full * self.mask()
            r = torch.einsum("bij,bjk,blk->bil", J, full, J)
            return torch.einsum("bii->bi", r) if td else r
        if meth == "jTmjp":
            if M is None:
                M, fd = torch.ones(b, no, dtype=F64), True
            if db:
                return self.diag_backward(wrt, M, absolute)
            full = torch.diag_embed(M) if fd else M
            r = torch.einsum("bji,bjk,bkl->bil", J, full, J)
            if td:
                return torch.einsum("bii->bi", r)
            if wrt == "weight" and container:
                out, p = [], 0
                for k in leaf_blocks(self.spec):
                    out.append(r[:, p : p + k, p : p + k])
                    p += k
                return out
            return r
        raise AssertionError(meth)

    # the documented approximation: after every layer only the diagonal of the metric is kept

    def _leaf_j(self, leaf, x, wrt):
        return Ref(leaf, self.params, x).jac(wrt)

    def _leaf_j2(self, leaf, x, wrt):
        j = self._leaf_j(leaf, x, wrt)
        if leaf["t"] == "L2Norm" and self._bound:
            j = j.abs() + 2 * torch.eye(j.shape[1], dtype=F64) / x.reshape(x.shape[0], -1).norm(dim=1).reshape(-1, 1, 1)
        return j**2

    def diag_backward(self, wrt, d, absolute=False):
        self._bound = absolute == "chain"
        d_in, ds = self._back(self.spec, self.x, d, wrt)
        return d_in if wrt == "input" else torch.cat(ds, dim=1)

    def _back(self, spec, x, d, wrt):
        t = spec["t"]
        if t in ("Sequential", "Skip"):
            xs = [x]
            with torch.no_grad():
                for c in spec["ch"]:
                    xs.append(forward(c, self.params, xs[-1]))
            l = x[0].numel()
            dd = d[:, l:] if t == "Skip" else d
            out = []
            for k in range(len(spec["ch"]) - 1, -1, -1):
                dd, w = self._back(spec["ch"][k], xs[k], dd, wrt)
                out = w + out
            return (dd + d[:, :l] if t == "Skip" else dd), out
        w = []
        if wrt == "weight":
            Jw = self._leaf_j(spec, x, "weight")
            if Jw is not None:
                w = [torch.einsum("bij,bi->bj", Jw**2, d)]
        return torch.einsum("bij,bi->bj", self._leaf_j2(spec, x, "input"), d), w

    def diag_forward(self, wrt, d, absolute=False):
        self._bound = absolute == "chain"
        if wrt == "input":
            return self._fwd(self.spec, self.x, d, None, [0])
        return self._fwd(self.spec, self.x, None, d, [0])

    def _fwd(self, spec, x, d, dw, p):
        """d: diagonal metric on the input (or None), dw: diagonal metric on all weights (or None)."""
        t = spec["t"]
        if t in ("Sequential", "Skip"):
            d0, xc = d, x
            for c in spec["ch"]:
                d = self._fwd(c, xc, d, dw, p)
                with torch.no_grad():
                    xc = forward(c, self.params, xc)
            if t == "Skip":
                l = x[0].numel()
                if d is None:
                    return None if d0 is None else torch.cat([d0, torch.zeros_like(d0)], 1)
                top = d0 if d0 is not None else torch.zeros(x.shape[0], l, dtype=F64)
                return torch.cat([top, d], dim=1)
            return d
        out = None
        if d is not None:
            out = torch.einsum("bij,bj->bi", self._leaf_j2(spec, x, "input"), d)
        n = n_params(spec)
        if dw is not None and n:
            r = torch.einsum("bij,bj->bi", self._leaf_j(spec, x, "weight") ** 2, dw[:, p[0] : p[0] + n])
            p[0] += n
            out = r if out is None else out + r
        return out


def flatten_blocks(r):
    if isinstance(r, (list, tuple)):
        out = []
        for k in r:
            out += flatten_blocks(k)
        return out
    return [r]


def tolerance(R, dtype):
    """1 - tanh(x)**2 loses digits as tanh saturates: the precision that is asked for follows."""
    if dtype != F64:
        return 2e-3
    R.val()
    return max(1e-10, R.margin.slack, 4e-15 * math.exp(2 * min(R.margin.sat, 20.0)))


def min_gap(dtype):
    return 1e-7 if dtype == F64 else 5e-3


def max_sat(dtype):
    return 8.0 if dtype == F64 else 3.5
