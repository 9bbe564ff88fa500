"""Layers written by a user of the library: they define only `forward` and `jacobian`, as the documentation
says is enough, so that the products of the base classes are exercised with Jacobians that are neither
square, nor symmetric, nor diagonal."""
import torch

from .rng import Rng

_classes = {}


def clin_matrix(leaf, dtype):
    # plain Python numbers: this also runs inside vmap; multiples of 1/64, exact in both precisions
    r = Rng(leaf["seed"], "A")
    n = leaf["in"] ** 0.5
    a = [[round((r.rand() * 3.4 - 1.7) / n * 64) / 64 for _ in range(leaf["in"])] for _ in range(leaf["out"])]
    return torch.tensor(a, dtype=dtype)


def classes(nnj):
    if _classes:
        return _classes

    class CLin(nnj.AbstractJacobian, torch.nn.Module):
        """y = sin(A x), A fixed and not square."""

        def __init__(self, a):
            super().__init__()
            self.register_buffer("a", a)
            self._n_params = 0

        def forward(self, x):
            return torch.sin(x @ self.a.T)

        @torch.no_grad()
        def jacobian(self, x, val=None, wrt="input"):
            if wrt == "weight":
                return None
            return torch.cos(x @ self.a.T).unsqueeze(2) * self.a.unsqueeze(0)

    class CPar(nnj.AbstractJacobian, torch.nn.Module):
        """y_i = w0_i x_i + w1_i x_{i+1}^2: square, parametric, with a non symmetric Jacobian."""

        def __init__(self, n):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(2, n))
            self._n_params = 2 * n

        def forward(self, x):
            return self.w[0] * x + self.w[1] * torch.roll(x, -1, dims=1) ** 2

        @torch.no_grad()
        def jacobian(self, x, val=None, wrt="input"):
            n = x.shape[1]
            nxt = torch.roll(x, -1, dims=1)
            eye = torch.eye(n, dtype=x.dtype)
            if wrt == "weight":
                return torch.cat([torch.diag_embed(x), torch.diag_embed(nxt**2)], dim=2)
            shift = torch.roll(eye, 1, dims=1)  # shift[i, i+1] = 1
            return (self.w[0].unsqueeze(1) * eye).unsqueeze(0) + (2 * self.w[1] * nxt).unsqueeze(2) * shift

    class CSq(nnj.AbstractDiagonalJacobian, torch.nn.Module):
        """y = x + 0.3 x^2, elementwise."""

        def __init__(self):
            super().__init__()
            self._n_params = 0

        def forward(self, x):
            return x + 0.3 * x**2

        @torch.no_grad()
        def jacobian(self, x, val=None, wrt="input", diag=False):
            if wrt == "weight":
                return None
            d = (1 + 0.6 * x).reshape(x.shape[0], -1)
            return d if diag else torch.diag_embed(d)

    for c in (CLin, CPar, CSq):
        c.__qualname__ = c.__name__
        globals()[c.__name__] = c  # importable, so that models which contain them can be pickled
        _classes[c.__name__] = c
    return _classes


def make(nnj, leaf):
    c = classes(nnj)
    if leaf["t"] == "CLin":
        return c["CLin"](clin_matrix(leaf, torch.float32))
    if leaf["t"] == "CPar":
        return c["CPar"](leaf["n"])
    return c["CSq"]()
