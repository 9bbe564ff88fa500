"""Where the code under test comes from, and what the process looks like before a run.

The code under test is the `nnj` package of the repository's working tree (/repo, or $NNJ_REPO when a
scratch copy is to be tested).  It is imported from source: no bytecode of an older state is read.
"""
import gc
import os
import sys

REPO = os.path.realpath(os.environ.get("NNJ_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prepare_process():
    """Environment of every process of the simulator; must run before torch is imported."""
    for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["ONEDNN_PRIMITIVE_CACHE_CAPACITY"] = "2"  # torch's own cache of kernels is not to look like a leak
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/verif-no-bytecode"
    import warnings

    warnings.simplefilter("ignore")


def import_nnj():
    sys.path.insert(0, REPO)
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    import nnj

    where = os.path.realpath(nnj.__file__)
    if not where.startswith(REPO + os.sep):
        raise RuntimeError(f"nnj was imported from {where}, not from {REPO}")
    return nnj


def nnj_code_objects():
    """Every code object of the package, found through the functions that are alive after the import."""
    import types

    root = os.path.join(REPO, "nnj") + os.sep
    seen, todo = {}, []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and os.path.realpath(o.__code__.co_filename).startswith(root):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if id(c) in seen:
            continue
        seen[id(c)] = c
        todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return sorted(seen.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))


def warm_up():
    """Imports and initialises what torch does lazily, without calling any code under test."""
    import torch
    import torch.nn.functional as F
    from torch.func import jacrev, vmap

    x = torch.randn(2, 1, 4, 4, dtype=torch.float64)
    w = torch.randn(2, 1, 2, 2, dtype=torch.float64)

    def f(xi, wi):
        y = F.conv2d(xi.unsqueeze(0), wi)
        y = F.max_pool2d(y, 2, 1)
        return torch.tanh(y).reshape(-1)

    vmap(jacrev(f), in_dims=(0, None))(x, w)
    vmap(jacrev(f, argnums=1), in_dims=(0, None))(x, w)
    torch.einsum("bij,bjk,blk->bil", torch.ones(1, 2, 2), torch.ones(1, 2, 2), torch.ones(1, 2, 2))
    a = torch.ones(2, requires_grad=True)
    (a * 2).sum().backward()
    import copy
    import io
    import pickle

    m = torch.nn.Linear(2, 2)
    copy.deepcopy(m)
    pickle.loads(pickle.dumps(m))
    b = io.BytesIO()
    torch.save(m, b)
    b.seek(0)
    torch.load(b, weights_only=False)
    o = torch.optim.SGD(m.parameters(), lr=0.1)
    m(torch.ones(1, 2)).sum().backward()
    o.step()
    o.zero_grad()
    torch.set_num_threads(1)
