"""Helpers to drive the shared training support (ngc_shared) in the current scratch directory."""
import sys
import types
from . import dutil as du


def load():
    global shared, torch, np
    du.load()
    import numpy as np
    import torch
    try:
        import sklearn.manifold  # noqa
    except ImportError:          # only plots need it
        m = types.ModuleType("sklearn.manifold")
        m.TSNE = None
        sys.modules.setdefault("sklearn", types.ModuleType("sklearn")).manifold = m
        sys.modules["sklearn.manifold"] = m
    import ngc_shared as shared
    fresh("warm")                # what an optimizer step pulls in lazily
    import torch.optim.adam  # noqa


class Corpus:
    """stands for a dataset of n graphs"""
    num_classes = 3

    def __init__(self, items=(0,)):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def shuffle(self):
        return Corpus([self.items[i] for i in torch.randperm(len(self.items)).tolist()])


def network(seed, steps=1):
    """a small network and its optimizer after a few steps of training, different for each seed"""
    m = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.Linear(2, 1))
    with torch.no_grad():
        for i, p in enumerate(m.parameters()):
            p.copy_((torch.arange(p.numel(), dtype=torch.float).reshape(p.shape) + seed) / (7 + i))
    o = torch.optim.Adam(m.parameters(), lr=0.01)
    for k in range(steps):
        o.zero_grad()
        m(torch.tensor([[1.0, seed + k]])).sum().backward()
        o.step()
    return m, o


def fresh(model_type="", seed=0, **kw):
    e = shared.Experiments(Corpus(), epochs=5, batch_size=1, model_type=model_type, **kw)
    e.model, e.optimizer = network(seed, steps=0)
    return e


def plain(v):
    """nested containers of tensors as plain values"""
    if hasattr(v, "tolist"):
        return (str(v.dtype), tuple(v.shape), v.tolist())
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v
