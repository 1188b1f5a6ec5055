"""Shared by the checks on streams, saving and resuming: pipelines (both kinds) and their drivers."""
import gc
import io
import pickle

import torch

from megatron.energon import WorkerConfig, get_loader, get_savable_loader

from harness import emul, pipes, tes
from harness.core import HarnessError
from harness.fp import first_diff, fp, short

END = pipes.END


def reset_globals():
    """A case that was aborted in the middle must not influence the next one."""
    WorkerConfig._sample_index_stack = None
    WorkerConfig.active_worker_config = None
    WorkerConfig._worker_override_global_rank = None
    WorkerConfig.worker_id_offset = 0
    pipes.Monitor.reads = 0


class Pipe:
    """A built-on-demand pipeline of a spec, with its data on disk."""

    def __init__(self, spec, root):
        self.spec = spec
        self.te = spec.get("kind") == "te"
        self.data = tes.make_te_data(spec, root) if self.te else pipes.make_data(spec, root)
        self.W = spec["W"]
        self.nw = max(self.W, 1)

    def wcfg(self, **kw):
        return pipes.wcfg_of(self.spec, **kw)

    def mk(self, wcfg=None, probes=None):
        wcfg = wcfg or self.wcfg()
        if self.te:
            return tes.build_te(self.spec, self.data, wcfg, probes)
        return pipes.build(self.spec["node"], self.data, wcfg, probes=[] if probes is None else probes)

    def shape(self):
        return tes.shape_of(self.spec) if self.te else pipes.shape_of(self.spec["node"])

    def loader(self, ck=None, wcfg=None):
        return get_savable_loader(self.mk(wcfg), **(ck or {}))

    def basic_loader(self, wcfg=None):
        return get_loader(self.mk(wcfg))


def gen_any(rng, W=None, te_share=0.4, **kw):
    if rng.random() < te_share:
        return tes.gen_te(rng, W=W, allow_err=kw.get("allow_err", True), restorable=not kw.get("allow_free", True))
    return pipes.gen_pipe(rng, W=W, **kw)


def emu_streams(pipe, n, sig=fp):
    """Reference: per worker the first n tokens, and at which positions a buffering wrapper is in its tail."""
    w = pipe.wcfg()
    streams, tails, raw = [], [], []
    for k in range(pipe.nw):
        pr = []
        e = emul.EmuWorker(pipe.mk(w, pr), w, k)
        s, t = [], []
        for _ in range(n):
            x = e.next()
            s.append(sig(x))
            t.append(pipes.in_tail(pr))
        streams.append(s)
        tails.append(t)
    return streams, tails


def roundtrip(state, how):
    if how == "pickle":
        return pickle.loads(pickle.dumps(state))
    if how == "torch":
        b = io.BytesIO()
        torch.save(state, b)
        b.seek(0)
        return torch.load(b, weights_only=False)
    return state


def close_loader(loader):
    """Ends the worker processes of a loader (without waiting for the garbage collector)."""
    it = getattr(loader, "_persistent_iterator", None)
    if it is not None:
        loader._persistent_iterator = None
    inner = getattr(loader, "_iterator", None)
    if inner is not None:
        try:
            inner._shutdown_workers()
        except Exception:
            pass
        loader._iterator = None


def merged_order(streams, n, W, start=None, first=0, rot=0):
    """Order in which torch's loader delivers the worker streams: round robin over the workers that did not end the
    pass yet; a pass ends when all did. `start`: position per worker, `first`: the worker to come first,
    `rot`: worker that comes first in the passes after this one. Yields (token, worker or None)."""
    pos = list(start or [0] * W)
    out = []
    order = [(first + j) % W for j in range(W)]
    active = list(order)
    i = 0
    while len(out) < n:
        if not active:
            out.append((END, None))
            order = [(rot + j) % W for j in range(W)]
            active = list(order)
            i = 0
            continue
        k = active[i % len(active)]
        if pos[k] >= len(streams[k]):
            return out
        tok = streams[k][pos[k]]
        pos[k] += 1
        if tok == END:
            j = active.index(k)
            active.remove(k)
            i = j % len(active) if active else 0
            continue
        out.append((tok, k))
        i = active.index(k) + 1
    return out


__all__ = ["Pipe", "gen_any", "emu_streams", "roundtrip", "close_loader", "merged_order", "END", "HarnessError",
           "first_diff", "fp", "short", "reset_globals", "gc"]
