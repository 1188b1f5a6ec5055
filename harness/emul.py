"""In-process emulation of DataLoader workers: what torch's worker loop sets up, without forking.

Only torch's own (public) get_worker_info() is provided; all of the repository's code runs as it is.
A dataset object must only be driven by one emulated worker (like a forked copy).
"""
import contextlib

import torch
import torch.utils.data
from torch.utils.data._utils import worker as _w

from megatron.energon.rng import SystemRng

from harness import pipes

END = "END"

# What the loader's worker_init_fn does in a worker process (there are no CUDA tensors to protect here)
from megatron.energon.wrappers import gc_dataset as _gcd

_gcd._frozen_cuda_tensors_initialized = True


@contextlib.contextmanager
def as_worker(worker_id, num_workers, seed=0, dataset=None):
    """num_workers == 0: main process without workers."""
    if num_workers == 0:
        yield
        return
    old = _w._worker_info
    _w._worker_info = _w.WorkerInfo(id=worker_id, num_workers=num_workers, seed=seed, dataset=dataset)
    try:
        yield
    finally:
        _w._worker_info = old


class EmuWorker:
    """Drives one dataset instance as worker `wid`, like the loader's wrapper in a worker process does."""

    def __init__(self, ds, wcfg, wid, state=None, index=0, sysrng=None, seed=None):
        self.ds, self.wcfg, self.wid = ds, wcfg, wid
        self.index = index
        self.it = None
        if state is not None:
            ds.restore_state(state)
        with self.ctx():
            pass
        cur = SystemRng.save_state()
        if sysrng is not None:
            SystemRng.restore_state(sysrng)
        else:
            SystemRng.seed(wcfg.worker_seed(wid if wcfg.num_workers else None) if seed is None else seed)
        self.sysrng = SystemRng.save_state()
        SystemRng.restore_state(cur)

    @contextlib.contextmanager
    def ctx(self):
        with as_worker(self.wid, self.wcfg.num_workers):
            yield

    def next(self):
        pipes.Monitor.reads = 0
        cur = SystemRng.save_state()
        SystemRng.restore_state(self.sysrng)
        try:
            with self.ctx():
                self.wcfg.worker_activate(self.index)
                try:
                    if self.it is None:
                        self.it = iter(self.ds)
                    try:
                        x = next(self.it)
                    except StopIteration:
                        self.it = None
                        return END
                finally:
                    self.wcfg.worker_deactivate()
            self.index += 1
            return x
        finally:
            self.sysrng = SystemRng.save_state()
            SystemRng.restore_state(cur)

    def take(self, n):
        return [self.next() for _ in range(n)]

    def save(self):
        """(dataset state, wrapper state) at this point."""
        with self.ctx():
            return self.ds.save_state(), (self.index, self.sysrng)

    def close(self):
        if self.it is not None and hasattr(self.it, "close"):
            with self.ctx():
                self.it.close()
            self.it = None


# torch.manual_seed() also queues seeding of (here non-existing) accelerators, with a stack trace each. That is slow and
# keeps everything in memory; the CPU generator is all there is.
def _manual_seed(seed):
    return torch.default_generator.manual_seed(int(seed))


torch.manual_seed = _manual_seed
torch.random.manual_seed = _manual_seed
