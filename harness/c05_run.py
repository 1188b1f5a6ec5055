"""One run of a loader under a schedule: used in the check's process and, as a server, in another one (other hash seed)."""
import gc
import json
import os
import pickle
import random
import sys
import time

import numpy as np
import torch
import torch.utils.data

from megatron.energon import get_loader, get_savable_loader
from megatron.energon.rng import SystemRng

from harness import pipes
from harness.fp import fp
from harness.resume import END, Pipe, close_loader, reset_globals


def pauser(sched, path):
    """Slows down the user functions, differently for each worker, and notes the order of the calls of all workers."""
    state = {}

    def pause():
        info = torch.utils.data.get_worker_info()
        w = 0 if info is None else info.id
        if path is not None:
            fd = state.get("fd" + str(os.getpid()))
            if fd is None:
                fd = state["fd" + str(os.getpid())] = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, bytes([w]))
        rng = state.setdefault(w, random.Random(f"{sched['seed']}:{w}"))
        kind, ms = sched["worker"], sched["ms"]
        if kind == "slow" and w == sched["victim"]:
            time.sleep(ms / 1000)
        elif kind == "random":
            time.sleep(rng.random() * ms / 1000)
        elif kind == "burst" and rng.random() < 0.1:
            time.sleep(ms * 5 / 1000)

    return pause


def run(case, root, sched, order_path=None):
    """The tokens of the loader under the schedule; and how many states were saved."""
    reset_globals()
    pipe = Pipe.__new__(Pipe)
    pipe.spec, pipe.te, pipe.W, pipe.data = case["spec"], case["spec"].get("kind") == "te", case["spec"]["W"], case["data"]
    rng = random.Random(sched["seed"])
    pipes.PAUSE = pauser(sched, order_path)
    # without workers, the global random state is the user's
    g = case["globalseed"] if pipe.W == 0 else rng.randrange(1 << 30)
    SystemRng.seed(g)
    noise = sched["noise"] and (pipe.W > 0 or not case["free"])
    out, saves = [], 0
    ds = pipe.mk()
    ld = get_savable_loader(ds, **(sched["ck"] or {})) if case["savable"] else get_loader(ds)
    try:
        it = iter(ld)
        while len(out) < case["n"]:
            try:
                out.append(fp(next(it)))
            except StopIteration:
                out.append(END)
                it = iter(ld)
            if noise and rng.random() < 0.5:
                random.random(), np.random.rand(), torch.rand(3)
            if sched["consumer"] and rng.random() < 0.3:
                time.sleep(rng.random() * sched["consumer"] / 1000)
            if case["savable"] and rng.random() < sched["save"] and END not in out:
                ld.save_state_rank()
                saves += 1
    finally:
        close_loader(ld)
        pipes.PAUSE = None
        reset_globals()
    return out, saves


def main():
    reply = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = run(req["case"], req["root"], req["sched"], req["order"])
        except BaseException as e:  # reported to the check
            res = ("error", f"{type(e).__name__}: {e}"[:2000])
        with open(req["out"], "wb") as f:
            pickle.dump(res, f)
        reply.write("done\n")
        reply.flush()


if __name__ == "__main__":
    main()
