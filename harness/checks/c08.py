"""C08: one bad sample affects only itself."""
import os

from harness import pipes, taps
from harness.fp import short

PROPERTY = "C08"
LEVEL = "exploration"
RULE = (
    "Faults are injected into every kind of user function of random pipelines (ordinary exceptions, SkipSample, system "
    "errors), decided by hashes of the sample. (1) Tapped pipelines: an offline checker replays the log of each node; "
    "every failed call must be followed by exactly one call of the error handler with the failed input, nothing else "
    "may be missing, and after a system error nothing but a FatalSampleError may follow. (2) Real loaders with 0 to 3 "
    "workers, cookers, broken files, sample loaders, encode, batch and encode_batch failing: every worker's stream is "
    "compared with the model computed from its fault-free stream (content and restore keys), also when resumed. An "
    "evaluation is one node of one worker, or one loader; distinct by node type, passes and case."
)
ASSUMPTIONS = [
    "the packing dataset's documented limit of ten buffers without a pack is not an error",
    "filters are not among the guarded functions: an exception in a filter stops the iteration",
]
TYPES = ("map", "itermap", "batch", "mix", "group", "pack", "epoch", "filter", "shuffle")
FATALS = sorted(pipes.FATAL)


def plan(tier):
    need = {"handled:map": 80, "handled:batch": 40, "handled:group": 20, "handled:pack": 40, "handled:itermap": 10, "fatal_stopped": 60,
            "loader_faults": 100, "loader_fatal": 5, "loader_handler": 15, "loader_resumed": 8}
    if tier == "quick":
        return dict(n=320, shards=10, case_timeout=60, budget=150, min_evals=300, need_events=need)
    return dict(n=7000, shards=10, case_timeout=60, budget=560, min_evals=5000, need_events=need)


def gen(rng, idx, tier):
    if idx % 4 == 3:
        return gen_loader(rng)
    W = rng.choice([0, 1, 1, 2, 3])
    g = pipes.Gen(rng, W, rng.choice([1, 1, 2]))
    node = g.node()
    node = g.wrap(node, only=rng.choice([("map",), ("batch",), ("group",), ("pack",), ("itermap", "map")]))
    if rng.random() < 0.4:
        node = g.wrap(node, only=("map", "batch", "pack", "group"))
    fatal = rng.random() < 0.35
    behs = []
    for n in pipes.walk(node):
        if "beh" in n and n["t"] != "filter":
            b = n["beh"]
            if rng.random() < 0.7:
                b["err"] = rng.choice([4, 8, 16])
            if n["t"] in ("map", "batch", "group", "pack"):
                behs.append(b)
            if n["t"] == "pack" and rng.random() < 0.5:
                b["preerr"] = rng.choice([4, 10])
            if b.get("gen") and rng.random() < 0.5:
                b["generr"] = 3
            if n["t"] == "group" and rng.random() < 0.6:
                n["gk"]["err"] = 8
    if fatal and behs:
        rng.choice(behs).update(fatal=rng.choice([3, 8]), fatal_type=rng.choice(FATALS))
    pipes.annotate(node)
    return dict(seed=rng.randrange(1 << 30), spec=dict(datasets=g.ds, node=node, W=W, world=g.world, rank=rng.randrange(g.world), seed_offset=0))


def run_case(case, rec):
    if case.get("loader"):
        run_loader(case, rec)
        return
    from megatron.energon.errors import FatalSampleError

    node, res = taps.drive(case, rec, TYPES, fatal_ok=True)
    of = {s: n["t"] for n in pipes.walk(node) for s in taps.sids(n)}
    has_fatal = [n["beh"] for n in pipes.walk(node) if n.get("beh", {}).get("fatal")]
    for wid, r in enumerate(res):
        for ev in r["log"]:
            if ev[0] == "handler":
                rec.ev("handled:" + of[ev[1]])
        at = [i for i, ev in enumerate(r["log"]) if ev[0] == "fatal"]
        if at:
            rec.evaluated(("fatal", has_fatal[0]["fatal_type"], of[r["log"][at[0]][1]], case["seed"] % 97))
            rec.ev("fatal_stopped")
            rec.ev("fatal:" + has_fatal[0]["fatal_type"])
            rest = r["log"][at[0] + 1 :]
            rec.check(r["fatal"] is not None, "fatal_swallowed",
                      lambda: f"worker {wid}: {has_fatal[0]['fatal_type']} in a {of[r['log'][at[0]][1]]} function did not stop the iteration; then: {short(rest, 300)}")
            rec.check(not rest, "fatal_continued", lambda: f"worker {wid}: after {has_fatal[0]['fatal_type']} went on with {short(rest, 300)}")
            if r["fatal"] is not None:
                e, seen = r["fatal"], []
                while e is not None and len(seen) < 10:
                    seen.append(e)
                    e = e.__cause__ or e.__context__
                rec.check(any(type(x) is pipes.FATAL[has_fatal[0]["fatal_type"]] for x in seen), "fatal_origin",
                          lambda: f"the cause of {r['fatal']!r} is lost: {[repr(x) for x in seen]}")
        else:
            rec.check(r["fatal"] is None, "fatal_spurious", lambda: f"worker {wid}: {r['fatal']!r} without a system error; log ends {short(r['log'][-6:], 400)}")


# ---------------------------------------------------------------- real loaders


def gen_loader(rng):
    from harness import dsgen

    W = rng.choice([0, 1, 1, 2, 3])
    crude = rng.random() < 0.5
    ds = dsgen.rand_ds_spec(rng, "d0", max_per=12, min_total=4 * max(W, 1) + 4, kind="crude" if crude else "text")
    total = sum(ds["shards"])
    if crude and rng.random() < 0.6:
        ds["bad"] = sorted(rng.sample(range(total), min(total, rng.choice([1, 1, 2, 4]))))
    c = dict(loader=True, W=W, ds=ds, train=rng.random() < 0.4, bs=rng.choice([None, 1, 2, 3]), drop=rng.random() < 0.3, sb=rng.choice([None, None, 4]),
             cook=rng.choice([0, 8]) if crude else 0, enc=rng.choice([0, 8, 16]), skip=rng.choice([0, 8]), batch=rng.choice([0, 12]), eb=rng.choice([0, 12]),
             genenc=rng.random() < 0.25, seed=rng.randrange(1 << 30), resume=rng.random() < 0.35, sl=0 if crude else rng.choice([0, 10]))
    if c["sl"]:
        c["sb"] = None  # these samples never reach the shuffle buffer, which then shuffles differently
    if rng.random() < 0.2:
        c["fatal"] = rng.choice(["enc", "batch", "eb"] if c["bs"] else ["enc"])
        c["fatal_type"] = rng.choice(FATALS)
        c["resume"] = False
    return c


def bad(salt, texts, n):
    return bool(n) and pipes.hsh(salt, *texts) % 64 < n


def run_loader(case, rec):
    import json

    from megatron.energon import (
        Cooker, CrudeSample, SkipSample, StandardWebdatasetFactory, TaskEncoder, TextSample, WorkerConfig, basic_sample_keys, get_savable_loader,
        get_train_dataset, get_val_dataset, stateless,
    )
    from megatron.energon.errors import FatalSampleError

    from harness import dsgen
    from harness.resume import close_loader, reset_globals

    reset_globals()
    c = case
    path, info = dsgen.make_ds(rec.tmp, c["ds"])
    logp = os.path.join(rec.tmp, "handler.log")

    def handler(e, key):
        with open(logp, "a") as f:
            f.write(json.dumps([type(e).__name__, key, WorkerConfig.active_worker_config.rank_worker_id()]) + "\n")

    if c["sl"]:
        with open(os.path.join(path, ".nv-meta", "loader.py"), "w") as f:
            f.write("import os\nfrom harness import pipes\ndef sample_loader(raw):\n    t = raw['txt']\n    t = t.decode() if isinstance(t, bytes) else t\n"
                    "    if os.environ.get('VERIF_FAULTS') == '1' and pipes.hsh('sl', t) %% 64 < %d:\n        raise ValueError('injected loader')\n    return dict(text=t)\ndef part_filter(p):\n    return p == 'txt'\n" % c["sl"])
        with open(os.path.join(path, ".nv-meta", "dataset.yaml"), "w") as f:
            f.write("sample_type:\n  __module__: megatron.energon\n  __class__: TextSample\nsample_loader: loader.py:sample_loader\npart_filter: loader.py:part_filter\n")

    def make_te(on, bs):
        def n(k):
            return c[k] if on else 0

        def core(self, s):
            w = WorkerConfig.active_worker_config.rank_worker_id()
            if bad("skip", [s.text], n("skip")):
                raise SkipSample()
            if bad("enc", [s.text], n("enc")):
                raise ValueError("injected encode")
            if on and c.get("fatal") == "enc" and bad("fatal", [s.text], 6):
                raise pipes.FATAL[c["fatal_type"]]("injected")
            return TextSample(__key__=s.__key__, __restore_key__=s.__restore_key__, __subflavor__=s.__subflavor__, __subflavors__={"w": w}, text=s.text)

        class Te(TaskEncoder):
            pass

        class BTe(TaskEncoder):
            @stateless
            def batch(self, ss):
                t = [s.text for s in ss]
                if bad("batch", t, n("batch")):
                    raise ValueError("injected batch")
                if on and c.get("fatal") == "batch" and bad("fatal", t, 6):
                    raise pipes.FATAL[c["fatal_type"]]("injected")
                return dict(t=t, w=ss[0].__subflavors__["w"], rk=[s.__restore_key__ for s in ss], __key__=",".join(s.__key__ for s in ss), __restore_key__=())

            @stateless
            def encode_batch(self, b):
                if bad("eb", b["t"], n("eb")):
                    raise ValueError("injected encode_batch")
                if on and c.get("fatal") == "eb" and bad("fatal", b["t"], 6):
                    raise pipes.FATAL[c["fatal_type"]]("injected")
                return b

        if bs is not None:
            Te = BTe
        if c["genenc"]:
            # a generator which may fail after its first output
            def enc(self, s):
                yield core(self, s)
                if on and bad("late", [s.text], 16):
                    raise ValueError("injected after yield")

            Te.encode_sample = stateless(enc)
        else:
            Te.encode_sample = stateless(core)
        if c["ds"]["kind"] == "crude":
            @stateless
            def cook(s: CrudeSample):
                if bad("cook", [s["txt"]], n("cook")):
                    raise ValueError("injected cook")
                return TextSample(**basic_sample_keys(s), text=s["txt"])

            Te.cookers = [Cooker(cook)]
        return Te()

    def mk(on, bs):
        os.environ["VERIF_FAULTS"] = "1" if on else "0"
        wc = WorkerConfig(rank=0, world_size=1, num_workers=c["W"], seed_offset=c["seed"] % 5)
        kw = dict(worker_config=wc, batch_size=bs, batch_drop_last=c["drop"], task_encoder=make_te(on, bs), handler=handler)
        if c["train"]:
            ds = get_train_dataset(path, shuffle_buffer_size=c["sb"], max_samples_per_sequence=None, virtual_epoch_length=0, **kw)
        else:
            ds = get_val_dataset(path, split_part="train", **kw)
        return get_savable_loader(ds)

    def plain(x):
        return (x["w"], tuple(x["t"]), tuple(map(_tup, x["rk"])), _tup(x["__restore_key__"])) if c["bs"] else (x.__subflavors__["w"], x.text, _tup(x.__restore_key__))

    # Fault-free sample streams of the workers. Broken files are always broken; they must only miss.
    W = max(c["W"], 1)
    total = sum(c["ds"]["shards"])
    clean = [[] for _ in range(W)]
    dl = mk(False, None)
    try:
        it = iter(dl)
        for _ in range(total * 4 if c["train"] else total * 2):
            x = next(it, None)
            if x is None:
                break
            clean[x.__subflavors__["w"]].append(x)
    finally:
        close_loader(dl)
    rec.arm()
    bad_ids = set(c["ds"].get("bad", ()))
    text = {i: dsgen.payload("d0", i) for i in range(total)}
    if not c["train"]:
        got = sorted(x.text for s in clean for x in s)
        rec.check(got == sorted(t for i, t in text.items() if i not in bad_ids), "broken_file",
                  lambda: f"broken files {sorted(bad_ids)}: delivered {short(sorted(x.split(':')[1] for x in got))} of {total}")
        if bad_ids:
            calls = sorted(k for _, k, _ in map(json.loads, open(logp))) if os.path.exists(logp) else []
            rec.ev("loader_handler")
            rec.check([k.split("/")[-1] if k else k for k in calls] == [dsgen.key_of("d0", i) for i in sorted(bad_ids)], "handler_key",
                      lambda: f"broken samples {sorted(bad_ids)}: the handler was called for {calls}")
    if os.path.exists(logp):
        os.unlink(logp)

    def ok(t):
        return not (bad("sl", [t], c["sl"]) or bad("cook", [t], c["cook"]) or bad("skip", [t], c["skip"]) or bad("enc", [t], c["enc"]))

    # Model: what is left of each worker's stream
    complete = not c["train"]
    want, cut = [], []
    for w in range(W):
        s = [x for x in clean[w] if ok(x.text)]
        if c["bs"] is None:
            want.append([x.text for x in s])
            continue
        b = [[x.text for x in s[i : i + c["bs"]]] for i in range(0, len(s), c["bs"])]
        if b and len(b[-1]) < c["bs"] and (c["drop"] or not complete):
            b.pop()
        want.append([tuple(t) for t in b if not bad("batch", t, c["batch"]) and not bad("eb", t, c["eb"])])
    if c["train"] and any(len(w) < 3 for w in want):
        return  # hardly anything is left: the loop would not end
    keys = {x.text: x.__restore_key__ for s in clean for x in s}
    fatal_at = [w for w in range(W)]

    def is_fatal(t):
        return bad("fatal", [t] if isinstance(t, str) else t, 6)

    n_take = min(len(w) for w in want) * W if c["train"] else 10**6
    dl = mk(True, c["bs"])
    out, err = [], None
    try:
        it = iter(dl)
        k = 0
        # (no worker may be at its end, see the known finding resume-uneven-end of C03)
        stop_at = c["seed"] // 7 % 6 if c["resume"] else None
        if stop_at is not None and stop_at > W * (min(map(len, want)) - 1):
            stop_at = None
        while len(out) < n_take:
            if stop_at is not None and len(out) == stop_at:
                st = dl.save_state_rank()
                close_loader(dl)
                dl = mk(True, c["bs"])
                dl.restore_state_rank(st)
                it = iter(dl)
                stop_at = None
                rec.ev("loader_resumed")
            x = next(it, None)
            if x is None:
                break
            out.append(plain(x))
    except FatalSampleError as e:
        err = e
    finally:
        close_loader(dl)
    rec.evaluated(("loader", c["seed"] % 997, W))
    rec.ev("loader_faults", sum(1 for s in clean for x in s if not ok(x.text)))
    per = [[] for _ in range(W)]
    for x in out:
        per[x[0]].append(x)
    if c.get("fatal"):
        hit = [[i for i, t in enumerate(w if c["bs"] is None or c["fatal"] == "eb" else [()]) if t and is_fatal(t)] for w in want]
        if err is not None:
            rec.ev("loader_fatal")
            for w in range(W):
                rec.check([x[1] for x in per[w]] == want[w][: len(per[w])], "fatal_before", lambda: f"items before the fatal error differ from the fault-free ones, worker {w}")
        else:
            # no system error was due in what was read
            left = [t for w in range(W) for t in (x[1] for x in per[w])]
            due = [t for t in left if is_fatal(t)] if c["fatal"] in ("eb", "batch") or c["bs"] is None else [t for b in left for t in b if is_fatal(t)]
            rec.check(not due, "fatal_swallowed", lambda: f"{c['fatal_type']} in {c['fatal']} for {short(due)}, but the loader delivered these")
            if not c["train"]:
                for w in range(W):
                    rec.check([x[1] for x in per[w]] == want[w], "fatal_swallowed", lambda: f"worker {w}: delivered {short([x[1] for x in per[w]])} of {short(want[w])} and no error although a system error was injected ({hit[w]})")
        return
    if err is not None:
        rec.violation("spurious_fatal", f"{err!r} in {c}")
        return
    for w in range(W):
        got = [x[1] for x in per[w]]
        exp = want[w][: len(got)] if c["train"] else want[w]
        rec.check(got == exp, "loader_stream", lambda: f"worker {w}: delivered {short(_ids(got), 300)}; the fault-free stream without the failing ones is {short(_ids(exp), 300)}; {({k: v for k, v in c.items() if k != 'ds'})}")
        if not c["train"] and not c["genenc"]:
            for x in per[w]:
                ks = x[2] if c["bs"] else (x[2],)
                ts = x[1] if c["bs"] else (x[1],)
                rec.check(all(_src(k_) == _src(_tup(keys[t])) for k_, t in zip(ks, ts)), "loader_key", lambda: f"restore key {ks} of {_ids(ts)}; fault-free {[keys[t] for t in ts]}")
    if c["sl"] and not c["train"] and not c["resume"]:
        calls = sorted(k for _, k, _ in map(json.loads, open(logp))) if os.path.exists(logp) else []
        exp = sorted(dsgen.key_of("d0", i) for i, t in text.items() if bad("sl", [t], c["sl"]))
        rec.ev("loader_handler")
        rec.check([k.split("/")[-1] if k else k for k in calls] == exp, "handler_key", lambda: f"failing samples {exp}: the handler was called for {calls}")


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def _src(k):
    """Source part of a restore key."""
    return k[k.index("Webdataset") :]


def _ids(ts):
    return [_ids(t) if isinstance(t, (tuple, list)) else t.split(":")[1] for t in ts]
