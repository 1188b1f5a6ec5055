"""C14: virtual epochs, limits, repetition and concatenation have the stated lengths."""
import random

from harness import pipes, taps
from harness.fp import short

PROPERTY = "C14"
LEVEL = "exploration"
RULE = (
    "Random nestings of virtual epochs, limits, repetitions, concatenations and filters with other wrappers, with taps "
    "between all nodes; an offline checker replays the logged items, starts and ends of each such node (exact counts per "
    "pass and worker, completeness, order, continuation across passes), several passes each. len() of nodes whose "
    "length the configuration determines is compared with the items all workers together yielded in a pass, also for "
    "real loaders. An evaluation is one node of one worker or one length; distinct by node type, passes and case."
)
ASSUMPTIONS = [
    "len() is compared where every worker's share exists (a limit larger than a worker's part, or batches over unevenly "
    "long workers, are estimates)",
]
TYPES = ("epoch", "limit", "repeat", "concat", "filter", "gc")


def plan(tier):
    need = {"complete_passes:epoch": 150, "complete_passes:limit": 100, "complete_passes:repeat": 40, "complete_passes:concat": 40,
            "items:filter": 300, "len_checked": 150, "limit_pass_again": 30, "loader_len": 20}
    if tier == "quick":
        return dict(n=700, shards=10, case_timeout=60, budget=150, min_evals=500, need_events=need)
    return dict(n=8000, shards=10, case_timeout=60, budget=560, min_evals=5000, need_events=need)


FOCUS = ("epoch", "limit", "limit", "repeat", "filter")


def calm(b):
    """No skips, errors or generators: the length is determined."""
    b.update(skip=0, err=0)
    b.pop("gen", None)
    b.pop("generr", None)


def gen(rng, idx, tier):
    if idx % 7 == 6:
        return gen_loader(rng)
    W = rng.choice([0, 1, 1, 2, 3, 4])
    g = pipes.Gen(rng, W, rng.choice([1, 1, 2]), allow_err=False)
    x = rng.random()
    if x < 0.3:
        kids = []
        for _ in range(rng.randint(2, 4)):
            k = g.src(False)
            k.update(inf=False, rest=True)
            if rng.random() < 0.4:
                k = g.wrap(k, only=("limit", "epoch", "map", "filter", "batch"))
            kids.append(k)
        node = dict(t="concat", kids=kids, inf=False, rest=all(k["rest"] for k in kids))
    elif x < 0.6:
        node = g.src(False)
        node.update(inf=False, rest=True)
    else:
        node = g.node()
    for _ in range(rng.choice([1, 2, 2, 3])):
        node = g.wrap(node, only=FOCUS if rng.random() < 0.7 else ("batch", "map", "shuffle", "gc"))
    pipes.annotate(node)
    if rng.random() < 0.6:
        for n in pipes.walk(node):
            if n["t"] in ("map", "batch", "group", "pack"):
                calm(n["beh"])
    return dict(seed=rng.randrange(1 << 30), spec=dict(datasets=g.ds, node=node, W=W, world=g.world, rank=rng.randrange(g.world), seed_offset=0))


def steady(n, datasets):
    """The number of items of a pass is determined by the configuration."""
    t = n["t"]
    if t == "src":
        return not n["training"] and not datasets[n["ds"]].get("exclude")
    if t in ("map", "batch"):
        b = n["beh"]
        return not b.get("skip") and not b.get("err") and not b.get("gen") and steady(n["kid"], datasets)
    if t == "epoch":
        return True
    if t == "repeat":
        return n["n"] is not None and steady(n["kid"], datasets)
    if t == "concat":
        return all(steady(k, datasets) for k in n["kids"])
    if t in ("limit", "shuffle", "gc", "log"):
        return steady(n["kid"], datasets)
    return False


def run_case(case, rec):
    if case.get("loader"):
        run_loader(case, rec)
        return
    node, res = taps.drive(case, rec, TYPES, n=120)
    W = max(case["spec"]["W"], 1)
    if any(r["spin"] for r in res):
        return
    count = {}
    for n in pipes.walk(node):
        c = []
        for r in res:
            done = [len(p) for p, ended in r["passes"].get(n["id"], []) if ended]
            c.append(done[0] if done else None)
        count[n["id"]] = c if None not in c else None

    def exact(n):
        """Shares of the workers are as the length formulas assume."""
        t = n["t"]
        if t == "limit":
            c = count[n["id"]]
            total = None if count[n["kid"]["id"]] is None else sum(count[n["kid"]["id"]])
            full = all(x == taps.share(n["n"], W, w) for w, x in enumerate(c))
            if not full and (total is None or total > n["n"]):
                return False
        if t == "batch":
            c = count[n["kid"]["id"]]
            if c is None or max(c) - min(c) > 1:
                return False
        return t == "epoch" or all(count[k["id"]] is not None and exact(k) for k in taps.kids(n))

    for n in pipes.walk(node):
        # A limit stops its input early, the input's pass is not complete then: only the limit's own length counts
        if n["t"] != "src" and count[n["id"]] is not None and steady(n, case["spec"]["datasets"]):
            if n["t"] == "limit" and count[n["kid"]["id"]] is None:
                # the input is longer than the limit everywhere
                ok = all(x == taps.share(n["n"], W, w) for w, x in enumerate(count[n["id"]])) and n["kid"]["t"] == "src"
            else:
                ok = exact(n)
            if not ok:
                continue
            rec.ev("len_checked")
            rec.ev("len:" + n["t"])
            rec.evaluated(("len", n["t"], case["seed"] % 97, W))
            ln = len(res[0]["taps"][n["id"]])
            rec.check(ln == sum(count[n["id"]]), f"len:{n['t']}",
                      lambda: f"len() of {short({k: v for k, v in n.items() if k not in ('kid', 'kids')})} is {ln}, its workers yielded {count[n['id']]}")


# ---------------------------------------------------------------- real loaders


def gen_loader(rng):
    from harness import dsgen

    W, world = rng.choice([0, 1, 2, 3]), rng.choice([1, 1, 2])
    return dict(loader=True, W=W, world=world, ds=dsgen.rand_ds_spec(rng, "d0", max_per=12, min_total=max(W, 1) * world), bs=rng.choice([None, 1, 2, 3, 4]),
                drop=rng.random() < 0.4, limit=rng.choice([None, None, 1, 2, 3, 5]), train=rng.random() < 0.4, vel=rng.choice([0, 1, 2, 5, 9, 11]),
                seed=rng.randrange(1 << 30))


def run_loader(case, rec):
    from megatron.energon import TaskEncoder, WorkerConfig, get_loader, get_savable_loader, get_train_dataset, get_val_dataset, stateless

    from harness import dsgen
    from harness.resume import close_loader, reset_globals

    reset_globals()
    path, info = dsgen.make_ds(rec.tmp, case["ds"])

    class Te(TaskEncoder):
        @stateless
        def batch(self, samples):
            return [s.text for s in samples]

    te = Te() if case["bs"] else TaskEncoder()
    ids = [k for _, x in info["train"] for k in x]
    text = {dsgen.payload("d0", k): k for k in ids}
    W = max(case["W"], 1)
    passes = {}
    for rank in range(case["world"]):
        wc = WorkerConfig(rank=rank, world_size=case["world"], num_workers=case["W"])
        if case["train"]:
            ds = get_train_dataset(path, worker_config=wc, batch_size=case["bs"], batch_drop_last=case["drop"], task_encoder=te, shuffle_buffer_size=None,
                                   max_samples_per_sequence=None, virtual_epoch_length=case["vel"])
        else:
            ds = get_val_dataset(path, split_part="train", worker_config=wc, batch_size=case["bs"], batch_drop_last=case["drop"], task_encoder=te,
                                 limit=case["limit"])
        dl = (get_loader if case["seed"] % 2 else get_savable_loader)(ds)
        try:
            lens = []
            if case["train"] and not case["vel"]:
                it = iter(dl)
                got = [next(it) for _ in range(len(ids) * 2 // max(case["bs"] or 1, 1) + 4)]
                rec.evaluated(("endless", case["bs"], rank))
                rec.ev("endless_loader")
                continue
            n_pass = 1 + case["seed"] // 2 % 3
            allp = []
            for _ in range(n_pass):
                got = [x for x in dl]
                lens.append(len(got))
                allp.append([text[t] for b in got for t in (b if case["bs"] else [b.text])])
            passes[rank] = allp
        finally:
            close_loader(dl)
        rec.evaluated(("loader", case["seed"] % 997, rank))
        rec.ev("loader_len")
        if case["train"]:
            rec.check(all(n == case["vel"] for n in lens), "loader:epoch_length", f"virtual_epoch_length={case['vel']}, passes of {lens}")
            rec.check(len(dl) == case["vel"], "loader:len_epoch", f"len(loader)={len(dl)}, virtual epoch {case['vel']}")
            # The passes continue: over all of them, samples are used evenly (each worker loops over its own part)
            if case["world"] == 1 and case["W"] <= 1:
                cnt = [sum(p.count(k) for p in allp) for k in ids]
                rec.check(max(cnt) - min(cnt) <= 1, "loader:continuation", f"over {n_pass} passes, samples were used {cnt} times")
        else:
            rec.check(all(p == allp[0] for p in allp), "loader:val_repeat", f"passes over validation data differ: {short(allp, 300)}")
            per = [sorted(allp[0])]
            n_rank = sum(map(len, per))
            if case["limit"] is None:
                if not case["drop"] or not case["bs"]:
                    rec.check(len(dl) == lens[0], "loader:len", f"len(loader)={len(dl)}, yielded {lens[0]} of {case}")
            else:
                # the limit counts batches, for this rank
                rec.check(lens[0] <= case["limit"], "loader:limit", f"limit={case['limit']} but {lens[0]} yielded")
                if n_rank and lens[0] < case["limit"] and case["W"] <= 1 and not case["drop"]:
                    share = [len(ids) // case["world"] + (1 if r < len(ids) % case["world"] else 0) for r in range(case["world"])]
                    rec.check(n_rank in share, "loader:limit_short", f"limit={case['limit']}: {lens[0]} items with {n_rank} of {share} samples")
    if not case["train"] and case["limit"] is None and not (case["drop"] and case["bs"]) and len(passes) == case["world"]:
        flat = sorted(k for p in passes.values() for k in p[0])
        rec.check(flat == sorted(ids), "loader:val_all", f"a validation pass over all ranks gave {short(flat)}")
