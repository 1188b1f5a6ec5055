"""C13: batching, grouping and packing conserve samples and respect sizes."""
import random

from harness import pipes, taps

PROPERTY = "C13"
LEVEL = "exploration"
RULE = (
    "Random pipelines with taps between all nodes: every item handed from node to node, every call of a user function "
    "with its inputs and outcome, every start and end of an iteration is logged; an offline checker replays the log of "
    "each batch, group, pack, mix, shuffle, map and iter-map node against a small state machine (conservation, order, "
    "sizes, remainders, drop_last). An evaluation is one node of one worker; it is non-trivial if it was iterated; "
    "distinct by node type, numbers of passes and case. A further part checks batches of task encoder pipelines "
    "through the real loaders against the multiset of encoded samples."
)
ASSUMPTIONS = ["user functions are the harness's; they decide by hashes of sample ids and indexes"]
TYPES = ("batch", "mix", "group", "pack", "shuffle", "map", "itermap")


def plan(tier):
    need = {"items:batch": 800, "items:group": 300, "items:pack": 300, "items:mix": 100, "items:shuffle": 300, "complete_passes:batch": 30,
            "complete_passes:group": 15, "complete_passes:pack": 15, "te_conservation": 20}
    if tier == "quick":
        return dict(n=700, shards=10, case_timeout=60, budget=150, min_evals=500, need_events=need)
    return dict(n=8000, shards=10, case_timeout=60, budget=560, min_evals=5000, need_events=need)


FOCUS = ("batch", "group", "pack")


def gen(rng, idx, tier):
    if idx % 7 == 6:
        return gen_te(rng)
    W = rng.choice([0, 1, 1, 2, 3])
    g = pipes.Gen(rng, W, rng.choice([1, 1, 2]), allow_err=rng.random() < 0.5)
    if rng.random() < 0.5:
        # finite input, so that ends are reached
        k = g.src(False)
        k.update(inf=False, rest=True)
        if rng.random() < 0.3:
            k = g.wrap(k, only=("map", "filter", "limit", "shuffle"))
        node = g.wrap(k, only=FOCUS)
        if rng.random() < 0.4:
            node = g.wrap(node, only=FOCUS + ("shuffle", "map"))
    else:
        node = g.node()
        if rng.random() < 0.6:
            node = g.wrap(node, only=FOCUS)
        if rng.random() < 0.3:
            node = g.wrap(node, only=("epoch", "limit"))
    pipes.annotate(node)
    return dict(seed=rng.randrange(1 << 30), spec=dict(datasets=g.ds, node=node, W=W, world=g.world, rank=rng.randrange(g.world), seed_offset=0))


def run_case(case, rec):
    if case.get("te"):
        run_te(case, rec)
        return
    taps.drive(case, rec, TYPES)


# ---------------------------------------------------------------- through the task encoder and the real loaders


def gen_te(rng):
    from harness import dsgen

    W, world = rng.choice([0, 0, 1, 2, 3]), rng.choice([1, 1, 2])
    G = max(W, 1) * world
    return dict(te=True, W=W, world=world, ds=dsgen.rand_ds_spec(rng, "d0", max_shards=5, max_per=12, min_total=G),
                bs=rng.choice([1, 2, 3, 5]), drop=rng.random() < 0.4, mode=rng.choice(["batch", "batch", "group", "pack", "pack"]),
                buf=rng.choice([1, 3, 5, 9]), limit=rng.choice([None, None, 3, 7]), train=rng.random() < 0.4, seed=rng.randrange(1 << 30),
                skip=rng.choice([0, 0, 10]), groups=rng.choice([1, 2, 3]), vel=rng.choice([None, 7, 12]))


def run_te(case, rec):
    import collections

    from megatron.energon import SkipSample, TaskEncoder, get_loader, get_savable_loader, get_train_dataset, get_val_dataset, stateless

    from harness import dsgen
    from harness.fp import short
    from harness.resume import close_loader, reset_globals

    reset_globals()
    if case["train"]:
        case = dict(case, skip=0)  # a looping worker whose samples are all skipped has nothing to deliver
    path, info = dsgen.make_ds(rec.tmp, case["ds"])
    allt = {k: dsgen.payload("d0", k) for _, ids in info["train"] for k in ids}
    of = {v: k for k, v in allt.items()}

    class Base(TaskEncoder):
        @stateless
        def encode_sample(self, s):
            if dsgen.val_of(s.text) % 64 < case["skip"]:
                raise SkipSample()
            return s

        @stateless
        def batch(self, samples):
            return [s.text for s in samples]

    class Group(Base):
        def batch_group_criterion(self, s):
            return dsgen.val_of(s.text) % case["groups"], None

    class Pack(Base):
        def select_samples_to_pack(self, samples):
            samples = sorted(samples, key=lambda s: dsgen.val_of(s.text))
            n = 1 + dsgen.val_of(samples[0].text) % 3
            return [samples[i : i + n] for i in range(0, len(samples), n)]

        @stateless
        def pack_selected_samples(self, samples):
            return [s.text for s in samples]

        @stateless
        def batch(self, samples):
            return samples

    te = dict(batch=Base, group=Group, pack=Pack)[case["mode"]]()
    kw = dict(packing_buffer_size=case["buf"]) if case["mode"] == "pack" else {}
    kept = {k: t for k, t in allt.items() if dsgen.val_of(t) % 64 >= case["skip"]}
    delivered = collections.Counter()
    world = case["world"]
    for rank in range(world):
        from megatron.energon import WorkerConfig

        wc = WorkerConfig(rank=rank, world_size=world, num_workers=case["W"])
        if case["train"]:
            ds = get_train_dataset(path, worker_config=wc, batch_size=case["bs"], batch_drop_last=case["drop"], task_encoder=te,
                                   shuffle_buffer_size=None, max_samples_per_sequence=None, virtual_epoch_length=case["vel"] or 9, **kw)
        else:
            ds = get_val_dataset(path, split_part="train", worker_config=wc, batch_size=case["bs"], batch_drop_last=case["drop"], task_encoder=te, limit=case["limit"], **kw)
        dl = (get_loader if case["seed"] % 2 else get_savable_loader)(ds)
        try:
            batches = []
            if case["train"]:
                if not kept:
                    return
                for b in dl:
                    batches.append(b)
                want = case["vel"] or 9
                rec.check(len(batches) == want, "te_epoch_length", f"virtual epoch of {want} gave {len(batches)} batches")
            else:
                for b in dl:
                    batches.append(b)
        finally:
            close_loader(dl)
        rec.evaluated(("te", case["mode"], case["seed"] % 997, rank))
        sizes = [len(b) for b in batches]
        small = sum(1 for s in sizes if s != case["bs"])
        nw = max(case["W"], 1)
        rec.check(all(0 < s <= case["bs"] for s in sizes), "te_size", f"batch sizes {sizes}, batch size {case['bs']}")
        per_end = nw * (case["groups"] if case["mode"] == "group" else 1)
        if case["drop"] or case["train"]:
            rec.check(small == 0, "te_drop_last", f"incomplete batches {sizes} although {'the stream is endless' if case['train'] else 'drop_last'}")
        elif case["mode"] != "pack":
            rec.check(small <= per_end, "te_incomplete", f"{small} incomplete batches, {nw} workers; {sizes}")
        flat = [t for b in batches for x in b for t in (x if case["mode"] == "pack" else [x])]
        if case["mode"] == "group":
            for b in batches:
                rec.check(len({dsgen.val_of(t) % case["groups"] for t in b}) == 1, "te_group", f"mixed groups {short(b)}")
        for t in flat:
            if rec.check(t in of and of[t] in kept, "te_unknown", f"delivered {short(t)}"):
                delivered[of[t]] += 1
    rec.ev("te_conservation")
    if not case["train"]:
        dup = {k: c for k, c in delivered.items() if c > 1}
        rec.check(not dup, "te_duplicate", f"delivered repeatedly: {dup}")
        if case["limit"] is None:
            lost = set(kept) - set(delivered)
            if not case["drop"]:
                rec.check(not lost, "te_lost", f"never delivered: {sorted(lost)}")
            else:
                # each worker drops less than one batch (of packs, per group)
                m = (case["bs"] - 1) * (3 if case["mode"] == "pack" else 1) * (case["groups"] if case["mode"] == "group" else 1)
                rec.check(len(lost) <= m * nw * world, "te_lost", f"{len(lost)} samples lost by drop_last, at most {m} per worker expected")
