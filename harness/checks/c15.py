"""C15: joined datasets pair samples by key and never mismatch silently."""
import collections
import os
import random

import yaml

from megatron.energon import Cooker, TaskEncoder, WorkerConfig, get_savable_loader, get_train_dataset, get_val_dataset, stateless

from megatron.energon.errors import FatalSampleError

from harness import dsgen, emul
from harness.core import HarnessError
from harness.fp import short
from harness.resume import close_loader, reset_globals, roundtrip

PROPERTY = "C15"
LEVEL = "exploration"
RULE = (
    "Random joins of 2-3 datasets (as list with the default joiner, list or dictionary with a joiner function) with equal "
    "structure: every delivered sample is compared field by field with the stored content of the primary's key, over "
    "validation passes and training epochs of all workers of all ranks (exactly once), after save/resume and through "
    "restore_sample of the loader. Then one component is broken (renamed, swapped, shifted, missing or additional samples, "
    "other order or number of shards, other excludes; at any position): with the default handler an error must be raised, "
    "with a handler that skips no pair may be wrong and what is missing must have been reported. An evaluation is "
    "one delivery log; distinct by structure, defect and configuration."
)
ASSUMPTIONS = ["the index and the metadata of each component belong to its tar files"]
BREAKS = ("rename", "swap", "shift", "insert", "fewer", "more", "order", "shards", "exclude", "last", "first")


def plan(tier):
    need = {"pairs": 4000, "val": 60, "train": 60, "resumed": 60, "restored": 150, "broken": 150, "raised": 60, "refused": 20, "skipped": 20,
            "blended": 20, "with_excludes": 20, "slices": 40, "real": 3}
    if tier == "quick":
        return dict(n=600, shards=8, case_timeout=60, budget=200, min_evals=600, need_events=need)
    return dict(n=12000, shards=8, case_timeout=90, budget=560, min_evals=8000, need_events=need)


def gen(rng, idx, tier):
    W = rng.choice([0, 1, 1, 2, 3])
    world = rng.choice([1, 1, 2])
    G = max(W, 1) * world
    n = rng.choice([2, 2, 3])
    while True:
        shards = dsgen.rand_ds_spec(rng, "x", max_shards=5, max_per=7)["shards"]
        if sum(shards) >= 2 * G:
            break
    exclude = []
    if rng.random() < 0.2 and sum(shards) > 4 * G:
        i = rng.randrange(sum(shards))
        acc = 0
        for s, c in enumerate(shards):
            if i < acc + c:
                exclude = [f"{dsgen.shard_name(s)}/{dsgen.key_of('k', i)}"]
                break
            acc += c
    return dict(
        W=W, world=world, n=n, shards=shards, exclude=exclude, how=rng.choice(["default", "list", "dict"]), kind=rng.choice(["val", "train", "train"]),
        brk=rng.choice(BREAKS) if idx % 2 else None, brk_at=rng.random(), brk_ds=rng.randint(1, n - 1), handler=rng.choice(["default", "skip"]),
        soe=rng.choice([1, 1, 2, -1]), psi=rng.choice([None, 1, 2, 3]), mss=rng.choice([None, None, 1, 2, 3]), blend=rng.random() < 0.25,
        seed=rng.randrange(1 << 30), real=rng.random() < 0.06, keep=rng.choice(["pickle", "torch", None]),
    )


def sample_ids(case):
    """Per component and shard: list of (key, content index) in the order of the tar file."""
    comps = []
    for _ in range(case["n"]):
        i, comp = 0, []
        for c in case["shards"]:
            comp.append([(dsgen.key_of("k", j), j) for j in range(i, i + c)])
            i += c
        comps.append(comp)
    return comps


def break_component(case, comp, split):
    """Makes component data (per shard (key, index)) mismatch. Returns (splits order, excludes or None) or raises NotApplicable."""
    b, total = case["brk"], sum(case["shards"])
    i = int(case["brk_at"] * total)
    if b == "first":
        b, i = "rename", 0
    elif b == "last":
        b, i = "rename", total - 1
    s = 0
    while i >= len(comp[s]):
        i -= len(comp[s])
        s += 1
    sh = comp[s]
    ex = None
    if b == "rename":
        sh[i] = (sh[i][0] + "x", sh[i][1])
    elif b == "swap":
        if len(sh) < 2:
            return None
        j = (i + 1) % len(sh)
        if any(f"{dsgen.shard_name(s)}/{sh[x][0]}" in case["exclude"] for x in (i, j)):
            return None  # without the excluded sample, the order may be the same
        sh[i], sh[j] = sh[j], sh[i]
    elif b == "shift":
        # one sample is missing, another one was added later in the shard
        del sh[i]
        sh.append(("k_99999", 99999))
    elif b == "insert":
        sh.insert(i, ("k_00000a", 99999))
        sh.pop()
    elif b == "fewer":
        if len(sh) < 2:
            return None
        del sh[i]
    elif b == "more":
        sh.append(("k_99999", 99999))
    elif b == "order":
        if len(split) < 2:
            return None
        split[0], split[-1] = split[-1], split[0]
    elif b == "shards":
        if len(split) < 2:
            return None
        split.pop()
    elif b == "exclude":
        ex = [f"{dsgen.shard_name(s)}/{sh[i][0]}"]
        if ex == case["exclude"]:
            return None
    return split, ex


def write_component(root, c, comp, split, exclude):
    import tarfile

    from megatron.energon.flavors import BaseWebdatasetFactory

    path = os.path.join(root, f"c{c}")
    os.makedirs(os.path.join(path, "parts"))
    for s, sh in enumerate(comp):
        with tarfile.open(os.path.join(path, dsgen.shard_name(s)), "w") as tar:
            for key, j in sh:
                dsgen.add_file(tar, key + ".txt", content(c, j).encode())
    BaseWebdatasetFactory.prepare_dataset(path, [dsgen.shard_name(s) for s in range(len(comp))], split_parts_ratio=[("train", 1.0)],
                                          shuffle_seed=None, workers=1)
    with open(os.path.join(path, ".nv-meta", "split.yaml"), "w") as f:
        yaml.dump(dict(split_parts={"train": [dsgen.shard_name(s) for s in split]}, exclude=exclude), f)
    with open(os.path.join(path, ".nv-meta", "dataset.yaml"), "w") as f:
        yaml.dump(dict(sample_type=dict(__module__="harness.samples", __class__="JA JB JC".split()[c]), field_map={"abc"[c]: "txt"}), f)


def content(c, j):
    return dsgen.payload(f"c{c}", j)


class Te0(TaskEncoder):
    cookers = [Cooker(lambda s: s)]


class Te(Te0):
    @stateless
    def batch(self, samples):
        return list(samples)


def ident(case, s, rec, where):
    """The index of the primary sample, after checking all components."""
    base = s.__key__.rsplit("/", 1)[-1]
    j = int(base.rsplit("_", 1)[1])
    if hasattr(s, "parts"):
        got = [(k.rsplit("/", 1)[-1], v) for k, v in s.parts]
    else:
        got = [(base, getattr(s, n)) for n in "abc"[: case["n"]]]
    want = [(base, content(c, j)) for c in range(case["n"])]
    rec.ev("pairs")
    if got != want:
        rec.violation("pair", f"sample {s.__key__} has {short([(k, v[:20]) for k, v in got])}, stored {short([(k, v[:20]) for k, v in want])}; {where}")
    return j


def mk(case, root, wc, restorable, handler=None):
    kw = dict(handler=handler) if handler else {}
    if case["kind"] == "val":
        ds = get_val_dataset(os.path.join(root, "m.yaml"), split_part="train", worker_config=wc, batch_size=2, task_encoder=Te(), **kw)
    else:
        ds = get_train_dataset(os.path.join(root, "m.yaml"), worker_config=wc, batch_size=None if restorable else 2, shuffle_buffer_size=None,
                               task_encoder=Te0() if restorable else Te(), max_samples_per_sequence=case["mss"], parallel_shard_iters=case["psi"],
                               shuffle_over_epochs_multiplier=case["soe"], **kw)
    return ds


def flat(x):
    return x if isinstance(x, list) else [x]


def wcfg(case, r):
    return WorkerConfig(rank=r, world_size=case["world"], num_workers=case["W"])


def run_case(case, rec):
    reset_globals()
    try:
        run(case, rec)
    finally:
        reset_globals()


def run(case, rec):
    comps = sample_ids(case)
    split = list(range(len(case["shards"])))
    random.Random(case["seed"]).shuffle(split)
    visited = set(i for s in split for _, i in comps[0][s])
    live = sorted(i for s in split for k, i in comps[0][s] if f"{dsgen.shard_name(s)}/{k}" not in case["exclude"])
    broken = None
    if case["brk"]:
        sp = list(split)
        r = break_component(case, comps[case["brk_ds"]], sp)
        if r is None:
            return
        broken = r
    for c in range(case["n"]):
        sp, ex = split, case["exclude"]
        if broken and c == case["brk_ds"]:
            sp, ex = broken[0], case["exclude"] + (broken[1] or [])
        write_component(rec.tmp, c, comps[c], sp, ex)
    names = ["first", "second", "third"][: case["n"]]
    refs = [dict(path=f"c{c}") for c in range(case["n"])]
    join = dict(join=refs if case["how"] != "dict" else dict(zip(names, refs)))
    join["joiner"] = {
        "default": dict(__module__="harness.samples", __class__=f"J{case['n']}"),
        "list": dict(__module__="harness.samples", __function__="join_list"),
        "dict": dict(__module__="harness.samples", __function__="join_kw"),
    }[case["how"]]
    if case["blend"] and not broken:
        # the same join twice: everything is delivered twice
        join = dict(blend=[dict(join, weight=1), dict(join, weight=1)])
    dsgen.write_meta(os.path.join(rec.tmp, "m.yaml"), dict(train=join))
    cfg = {k: case[k] for k in ("kind", "W", "world", "n", "how", "shards", "exclude", "soe", "psi", "mss", "brk", "handler")}
    where = f"{cfg}, shard order {split}"
    if broken:
        where += f", broken component {case['brk_ds']} at {case['brk_at']:.3f}"
    rec.sample = dict(cfg, split=split)
    sig = repr((cfg, split, case["brk_ds"]))
    if case["exclude"]:
        rec.ev("with_excludes")
    if case["mss"]:
        rec.ev("slices")
    if broken:
        return broken_case(case, rec, live, where, sig)
    times = 2 if case["blend"] else 1
    log = []
    rng = random.Random(case["seed"] + 1)
    for r in range(case["world"]):
        for k in range(max(case["W"], 1)):
            seq = []
            restorable = case["kind"] == "train" and rng.random() < 0.5
            e = emul.EmuWorker(mk(case, rec.tmp, wcfg(case, r), restorable), wcfg(case, r), k)
            n = 0
            if case["kind"] == "val":
                while (x := e.next()) != emul.END:
                    seq += [ident(case, s, rec, where) for s in flat(x)]
                    n += 1
            else:
                need = 2 * (len(live) // (case["world"] * max(case["W"], 1)) + 2) * times * max(case["soe"], 1)
                while len(seq) < need:
                    x = e.next()
                    if x == emul.END:
                        return rec.violation("ended", f"a looping dataset ended; {where}")
                    seq += [ident(case, s, rec, where) for s in flat(x)]
                    n += 1
            rec.ev(case["kind"])
            rec.evaluated(sig)
            if case["kind"] == "val":
                log += seq
            elif case["soe"] != -1:
                mine = sorted(set(seq))
                if times == 1:
                    blk = len(mine) * case["soe"]
                    for b in range(len(seq) // blk):
                        same = collections.Counter(seq[b * blk : (b + 1) * blk]) == collections.Counter(mine * case["soe"])
                        rec.check(same, "once", lambda: f"worker {r}:{k} delivers {seq} ; {where}")
                # (the copies of a blend are distributed differently)
                log = sorted(set(log) | set(mine)) if times == 2 else log + mine
            # resume in the middle
            cut = rng.randint(0, n)
            if cut < n or case["kind"] == "train":
                e1 = emul.EmuWorker(mk(case, rec.tmp, wcfg(case, r), restorable), wcfg(case, r), k)
                head = [j for x in e1.take(cut) for j in [ident(case, s, rec, where) for s in flat(x)]]
                st, (index, sysrng) = e1.save()
                ds2 = mk(case, rec.tmp, wcfg(case, r), restorable)
                nw = max(case["W"], 1)
                merged = ds2.merge_states([roundtrip(st, case["keep"]) if i == k else None for i in range(nw)])
                e2 = emul.EmuWorker(ds2, wcfg(case, r), k, state=merged, index=index, sysrng=sysrng)
                tail = [j for x in e2.take(n - cut) for j in [ident(case, s, rec, where) for s in flat(x)]]
                rec.ev("resumed")
                rec.check(head + tail == seq, "resume", lambda: f"worker {r}:{k} resumed after {cut} of {n}: {head} + {tail} instead of {seq}; {where}")
    if times == 2:
        rec.ev("blended")
    if case["kind"] == "val" or case["soe"] != -1:
        want = collections.Counter(live * (times if case["kind"] == "val" else 1))
        rec.check(collections.Counter(log) == want, "once",
                  lambda: f"all workers: missing {list((want - collections.Counter(log)).elements())}, too many {list((collections.Counter(log) - want).elements())}; {where}")
    if case["kind"] == "train":
        restore_case(case, rec, rng, live, where)


def restore_case(case, rec, rng, live, where):
    c = dict(case, W=case["W"] if case["real"] else 0)
    wc = wcfg(c, 0)
    ld = get_savable_loader(mk(c, rec.tmp, wc, True))
    try:
        it = iter(ld)
        got = [next(it) for _ in range(6)]
        if case["real"]:
            rec.ev("real")
        rec.evaluated(repr(("restore", where)))
        for s in got:
            j = ident(c, s, rec, where)
            t = ld.restore_sample(s.__restore_key__)
            rec.ev("restored")
            k = ident(c, t, rec, "restored, " + where)
            rec.check((t.__key__, k, t.__restore_key__) == (s.__key__, j, s.__restore_key__), "restore",
                      lambda: f"restored {t.__key__} {t.__restore_key__} instead of {s.__key__} {s.__restore_key__}; {where}")
    finally:
        close_loader(ld)


def broken_case(case, rec, live, where, sig):
    handled = []

    def handler(e, key):
        handled.append((repr(e)[:200], key))

    rec.ev("broken")
    errors, log = [], []
    for r in range(case["world"]):
        for k in range(max(case["W"], 1)):
            try:
                ds = mk(case, rec.tmp, wcfg(case, r), False, handler if case["handler"] == "skip" else None)
            except Exception as e:
                rec.ev("refused")
                errors.append(repr(e))
                continue
            e = emul.EmuWorker(ds, wcfg(case, r), k)
            seq = []
            # (a worker without any valid sample left would search on for ever)
            limit = 3 * (len(live) // (case["world"] * max(case["W"], 1)) + 2) * max(case["soe"], 1) + 40 * (case["soe"] == -1)
            before = len(handled)
            try:
                while len(seq) < limit and (len(handled) - before < 200 or case["kind"] == "val"):
                    if len(handled) - before > 100 and case["kind"] == "train":
                        break
                    x = e.next()
                    if x == emul.END:
                        break
                    seq += [ident(case, s, rec, where) for s in flat(x)]
            except FatalSampleError as ex:
                errors.append(repr(ex) + repr(ex.__cause__))
            except Exception as ex:
                errors.append(repr(ex))
            log += seq
    rec.evaluated(sig)
    if errors:
        rec.ev("raised")
    if handled:
        rec.ev("skipped")
    covered = case["soe"] != -1 or case["kind"] == "val"
    if not errors and covered:
        if case["handler"] == "default":
            rec.violation("silent", f"the component does not match, but no error is raised; delivered {sorted(set(log))} of {live}; {where}")
        elif not handled:
            rec.violation("silent", f"the component does not match, but nothing is reported; delivered {sorted(set(log))} of {live}; {where}")
