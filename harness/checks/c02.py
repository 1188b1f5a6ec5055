"""C02: an epoch delivers each sample of the split exactly once, with its content."""
import collections
import os
import random

from megatron.energon import (
    Cooker, ShuffleBufferDataset, TaskEncoder, WorkerConfig, get_loader, get_savable_loader,
    get_train_dataset, get_val_dataset, stateless,
)
from megatron.energon.dataset_config import get_dataset_from_config
from megatron.energon.epathlib import EPath

from harness import dsgen, emul
from harness.core import HarnessError
from harness.fp import short
from harness.resume import close_loader, reset_globals

PROPERTY = "C02"
LEVEL = "exploration"
RULE = (
    "Deliveries of every worker of every rank, recorded over complete passes (validation) or several epochs (training), "
    "for random datasets with several splits, shard and sample excludes, binary parts with sizes around tar block "
    "boundaries; random world sizes, workers, parallel iterators, sequence limits, shuffle_over_epochs, shuffle "
    "buffers, blends; in-process workers and the real forked loader. An evaluation is one worker's or one global "
    "delivery log checked for exactly-once and byte-exact content; distinct by data layout and configuration."
)
ASSUMPTIONS = ["every worker has at least one sample that is not excluded (else a looping worker has nothing to deliver)"]
SPLITS = ("train", "val", "other")


def plan(tier):
    need = {"val_pass": 60, "train_epochs": 60, "shuffle_buffer": 15, "real_loader": 20, "with_excludes": 40, "blend": 15, "soe>1": 15}
    if tier == "quick":
        return dict(n=1200, shards=10, case_timeout=60, budget=150, min_evals=500, need_events=need)
    return dict(n=4000, shards=10, case_timeout=90, budget=560, min_evals=4000, need_events=need)


def gen_ds(rng, name, G):
    """A dataset with three splits and excludes, such that each worker gets some sample."""
    while True:
        d = dsgen.rand_ds_spec(rng, name, max_shards=8, max_per=8, kind="raw")
        n = len(d["shards"])
        if rng.random() < 0.4:
            d["brace"] = rng.randrange(1000)
        split_of = [rng.choice(("train", "train", "val", "val", "other")) for _ in range(n)]
        splits = {s: [j for j in range(n) if split_of[j] == s] for s in SPLITS}
        if rng.random() < 0.4:
            for v in splits.values():
                rng.shuffle(v)
        exclude = []
        live = {}
        i = 0
        exrate = rng.choice([0, 0.1, 0.3])
        starts = {}
        for s, cnt in enumerate(d["shards"]):
            starts[s] = i
            if exrate and rng.random() < 0.1:
                exclude.append(dsgen.shard_name(s))
            else:
                for j in range(cnt):
                    if rng.random() < exrate:
                        exclude.append(f"{dsgen.shard_name(s)}/{dsgen.key_of(name, i + j)}")
                    else:
                        live[i + j] = True
            i += cnt
        ok = True
        for s in ("train", "val"):
            seq = [k in live for sh in splits[s] if dsgen.shard_name(sh) not in exclude for k in range(starts[sh], starts[sh] + d["shards"][sh])]
            run = best = 0
            for x in seq:
                run = 0 if x else run + 1
                best = max(best, run)
            ok = ok and len(seq) >= G and best < len(seq) // G
        if ok:
            d.update(splits=splits, exclude=exclude, live={s: [k for sh in splits[s] if dsgen.shard_name(sh) not in exclude
                     for k in range(starts[sh], starts[sh] + d["shards"][sh]) if k in live] for s in ("train", "val")})
            return d


def gen(rng, idx, tier):
    mode = ("val", "train", "train", "real")[idx % 4]
    world, W = rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2, 3, 4])
    if mode == "real":
        W = rng.choice([0, 1, 2, 3])
        world = rng.choice([1, 2])
    G = world * max(W, 1)
    nds = rng.choice([1, 1, 1, 2, 3])
    return dict(
        mode=mode, world=world, W=W, ds=[gen_ds(rng, f"d{i}", G) for i in range(nds)], soe=rng.choice([1, 1, 1, 2, 3, -1]),
        psi=rng.choice([None, 1, 2, 3, 5]), mss=rng.choice([None, None, 1, 2, 3]), sb=rng.choice([None, None, 2, 5, 40]),
        seed_offset=rng.choice([0, 3]), bs=rng.choice([None, 1, 2, 3]), seed=rng.randrange(1 << 30), real_train=rng.random() < 0.5,
    )


def ident(sample, rec, where):
    """Checks the content of a crude sample; returns (dataset, index)."""
    key = sample["__key__"]
    base = key.rsplit("/", 1)[-1]
    name, i = base.rsplit("_", 1)
    want = dsgen.raw_parts(name, int(i))
    got = {k: v for k, v in sample.items() if not k.startswith("__")}
    rec.ev("content_checked")
    if got != want:
        rec.violation("content", f"sample {key}: parts {short({k: len(v) for k, v in got.items()})}, stored {short({k: len(v) for k, v in want.items()})}; "
                      f"differing {[k for k in want if got.get(k) != want[k]]}; {where}")
    return name, int(i)


def cook(sample):
    return sample


class Te0(TaskEncoder):
    cookers = [Cooker(cook)]


class Te(Te0):
    @stateless
    def batch(self, samples):
        return list(samples)


def run_case(case, rec):
    reset_globals()
    rng = random.Random(case["seed"])
    paths = [dsgen.make_ds(rec.tmp, d)[0] for d in case["ds"]]
    if any(d["exclude"] for d in case["ds"]):
        rec.ev("with_excludes")
    cfg = {k: case[k] for k in ("world", "W", "soe", "psi", "mss", "sb", "seed_offset", "bs", "mode")}
    where = f"{cfg} shards {[d['shards'] for d in case['ds']]} splits {[d['splits'] for d in case['ds']]} exclude {[d['exclude'] for d in case['ds']]}"
    try:
        {"val": val_case, "train": train_case, "real": real_case}[case["mode"]](case, rec, rng, paths, where)
    finally:
        reset_globals()
    rec.sample = dict(cfg, shards=[d["shards"] for d in case["ds"]])


def wcfg(case, r):
    return WorkerConfig(rank=r, world_size=case["world"], num_workers=case["W"], seed_offset=case["seed_offset"])


def all_live(case, split):
    return [(d["name"], i) for d in case["ds"] for i in d["live"][split]]


def sig(case):
    return f"{case['mode']}:{[d['shards'] for d in case['ds']]}:{case['world']}:{case['W']}:{case['soe']}:{case['psi']}:{case['mss']}:{case['sb']}"


def check_once(rec, got, want, what, where):
    got, want = collections.Counter(got), collections.Counter(want)
    miss, extra = want - got, got - want
    rec.check(not miss, "missing", lambda: f"{what}: {sum(miss.values())} samples not delivered, e.g. {list(miss)[:4]}; {where}")
    rec.check(not extra, "surplus", lambda: f"{what}: {sum(extra.values())} samples too many / not of the split, e.g. {list(extra)[:4]}; {where}")


def source(case, path, wc, split, training):
    return get_dataset_from_config(
        EPath(path), training=training, split_part=split, worker_config=wc, shuffle_over_epochs=case["soe"] if training else 1,
        parallel_shard_iters=case["psi"] if training else None, max_samples_per_sequence=case["mss"] if training else None,
    ).build()


def val_case(case, rec, rng, paths, where):
    passes = 2
    logs = [[] for _ in range(passes)]
    meta = os.path.join(os.path.dirname(paths[0]), "m.yaml")
    dsgen.write_meta(meta, dict(val=dict(blend=[dict(path=os.path.basename(p), weight=1) for p in paths])))
    for r in range(case["world"]):
        wc = wcfg(case, r)
        for k in range(max(case["W"], 1)):
            if len(paths) == 1:
                ds = source(case, paths[0], wc, "val", False)
            else:
                ds = get_val_dataset(meta, worker_config=wc, batch_size=case["bs"] or 2, task_encoder=Te())
            e = emul.EmuWorker(ds, wc, k)
            for p in range(passes):
                while (x := e.next()) != emul.END:
                    logs[p] += [ident(s, rec, where) for s in (x if type(x) is list else [x])]
    for p in range(passes):
        rec.ev("val_pass")
        rec.evaluated(sig(case))
        check_once(rec, logs[p], all_live(case, "val"), f"validation pass {p}", where)


def train_case(case, rec, rng, paths, where):
    nw = max(case["W"], 1)
    live = all_live(case, "train")
    G = case["world"] * nw
    soe = case["soe"]
    first = []
    for r in range(case["world"]):
        wc = wcfg(case, r)
        for k in range(nw):
            if len(paths) == 1:
                ds = source(case, paths[0], wc, "train", True)
                if case["sb"]:
                    ds = ShuffleBufferDataset(ds, size=case["sb"], worker_config=wc)
            else:
                meta = os.path.join(os.path.dirname(paths[0]), "m.yaml")
                w = [1, 1, 3]
                dsgen.write_meta(meta, dict(train=dict(blend=[dict(path=os.path.basename(p), weight=w[j]) for j, p in enumerate(paths)])))
                ds = get_train_dataset(meta, worker_config=wc, batch_size=case["bs"], shuffle_buffer_size=case["sb"],
                                       task_encoder=Te() if case["bs"] else Te0(),
                                       max_samples_per_sequence=case["mss"], parallel_shard_iters=case["psi"],
                                       shuffle_over_epochs_multiplier=soe)
            e = emul.EmuWorker(ds, wc, k)
            E = 3 if soe == 1 else 2 * max(soe, 1)
            need = {d["name"]: E * (len(d["live"]["train"]) // G + 2) + (case["sb"] or 0) for d in case["ds"]}
            got = {d["name"]: [] for d in case["ds"]}
            for _ in range(20000):
                if all(len(got[n]) >= need[n] for n in need):
                    break
                x = e.next()
                if x == emul.END:
                    rec.violation("ended", f"looping training dataset ended for worker {r}:{k}; {where}")
                    return
                for s in x if type(x) is list else [x]:
                    n, i = ident(s, rec, where)
                    got[n].append((n, i))
            else:
                raise HarnessError("blend did not cover the datasets in 20000 draws")
            rec.ev("train_epochs")
            if len(paths) > 1:
                rec.ev("blend")
            if case["sb"]:
                rec.ev("shuffle_buffer")
            if soe > 1:
                rec.ev("soe>1")
            rec.evaluated(sig(case))
            for n, seq in got.items():
                mine = sorted(set(seq))
                L = len(mine)
                if soe == -1:
                    if not set(mine) <= set(live):
                        check_once(rec, mine, live, f"worker {r}:{k}, {n}, drawn with replacement", where)
                    continue
                first.append((n, mine))
                if case["sb"]:
                    # The buffer holds back up to its size (over all datasets): N deliveries come from the first N+size of the source
                    full, rest = divmod(len(seq) + case["sb"], L * soe)
                    cnt = collections.Counter(seq)
                    most = (full + (1 if rest else 0)) * soe
                    bad = [x for x in mine if cnt[x] > most]
                    rec.check(not bad, "surplus", lambda: f"worker {r}:{k}: {bad[:4]} delivered more than {most} times in {len(seq)} of {L} samples per epoch; {where}")
                    # and no sample can be held back more often than the buffer is big
                    least = max(0, (len(seq) // (L * soe)) * soe)
                    held = sum(max(0, least - cnt[x]) for x in mine)
                    rec.check(held <= case["sb"], "missing", lambda: f"worker {r}:{k}: {held} deliveries overdue after {len(seq)} with a shuffle buffer of {case['sb']}; {where}")
                    continue
                blk = L * soe
                for b in range(len(seq) // blk):
                    check_once(rec, seq[b * blk : (b + 1) * blk], mine * soe, f"worker {r}:{k}, {n}, epochs {b * soe}..{(b + 1) * soe - 1}", where)
    if soe != -1 and not case["sb"]:
        check_once(rec, [x for _, m in first for x in m], live, "all workers of all ranks, first epoch", where)
    elif soe != -1:
        got = [x for _, m in first for x in m]
        check_once(rec, set(got), set(live), "all workers of all ranks", where)
        rec.check(len(got) == len(set(got)), "surplus", lambda: f"samples delivered by two workers; {where}")


def real_case(case, rec, rng, paths, where):
    """The forked loader, over all ranks one after the other."""
    meta = os.path.join(os.path.dirname(paths[0]), "m.yaml")
    split = "train" if case["real_train"] else "val"
    dsgen.write_meta(meta, {split: dict(blend=[dict(path=os.path.basename(p), weight=1) for p in paths])})
    nw = max(case["W"], 1)
    log = []
    for r in range(case["world"]):
        wc = wcfg(case, r)
        if split == "val":
            ds = get_val_dataset(meta, worker_config=wc, batch_size=case["bs"] or 1, task_encoder=Te())
            ld = (get_loader if rng.random() < 0.5 else get_savable_loader)(ds)
            for p in range(2):
                got = [ident(s, rec, where) for b in ld for s in b]
                if p == 0:
                    log += got
                else:
                    rec.evaluated(sig(case))
                    check_once(rec, got, log[-len(got):] if got else log, f"second pass of rank {r}", where)
        else:
            ds = get_train_dataset(paths[0], worker_config=wc, batch_size=None, shuffle_buffer_size=None, task_encoder=Te0(),
                                   parallel_shard_iters=case["psi"], max_samples_per_sequence=case["mss"])
            ld = get_savable_loader(ds)
            it = iter(ld)
            per = collections.defaultdict(list)
            L = len(case["ds"][0]["live"]["train"])
            E = 2
            for _ in range(E * (L // (case["world"] * nw) + 2 + (1 if case["ds"][0]["exclude"] else 0) * L) * nw):
                s = next(it)
                # key is ("Webdataset", shard, index), wrapped with the dataset and the worker
                per[worker_of(s, wc)].append(ident(s, rec, where))
            for k, seq in per.items():
                mine = sorted(set(seq))
                for b in range(min(E, len(seq) // len(mine))):
                    check_once(rec, seq[b * len(mine) : (b + 1) * len(mine)], mine, f"worker {k}, epoch {b}", where)
                log += mine
        close_loader(ld)
    rec.ev("real_loader")
    rec.evaluated(sig(case))
    want = all_live(case, "val") if split == "val" else [("d0", i) for i in case["ds"][0]["live"]["train"]]
    check_once(rec, log, want, f"loaders of all ranks ({split})", where)


def worker_of(sample, wc):
    k = sample["__restore_key__"]
    # (torch's default_convert turns the tuples within dicts into lists)
    if not str(k[0]).endswith("SavableDatasetWrapper"):
        raise HarnessError(f"restore key of a loader sample: {k}")
    return k[1]

