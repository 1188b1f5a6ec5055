"""C09: dataset preparation indexes every tar sample and splits shards without loss."""
import logging
import os
import random
import struct

import yaml

from harness import tars
from harness.fp import short

PROPERTY = "C09"
LEVEL = "exploration"
RULE = (
    "Random sets of tar archives (all formats, names, member kinds and archive ends; some damaged: cut at any byte, broken "
    "headers, garbage, missing, empty) are prepared with random ratios, patterns, seeds and numbers of processes, also by "
    "the command line tool and a second time over existing results. The oracle compares the raw bytes of every index with "
    "the header positions recorded while writing the archive, the recorded counts with the number of samples, and the "
    "split file with the requested split; damaged archives must be logged, not counted and not indexed. An evaluation is "
    "one archive or one split; distinct by case and archive / split."
)
ASSUMPTIONS = ["an archive cut exactly between two members cannot be told from one that ended there (archives without end marker are accepted)"]


def plan(tier):
    need = {"index_ok": 1500, "damaged_reported": 200, "ratio_splits": 150, "pattern_splits": 80, "cli": 5, "again": 60,
            "damage:cut": 60, "damage:header": 40}
    if tier == "quick":
        return dict(n=600, shards=10, case_timeout=90, budget=150, min_evals=1500, need_events=need)
    return dict(n=6000, shards=10, case_timeout=90, budget=560, min_evals=15000, need_events=need)


NAMES = ["data-%d.tar", "train/s-%03d.tar", "a/b.c/x%d.tar", "v1.%d.tar", "ä %d.tar", "val/part_%d.tar"]
RATIOS = [
    [1], [1, 0, 0], [8, 1, 1], [0.7, 0.2, 0.1], [0.1, 0.2, 0.7], [1, 1, 1], [0.9, 0.1], [0.33, 0.33, 0.34], [3, 3, 3, 1], [0, 1], [1, 0, 1],
    [0.6, 0.3, 0.1], [0.1] * 10, [0.05, 0.9, 0.05], [2, 5, 7], [1e-3, 1], [0.15, 0.15, 0.7],
]


def gen(rng, idx, tier):
    n = rng.choice([1, 2, 3, 5, 8, 12])
    many = idx % 4 == 1
    style = rng.choice(NAMES)
    shards = []
    if many:  # many small shards: the split matters
        n = rng.choice([3, 7, 10, 20, 30, 49, 60])
    tmpl = [tars.gen_tar(rng, nsamples=rng.choice([1, 2])) for _ in range(3)]
    for s in range(n):
        name = (style if rng.random() < 0.8 else rng.choice(NAMES)) % s
        spec = rng.choice(tmpl) if many else tars.gen_tar(rng)
        sh = dict(name=name, tar=spec)
        if not many and rng.random() < 0.25 and n > 1:
            sh["damage"] = rng.choice(["cut", "cut", "header", "header", "garbage", "missing", "empty"])
        shards.append(sh)
    case = dict(seed=rng.randrange(1 << 30), shards=shards, workers=rng.choice([1, 2, 4]), shuffle=rng.choice([None, None, 0, 1, 42, 1234567]))
    if rng.random() < 0.35:
        pats = []
        for sp in ["train", "val", "x-y"][: rng.randint(1, 3)]:
            pats.append([sp, rng.choice([r".*", r"train/.*", r"data-[0-4]\.tar", r"(val|train)/.*", r"data-{0..2}\.tar", r".*{1,3}\.tar", r"a/", r"v1\.\d", r"nothing"])])
        case["patterns"] = pats
    else:
        r = rng.choice(RATIOS) if rng.random() < 0.8 else [round(rng.random(), rng.choice([1, 2, 3])) for _ in range(rng.randint(1, 6))]
        if sum(r) <= 0:
            r = [1]
        case["ratio"] = [[f"sp{i}", x] for i, x in enumerate(r)]
    if idx % 9 == 3 and not case.get("patterns") and len(case["ratio"]) != 3:
        r = rng.choice([[8, 1, 1], [1, 1, 1], [0.5, 0.2, 0.3], [1, 0, 0]])
        case["ratio"] = [[s, x] for s, x in zip(["train", "val", "test"], r)]
        case["cli"] = True
    return case


class FileHandler(logging.Handler):
    """Collects log records of this process and its forked children."""

    def __init__(self, path):
        super().__init__(logging.WARNING)
        self.fd = os.open(path, os.O_CREAT | os.O_APPEND | os.O_WRONLY)

    def emit(self, record):
        os.write(self.fd, (self.format(record).split("\n")[0] + "\n").encode("utf8", "replace"))


def damage(path, kind, rng, starts, end, members):
    """Returns True if the damage can be noticed."""
    if kind == "missing":
        os.unlink(path)
        return True
    data = bytearray(open(path, "rb").read())
    if kind == "empty":
        data = b""
    elif kind == "garbage":
        data = rng.randbytes(rng.choice([100, 511, 512, 5000]))
    elif kind == "cut":
        k = rng.choice([rng.randint(1, end - 1), end - rng.randint(1, min(end - 1, 700)), rng.choice(starts) + rng.randint(1, 600)])
        k = max(1, min(k, end - 1))
        if k in starts:
            k += 100
        data = data[:k]
    elif kind == "header":
        # Only at a sample's file (an entry that is no sample may be unreadable without losing data)
        j = rng.randrange(len(starts))
        o = starts[j]
        data[o + rng.choice([0, 3, 152, 156, 257, 100])] ^= rng.choice([1, 0x10, 0xFF])
        if rng.random() < 0.3:
            data[o : o + 512] = rng.randbytes(512)
    with open(path, "wb") as f:
        f.write(data)
    return True


def read_index(p):
    b = open(p, "rb").read()
    return list(struct.unpack(f"<{len(b) // 8}Q", b[: len(b) // 8 * 8])), len(b) % 8


def run_case(case, rec):
    import gc

    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors import BaseWebdatasetFactory

    rng = random.Random(case["seed"])
    root = os.path.join(rec.tmp, "ds")
    os.makedirs(root)
    lst, info = [], {}
    for sh in case["shards"]:
        p = os.path.join(root, sh["name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        starts = []
        end = tars.make(p, sh["tar"], tag=sh["name"], starts=starts)
        if sh.get("damage"):
            damage(p, sh["damage"], rng, starts, end, sh["tar"]["members"])
        info[sh["name"]] = (tars.index_of(sh["tar"]["members"], starts, end), sh.get("damage"))
        lst.append(sh["name"])
    if case.get("cli"):
        lst = sorted(n for n in lst if os.path.exists(os.path.join(root, n)))
    log = os.path.join(rec.tmp, "log")
    handler = FileHandler(log)
    logging.getLogger().addHandler(handler)
    old = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        for again in range(2 if rng.random() < 0.25 else 1):
            if again:
                rec.ev("again")
            open(log, "w").close()
            ret = prepare(case, rec, root, lst, EPath, BaseWebdatasetFactory)
            judge(case, rec, root, lst, info, open(log, encoding="utf8", errors="replace").read(), ret)
            if rec.violations:
                return
    finally:
        os.dup2(old, 2)
        os.close(old), os.close(null), os.close(handler.fd)
        logging.getLogger().removeHandler(handler)
    rec.sample = dict(shards=len(lst), damaged=[d for _, d in info.values() if d], ratio=case.get("ratio"), patterns=case.get("patterns"))


def prepare(case, rec, root, lst, EPath, F):
    if case.get("cli"):
        from click.testing import CliRunner

        from megatron.energon.tools.prepare import command

        rec.ev("cli")
        args = [root, "--no-progress", "--num-workers", str(case["workers"])] + (["--shuffle-tars"] if case["shuffle"] is not None else [])
        confirm = "y\n" if os.path.exists(os.path.join(root, ".nv-meta", ".info.yaml")) else ""
        r = CliRunner().invoke(command, args, input=confirm + ",".join(str(x) for _, x in case["ratio"]) + "\nn\n")
        if not os.path.exists(os.path.join(root, ".nv-meta", "split.yaml")):
            rec.violation("prepare-cli", f"no split file: {r.output[-500:]} {r.exception!r}")
        return None
    return F.prepare_dataset(
        EPath(root),
        lst,
        split_parts_ratio=None if case.get("patterns") else [tuple(x) for x in case["ratio"]],
        split_parts_patterns=[tuple(x) for x in case["patterns"]] if case.get("patterns") else None,
        shuffle_seed=case["shuffle"],
        workers=case["workers"],
    )


def judge(case, rec, root, lst, info, log, ret):
    if rec.violations:
        return
    meta = os.path.join(root, ".nv-meta")
    counts = yaml.safe_load(open(os.path.join(meta, ".info.yaml")))["shard_counts"]
    split = yaml.safe_load(open(os.path.join(meta, "split.yaml")))["split_parts"]
    good = []
    for name in lst:
        offs, dmg = info[name]
        idxp = os.path.join(root, os.path.splitext(name)[0] + ".tar.idx")
        rec.evaluated((case["seed"], name))
        if dmg:
            rec.ev("damage:" + dmg)
            if name in counts:
                rec.violation("prepare-damaged", f"{name} ({dmg}) is recorded with {counts[name]} samples, originally {len(offs) - 1}")
            elif os.path.exists(idxp):
                rec.violation("prepare-damaged", f"{name} ({dmg}) got an index {short(read_index(idxp))}")
            elif name not in log:
                rec.violation("prepare-silent", f"{name} ({dmg}) was dropped without a report: {log[-300:]!r}")
            else:
                rec.ev("damaged_reported")
            continue
        good.append(name)
        if not os.path.exists(idxp):
            rec.violation("prepare-index", f"{name}: no index; {log[-300:]!r}")
            continue
        got, rest = read_index(idxp)
        if got != offs or rest:
            rec.violation("prepare-index", f"{name}: index {got[:30]} (+{rest} bytes), expected {offs[:30]}")
        if counts.get(name) != len(offs) - 1:
            rec.violation("prepare-count", f"{name}: recorded {counts.get(name)} samples, has {len(offs) - 1}")
        rec.ev("index_ok")
    for extra in set(counts) - set(lst):
        rec.violation("prepare-count", f"recorded unknown shard {extra}")
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".tmp"):
                rec.violation("prepare-leftover", f"{os.path.join(d, f)} left over")
    if rec.violations:
        return
    if ret is not None:
        parts = {tars.split_name(m["name"])[1] for sh in case["shards"] if sh["name"] in good for m in sh["tar"]["members"] if m["kind"] == "file" and tars.split_name(m["name"])}
        rec.check(ret == parts, "prepare-parts", lambda: f"returned parts {ret}, the archives have {parts}")
    if case.get("patterns"):
        import re

        import braceexpand

        for sp, pat in case["patterns"]:
            rec.evaluated((case["seed"], sp))
            rec.ev("pattern_splits")
            want = [n for n in good if any(re.match(q, n) for q in braceexpand.braceexpand(pat))]
            last = [p for s, p in case["patterns"] if s == sp][-1]
            if pat == last:
                rec.check(split.get(sp) == want, "split-pattern", lambda: f"{sp}:{pat} got {split.get(sp)}, expected {want} of {good}")
        rec.check(set(split) == {s for s, _ in case["patterns"]}, "split-pattern", lambda: f"splits {sorted(split)}")
        return
    rec.ev("ratio_splits")
    total = sum(x for _, x in case["ratio"])
    rec.check(list(split) == [s for s, _ in case["ratio"]] or set(split) == {s for s, _ in case["ratio"]}, "split-ratio", lambda: f"splits {list(split)} for {case['ratio']}")
    flat = [n for s, _ in case["ratio"] for n in split.get(s, ())]
    rec.evaluated((case["seed"], "partition"))
    if sorted(flat) != sorted(good):
        rec.violation("split-partition", f"ratio {[x for _, x in case['ratio']]} of {len(good)} shards: missing {sorted(set(good) - set(flat))[:5]}, extra or twice {[n for n in flat if flat.count(n) > 1][:5]}")
        return
    for s, x in case["ratio"]:
        if abs(len(split[s]) - len(good) * x / total) > 1 + 1e-6:
            rec.violation("split-proportion", f"{s} with {x}/{total} of {len(good)} shards got {len(split[s])}")
    if case["shuffle"] is None:
        rec.check(flat == good, "split-order", lambda: f"order changed without shuffling: {flat[:8]} of {good[:8]}")
    else:
        rec.data.append([case["shuffle"] if not case.get("cli") else 42, len(good), tuple(good.index(n) for n in flat)])


def finish(data, tier):
    """Same seed and number of shards: the same order in all processes and datasets."""
    by = {}
    for seed, n, perm in data:
        by.setdefault((seed, n), set()).add(tuple(perm))
    return [("split-determinism", f"seed {seed}, {n} shards: {len(p)} different orders") for (seed, n), p in by.items() if len(p) > 1]
