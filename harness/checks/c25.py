"""C25: field maps pick exactly the addressed values of a raw sample."""
import json
import os
import random
import tarfile

import yaml

from harness import dsgen, emul
from harness.fp import short

PROPERTY = "C25"
LEVEL = "exploration"
RULE = (
    "Random datasets with json / text / number / binary parts (nested dicts and lists, null, odd keys, parts and keys "
    "missing in some samples) are loaded through dataset.yaml files with random field maps (nested access, list indexes, "
    "alternatives) or python sample loaders with part filters, with several worker counts. The oracle evaluates the "
    "field map on the original data; samples without a value must go to the error handler with their key and must not be "
    "yielded. An evaluation is one field of one sample; distinct by field map and sample."
)
ASSUMPTIONS = ["names do not contain the characters of the field map syntax (comma, brackets)"]

MISSING = object()
KEYS = ["a", "b", "x y", "0", "k.ey", "ünï", "__key__", "1", "json"]


def plan(tier):
    need = {"fields": 6000, "alternatives_used": 500, "missing_reported": 500, "list_access": 300, "deep_access": 800, "sample_loader": 300, "defaults": 300}
    if tier == "quick":
        return dict(n=500, shards=10, case_timeout=60, budget=120, min_evals=5000, need_events=need)
    return dict(n=10000, shards=10, case_timeout=60, budget=560, min_evals=50000, need_events=need)


def gen_value(rng, depth):
    k = rng.random()
    if depth <= 0 or k < 0.35:
        return rng.choice([0, 1, -5, 1.5, True, False, None, "", "str", "ä,[x]", [], {}, 2**40])
    if k < 0.7:
        return {rng.choice(KEYS): gen_value(rng, depth - 1) for _ in range(rng.randint(0, 4))}
    return [gen_value(rng, depth - 1) for _ in range(rng.randint(0, 3))]


def perturb(rng, v):
    """A value of similar structure."""
    if isinstance(v, dict):
        return {k: perturb(rng, x) for k, x in v.items() if rng.random() < 0.9}
    if isinstance(v, list):
        return [perturb(rng, x) for x in v][: len(v) if rng.random() < 0.85 else rng.randint(0, len(v))]
    return v if rng.random() < 0.5 else gen_value(rng, 1 if rng.random() < 0.1 else 0)


def paths_of(v, prefix=()):
    yield prefix
    if isinstance(v, dict):
        for k, x in v.items():
            yield from paths_of(x, prefix + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths_of(x, prefix + (str(i),))


PARTS = ["json", "meta.json", "txt", "cls", "bin", "alt.txt", "odd ext"]


def gen(rng, idx, tier):
    base = {p: (gen_value(rng, 3) if p.endswith("json") else None) for p in PARTS}
    samples = []
    for i in range(rng.randint(3, 12)):
        s = {}
        for p in PARTS:
            if rng.random() < (0.9 if p in ("json", "txt") else 0.7):
                # (the webdataset decoder leaves a part which decodes to None as it is)
                s[p] = (x if (x := perturb(rng, base[p])) is not None else 0) if p.endswith("json") else rng.choice([f"text {i}", "", "1", f"ü{i}"]) if p.endswith("txt") else i * 3 if p == "cls" else f"raw{i}"
        if not s:
            s["txt"] = "x"
        samples.append(s)
    maps = []
    for _ in range(rng.randint(2, 5)):
        if rng.random() < 0.15:
            maps.append(dict(loader=rng.sample(PARTS, rng.randint(1, 4)), as_list=rng.random() < 0.5))
            continue
        fm = {}
        for f in ["a", "b"] + [x for x in ("c", "d") if rng.random() < 0.5]:
            fm[f] = ",".join(gen_access(rng, samples, base) for _ in range(rng.choice([1, 1, 2, 3])))
        maps.append(dict(map=fm))
    return dict(seed=rng.randrange(1 << 30), samples=samples, maps=maps)


def gen_access(rng, samples, base):
    p = rng.choice(["json", "json", "json", "meta.json"] + PARTS)
    acc = ()
    if p.endswith("json"):
        src = rng.choice([s[p] for s in samples if p in s] or [base[p]])
        acc = rng.choice(list(paths_of(src)))
        if rng.random() < 0.15:
            acc += (rng.choice(KEYS + ["7", "-1"]),)
    elif rng.random() < 0.1:
        acc = ("0",)
    return p + "".join(f"[{a}]" for a in acc)


def lookup(sample, desc):
    """Reference: the value a single alternative addresses, or MISSING."""
    name, *acc = desc.replace("]", "").split("[")
    if name not in sample:
        return MISSING
    v = sample[name]
    for a in acc:
        if isinstance(v, dict):
            if a not in v:
                return MISSING
            v = v[a]
        elif isinstance(v, list):
            try:
                v = v[int(a)]
            except (ValueError, IndexError):
                return MISSING
        else:
            return MISSING
    return v


def same(a, b):
    return type(a) is type(b) and (
        (a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)) if isinstance(a, dict)
        else (len(a) == len(b) and all(map(same, a, b))) if isinstance(a, list)
        else a == b
    )


def setup(scratch):
    import harness.samples  # noqa: F401  (referred to by name)


LOADER = '''
def sample_loader(raw):
    parts = {k: v for k, v in raw.items() if not k.startswith("__")}
    return dict(__key__=raw["__key__"], a=parts, b=sorted(parts))

def part_filter(part):
    return part in %r
'''


def run_case(case, rec):
    from megatron.energon import WorkerConfig
    from megatron.energon.dataset_config import get_dataset_from_config
    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors import BaseWebdatasetFactory

    rng = random.Random(case["seed"])
    root = os.path.join(rec.tmp, "ds")
    os.makedirs(root)
    decoded = []
    for s in case["samples"]:
        decoded.append({p: (v.encode() if p in ("bin", "odd ext") else v) for p, v in s.items()})
    cut = rng.randint(1, len(case["samples"]) - 1)
    for sh, (lo, hi) in enumerate([(0, cut), (cut, len(case["samples"]))]):
        with tarfile.open(os.path.join(root, f"s{sh}.tar"), "w") as tar:
            for i in range(lo, hi):
                for p, v in case["samples"][i].items():
                    dsgen.add_file(tar, f"k{i:03d}.{p}", (json.dumps(v) if p.endswith("json") else str(v)).encode())
    BaseWebdatasetFactory.prepare_dataset(EPath(root), ["s0.tar", "s1.tar"], split_parts_ratio=[("train", 1)], shuffle_seed=None, workers=1)
    keys = [f"s{int(i >= cut)}.tar/k{i:03d}" for i in range(len(decoded))]
    for mi, m in enumerate(case["maps"]):
        d = dict(sample_type={"__module__": "harness.samples", "__class__": "FieldSample"})
        if "map" in m:
            d["field_map"] = m["map"]
        else:
            with open(os.path.join(root, ".nv-meta", f"loader{mi}.py"), "w") as f:
                f.write(LOADER % (m["loader"],))
            d["sample_loader"] = f"loader{mi}.py:sample_loader"
            d["part_filter"] = m["loader"] if m["as_list"] else f"loader{mi}.py:part_filter"
        with open(os.path.join(root, ".nv-meta", "dataset.yaml"), "w") as f:
            yaml.safe_dump(d, f)
        want, bad = {}, set()
        for key, s in zip(keys, decoded):
            if "map" in m:
                vals = {f: resolve(s, desc, rec) for f, desc in m["map"].items()}
                if any(v is MISSING for v in vals.values()):
                    bad.add(key)
                    continue
                for f, v in (("c", "default c"), ("d", ["default d"])):
                    if f not in vals:
                        rec.ev("defaults")
                    vals.setdefault(f, v)
            else:
                rec.ev("sample_loader")
                parts = {p: v for p, v in s.items() if p in m["loader"]}
                vals = dict(a=parts, b=sorted(parts), c="default c", d=["default d"])
            want[key] = vals
        for W in (0, rng.choice([1, 2, 3])):
            got, errs = {}, []
            for w in range(max(W, 1)):
                wc = WorkerConfig(rank=0, world_size=1, num_workers=W)
                ds = get_dataset_from_config(
                    EPath(root), training=False, split_part="train", worker_config=wc, handler=lambda e, key: errs.append((key, e))
                ).build()
                drv = emul.EmuWorker(ds, wc, w)
                while (x := drv.next()) is not emul.END:
                    rec.check(x.__key__ not in got, "field-twice", f"{x.__key__} yielded twice")
                    got[x.__key__] = dict(a=x.a, b=x.b, c=x.c, d=x.d)
            desc = short(m, 400)
            for key in keys:
                if key in bad:
                    rec.evaluated((case["seed"], mi, W, key, "missing"))
                    if key in got:
                        rec.violation("field-missing", f"{desc}: {key} has no value for a field but was yielded as {short(got[key])}")
                    elif [k for k, _ in errs].count(key) != 1:
                        rec.violation("field-silent", f"{desc}: {key}: reported {[k for k, _ in errs].count(key)} times")
                    else:
                        rec.ev("missing_reported")
                    continue
                if key not in got:
                    rec.violation("field-lost", f"{desc}: {key} should be {short(want[key])}, was not yielded; errors {[(k, repr(e.__cause__ or e)[:200]) for k, e in errs if k == key]}")
                    continue
                for f, v in want[key].items():
                    rec.evaluated((case["seed"], mi, W, key, f))
                    rec.ev("fields")
                    if not same(got[key][f], v):
                        rec.violation("field-value", f"{desc}: {key}.{f} is {short(got[key][f])}, addressed value is {short(v)}")
            if rec.violations:
                return
    rec.sample = dict(samples=len(keys), maps=case["maps"][:2])


def resolve(s, desc, rec):
    alts = desc.split(",")
    for j, a in enumerate(alts):
        v = lookup(s, a)
        if v is not MISSING:
            if j:
                rec.ev("alternatives_used")
            n = a.count("[")
            if n >= 2:
                rec.ev("deep_access")
            if n and any(x.isdigit() for x in a.replace("]", "").split("[")[1:]):
                rec.ev("list_access")
            return v
    return MISSING
