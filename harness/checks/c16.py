"""C16: metadatasets compose datasets as written, with outer settings overriding."""
import collections
import json
import math
import os
import random

import yaml

from megatron.energon import TaskEncoder, WorkerConfig, get_train_dataset, get_val_dataset, get_val_datasets, load_dataset, stateless

from harness import dsgen, emul
from harness.core import HarnessError
from harness.resume import reset_globals

PROPERTY = "C16"
LEVEL = "exploration"
RULE = (
    "Random trees of metadataset files (both formats mixed, nested up to four files deep, in different directories, by relative and "
    "absolute paths, blends, joins, single references, several splits per file) over random datasets with several splits, split "
    "configurations and dataset configurations, with random overrides at each level including the arguments of the call, are evaluated by "
    "an independent interpreter of the yaml into leaves (samples, subflavor, subflavors, weight, epochs multiplier). Compared: the "
    "content, order and labels of validation over all workers, of the list of validation datasets, the set of the training samples and their labels, "
    "the share of each leaf in training (7 sigma), weights and multipliers of the loaded leaves. References which name a missing "
    "split, path or file must be refused. An evaluation is one loaded dataset; distinct by tree, call and configuration."
)
ASSUMPTIONS = [
    "a setting given at an outer level wins over the same setting at an inner level, except split_part, where the inner reference selects",
    "a join and its components do not both set split_part or both set split_config (their precedence is not documented)",
]


def plan(tier):
    need = {"val": 60, "loader": 25, "val_list": 25, "train": 60, "shares": 15, "nested3": 60, "v1": 60, "mixed": 40, "joins": 40,
            "outer_wins": 5, "merged": 30, "multiplier": 60, "refused": 8, "split_config": 60, "dataset_config": 30, "call_args": 60}
    if tier == "quick":
        return dict(n=450, shards=8, case_timeout=60, budget=200, min_evals=450, need_events=need)
    return dict(n=20000, shards=8, case_timeout=90, budget=560, min_evals=10000, need_events=need)


SPLITS = ("train", "val", "alt")
SUBFL = ("s0", "s1", "s2")
KEYS = ("k0", "k1", "k2")


def rand_sub(rng, d, p=0.45):
    if rng.random() < p:
        d["subflavor"] = rng.choice(SUBFL)
    if rng.random() < p:
        d["subflavors"] = {k: rng.choice([0, 1, "x", None, [1]]) for k in rng.sample(KEYS, rng.randint(0 if rng.random() < 0.2 else 1, 3))}
    return d


def rand_mult(rng, d):
    if rng.random() < 0.3:
        d["shuffle_over_epochs_multiplier"] = rng.choice([1, 2, 3, 2, -1])
    return d


def gen(rng, idx, tier):
    W = rng.choice([0, 1, 1, 2, 3])
    world = rng.choice([1, 1, 2])
    nds = rng.randint(1, 4)
    dss = {}
    for i in range(nds):
        name = f"d{i}"
        n = rng.randint(3, 6)
        shards = [rng.randint(1, 4) for _ in range(n)]
        order = list(range(n))
        rng.shuffle(order)
        # every split at least one shard
        cuts = sorted(rng.sample(range(1, n), 2))
        parts = [order[: cuts[0]], order[cuts[0]: cuts[1]], order[cuts[1]:]]
        a = dict(zip(SPLITS, parts))
        b = dict(zip(SPLITS, parts[1:] + parts[:1]))
        dss[name] = dict(name=name, dir=rng.choice(["", "data/", "data/deep/"]) + name, shards=shards, kind="text", splits=a, splits2=b,
                         meta=rand_sub(rng, {}, 0.3), meta2=rand_sub(rng, {}, 0.6), twin=rng.random() < 0.6)
    files = []
    depth = rng.choice([1, 1, 2, 2, 3, 4])
    for lvl in range(depth):
        for j in range(1 if lvl == depth - 1 else rng.randint(1, 2)):
            v1 = rng.random() < 0.4
            fname = rng.choice(["", "meta/", "meta/x/"]) + f"m{lvl}_{j}.yaml"
            inner = [f for f in files if f["lvl"] < lvl]
            splits = {}
            for sp in SPLITS:
                n = rng.choice([1, 1, 2, 3])
                refs = []
                for r in range(n):
                    ref = dict(rand_ref(rng, dss, inner, v1, force=lvl - 1 if r == 0 and lvl else None))
                    if v1 or n > 1 or rng.random() < 0.4:
                        if rng.random() < 0.8:
                            ref["weight"] = rng.choice([1, 2, 0.5, 3, 0.1])
                        refs.append(ref)
                    else:
                        refs = ref
                splits[sp] = refs
            files.append(dict(lvl=lvl, name=fname, v1=v1, noclass=v1 and lvl == depth - 1 and rng.random() < 0.3, splits=splits))
    call = rand_sub(rng, {}, 0.25)
    if rng.random() < 0.3:
        call["shuffle_over_epochs_multiplier"] = rng.choice([2, 3, -1])
    return dict(
        W=W, world=world, dss=dss, files=files, call=call, split=rng.choice(SPLITS), kind=rng.choice(["val", "val", "list", "train", "train", "loader"]),
        mss=rng.choice([None, None, 1, 2]), defect=rng.choice(["split", "path", "inner_split", "config"]) if rng.random() < 0.08 else None,
        defect_seed=rng.randrange(1 << 30), how=rng.choice(["file", "file", "file", "str", "dict"]), abs=rng.random(), seed=rng.randrange(1 << 30),
    )


def rand_ref(rng, dss, inner, v1, force=None):
    d = {}
    rand_sub(rng, d)
    rand_mult(rng, d)
    r = rng.random()
    if inner and (force is not None or r < 0.45):
        f = rng.choice([f for f in inner if f["lvl"] == force] if force is not None else inner)
        d["to"] = ("file", f["name"])
    else:
        name = rng.choice(list(dss))
        if not v1 and dss[name]["twin"] and r > 0.7:
            comps = []
            one = rng.random() < 0.5
            use2 = rng.random() < 0.5
            if one:
                # one setting for all joined datasets: then the twin must use the same split file
                comps = [("ds", name, {}), ("twin", name, {})]
                if use2:
                    d["split_config"] = "split2.yaml"
            else:
                comps = [("ds", name, {"split_config": "split2.yaml"} if use2 else {}),
                         ("swapped", name, {} if use2 else {"split_config": "split2.yaml"})]
            for c in comps:
                rand_sub(rng, c[2], 0.4)
                if rng.random() < 0.3:
                    c[2]["dataset_config"] = "dataset2.yaml"
            if rng.random() < 0.4:
                if rng.random() < 0.5:
                    d["split_part"] = rng.choice(SPLITS)
                else:
                    sp = rng.choice(SPLITS)
                    for c in comps:
                        c[2]["split_part"] = sp
            d["join"] = comps
            d["as_dict"] = rng.random() < 0.5
            return d
        d["to"] = ("ds", name)
        if rng.random() < 0.3:
            d["split_config"] = "split2.yaml"
        if rng.random() < 0.25:
            d["dataset_config"] = "dataset2.yaml"
    if rng.random() < 0.35:
        d["split_part"] = rng.choice(SPLITS)
    return d


# ---------------------------------------------------------------- writing

def comp_dir(case, kind, name):
    d = case["dss"][name]["dir"]
    return d if kind == "ds" else d + ("_t" if kind == "twin" else "_s")


def ds_name(kind, name):
    return name + {"ds": "", "twin": "t", "swapped": "s"}[kind]


def comp_meta(case, kind, name, config):
    """subflavor and subflavors which the dataset itself sets."""
    ds = case["dss"][name]
    m = ds["meta2"] if config == "dataset2.yaml" else ds["meta"]
    if kind == "ds":
        return m
    out = {}
    if "subflavor" in m:
        out["subflavor"] = m["subflavor"] + "!"
    if "subflavors" in m:
        out["subflavors"] = {**m["subflavors"], "comp": kind}
    return out


def comp_splits(case, kind, name, config):
    ds = case["dss"][name]
    second = config == "split2.yaml"
    if kind == "swapped":
        second = not second
    return ds["splits2"] if second else ds["splits"]


def write_world(case, root):
    for name, ds in case["dss"].items():
        for kind in ("ds", "twin", "swapped") if ds["twin"] else ("ds",):
            spec = dict(name=ds_name(kind, name), dir=comp_dir(case, kind, name), shards=ds["shards"], kind="text",
                        splits=comp_splits(case, kind, name, "split.yaml"), keyns=name)
            path, _ = dsgen.make_ds(root, spec)
            cls = {"ds": "JA", "twin": "JB", "swapped": "JB"}[kind]
            for cfg in ("dataset.yaml", "dataset2.yaml"):
                with open(os.path.join(path, ".nv-meta", cfg), "w") as f:
                    yaml.dump({"sample_type": {"__module__": "harness.samples", "__class__": cls}, "field_map": {cls[1].lower(): "txt"},
                               **comp_meta(case, kind, name, cfg)}, f)
            with open(os.path.join(path, ".nv-meta", "split2.yaml"), "w") as f:
                yaml.dump(dict(split_parts={sp: [dsgen.shard_name(j) for j in idxs]
                                            for sp, idxs in comp_splits(case, kind, name, "split2.yaml").items()}, exclude=[]), f)
    rng = random.Random(case["seed"])
    docs = {}
    for f in case["files"]:
        doc = file_doc(case, f, root, rng)
        docs[f["name"]] = doc
        p = os.path.join(root, f["name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fh:
            yaml.dump(doc, fh)
    return docs


def rel(case, root, f, target, rng):
    a = os.path.join(root, target)
    r = rng.random()
    if r < 0.2 or (f is case["files"][-1] and case["how"] == "dict"):
        return a
    p = os.path.relpath(a, os.path.dirname(os.path.join(root, f["name"])))
    if r < 0.5 and not p.startswith(".."):
        p = "./" + p
    elif r < 0.6 and "/" in f["name"]:
        p = "../" + os.path.basename(os.path.dirname(f["name"])) + "/" + p
    return p


def file_doc(case, f, root, rng):
    def ref(d):
        out = {k: v for k, v in d.items() if k not in ("to", "join", "as_dict")}
        if "join" in d:
            comps = [{"path": rel(case, root, f, comp_dir(case, k, n), rng), **o} for k, n, o in d["join"]]
            out["join"] = dict(zip(("first", "second"), comps)) if d["as_dict"] else comps
            out["joiner"] = {"__module__": "harness.samples", "__function__": "join_meta_kw" if d["as_dict"] else "join_meta"}
        else:
            kind, name = d["to"]
            out["path"] = rel(case, root, f, name if kind == "file" else comp_dir(case, "ds", name), rng)
        return out

    splits = {}
    for sp, refs in f["splits"].items():
        if isinstance(refs, list):
            splits[sp] = {"datasets" if f["v1"] else "blend": [ref(r) for r in refs]}
        else:
            splits[sp] = ref(refs)
    doc = {"splits": splits}
    if not f["noclass"]:
        doc = {"__module__": "megatron.energon", "__class__": "Metadataset" if f["v1"] else "MetadatasetV2", **doc}
    return doc


# ---------------------------------------------------------------- reference evaluation of the yaml

def over(outer, inner):
    """The settings after applying the outer ones over the inner ones."""
    sub = outer.get("subflavor") if outer.get("subflavor") is not None else inner.get("subflavor")
    subs = {**(inner.get("subflavors") or {}), **(outer.get("subflavors") or {})}
    return {"subflavor": sub, "subflavors": subs}


def times(a, b):
    """-1 stands for infinitely many epochs."""
    return -1 if -1 in (a, b) else a * b


class Refuse(Exception):
    pass


def leaves(case, fname, split, outer, mult, depth=1):
    """Leaves of a metadataset file: dicts with comps, split lists, labels, weight and multiplier."""
    f = next(x for x in case["files"] if x["name"] == fname)
    if split not in f["splits"]:
        raise Refuse(f"{fname} has no split {split}")
    refs = f["splits"][split]
    ws = [1.0] if not isinstance(refs, list) else [r.get("weight", 1.0) for r in refs]
    out = []
    for r, w in zip([refs] if not isinstance(refs, list) else refs, ws):
        o = over(outer, r)
        m = times(mult, r.get("shuffle_over_epochs_multiplier", 1))
        sp = r.get("split_part") or split
        if "join" in r:
            comps = []
            for k, n, c in r["join"]:
                cfg = r.get("split_config") or c.get("split_config") or "split.yaml"
                part = c.get("split_part") or sp
                label = over(over(o, c), comp_meta(case, k, n, c.get("dataset_config")))
                comps.append((k, n, tuple(comp_splits(case, k, n, cfg)[part]), label))
            inner = [dict(comps=comps, weight=1.0, mult=m, depth=depth, v1=f["v1"], mixed=False)]
        elif r["to"][0] == "file":
            inner = leaves(case, r["to"][1], sp, o, m, depth + 1)
            for x in inner:
                x["mixed"] = x["mixed"] or x["v1"] != f["v1"]
        else:
            n = r["to"][1]
            part = comp_splits(case, "ds", n, r.get("split_config"))
            inner = [dict(comps=[("ds", n, tuple(part[sp]), over(o, comp_meta(case, "ds", n, r.get("dataset_config"))))], weight=1.0, mult=m,
                          depth=depth, v1=f["v1"], mixed=False)]
        for x in inner:
            x["weight"] *= w / sum(ws)
        out += inner
    return out


def norm(x):
    return json.dumps(x, sort_keys=True)


def leaf_samples(case, leaf):
    """The samples of the leaf in order, as they should be observed."""
    _, n, shards, _ = leaf["comps"][0]
    counts = case["dss"][n]["shards"]
    out = []
    for s in shards:
        start = sum(counts[:s])
        for i in range(start, start + counts[s]):
            out.append(norm([[f"{ds_name(k, nn)}:{i}", lab["subflavor"], lab["subflavors"]] for k, nn, _, lab in leaf["comps"]]))
    return out


# ---------------------------------------------------------------- observing

def observe(sample):
    from harness.samples import JMeta

    if isinstance(sample, JMeta):
        comps = sample.parts
    else:
        comps = [(getattr(sample, "a", None), sample.__subflavor__, sample.__subflavors__)]
    res = []
    for text, sf, sfs in comps:
        ds, i, _ = text.split(":", 2)
        if dsgen.payload(ds, int(i)) != text:
            return "content differs: " + text[:60]
        res.append([f"{ds}:{i}", sf, sfs])
    return norm(res)


class TE(TaskEncoder):
    @stateless
    def encode_sample(self, sample):
        return sample

    @stateless
    def batch(self, samples):
        return samples


def flat(items):
    for b in items:
        yield from (b if isinstance(b, list) else [b])


def drain(ds, wc, w, limit=100000):
    it = emul.EmuWorker(ds, wc, w)
    out = []
    while len(out) < limit:
        s = it.next()
        if s is emul.END:
            break
        out.append(s)
    it.close()
    return [observe(s) for s in flat(out)]


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"at {i}: {x[:200]} instead of {y[:200]}"
    return f"length {len(a)} instead of {len(b)}"


def diff(got, exp):
    g, e = collections.Counter(got), collections.Counter(exp)
    return f"missing {dict(list((e - g).items())[:3])}, additional {dict(list((g - e).items())[:3])}"


def labels_ok(got, exp):
    """The samples are right, only labels differ?"""
    strip = lambda xs: collections.Counter(norm([c[0] for c in json.loads(x)]) for x in xs)
    try:
        return strip(got) == strip(exp)
    except ValueError:
        return False


def run_case(case, rec):
    root = rec.tmp
    case = json.loads(json.dumps(case))
    docs = write_world(case, root)
    top = case["files"][-1]
    if case["defect"]:
        return run_defect(case, rec, root, docs)
    path = os.path.join(root, top["name"])
    if case["how"] == "str":
        path = os.path.relpath(path)
    if case["how"] == "dict":
        path = docs[top["name"]]
    # get_train_dataset and its siblings refuse subflavor for a metadataset, the loader accepts it
    api = case["kind"] != "loader"
    outer = {k: case["call"].get(k) for k in ("subflavor", "subflavors")[api:]}
    mult = case["call"].get("shuffle_over_epochs_multiplier", 1)
    exp = leaves(case, top["name"], case["split"], outer, mult)
    for lf in exp:
        if lf["depth"] >= 3:
            rec.ev("nested3")
        if lf["v1"]:
            rec.ev("v1")
        if lf["mixed"]:
            rec.ev("mixed")
        if len(lf["comps"]) > 1:
            rec.ev("joins")
        if lf["mult"] not in (1,):
            rec.ev("multiplier")
    if case["call"]:
        rec.ev("call_args")
    txt = norm(docs)
    for w in ("split2", "dataset2"):
        if w in txt:
            rec.ev({"split2": "split_config", "dataset2": "dataset_config"}[w])
    if case["call"].get("subflavor") and not api:
        rec.ev("outer_wins")
    if case["call"].get("subflavors"):
        rec.ev("merged")
    reset_globals()
    G = max(case["W"], 1) * case["world"]
    wcs = [WorkerConfig(rank=r, world_size=case["world"], num_workers=case["W"]) for r in range(case["world"])]
    args = {k: v for k, v in case["call"].items() if k == "subflavors" or (k == "subflavor" and not api)}

    # the loaded leaves: order, weights, multipliers
    import copy
    fresh = lambda: copy.deepcopy(path)
    loaded = load_dataset(fresh()).get_datasets(training=True, split_part=case["split"], worker_config=wcs[0], shuffle_over_epochs_multiplier=mult,
                                                **copy.deepcopy(args))
    rec.check(len(loaded) == len(exp), "leaves", f"{len(loaded)} datasets loaded instead of {len(exp)}")
    if len(loaded) == len(exp):
        for i, ((fac, w), lf) in enumerate(zip(loaded, exp)):
            rec.check(math.isclose(w, lf["weight"], rel_tol=1e-6), "weight", f"weight of leaf {i} is {w} instead of {lf['weight']}")
            rec.check(len(fac) == len(leaf_samples(case, lf)), "len", f"length of leaf {i} is {len(fac)} instead of {len(leaf_samples(case, lf))}")
            cfg = fac.config()
            if "shuffle_over_epochs" in cfg:
                soe = cfg["shuffle_over_epochs"]
                rec.check(soe == lf["mult"], "join-multiplier" if len(lf["comps"]) > 1 else "multiplier",
                          f"leaf {i} is shuffled over {soe} epochs instead of {lf['mult']}")
    want = [leaf_samples(case, lf) for lf in exp]
    rec.evaluated(f"leaves:{txt}:{case['split']}:{case['call']}")

    kind = case["kind"]
    if kind == "loader":
        # each loaded leaf by itself
        rec.ev("loader")
        loaded = load_dataset(fresh()).get_datasets(training=False, split_part=case["split"], worker_config=wcs[0], **copy.deepcopy(args))
        for (fac, _), e in zip(loaded, want):
            got = []
            for w in range(max(case["W"], 1) if case["world"] == 1 else 0):
                got += drain(fac.build(), wcs[0], w)
            if case["world"] == 1:
                judge(rec, "loader", got, e, ordered=G == 1)
    elif kind == "val":
        rec.ev("val")
        got, per_worker = [], []
        for wc in wcs:
            for w in range(max(case["W"], 1)):
                ds = get_val_dataset(fresh(), split_part=case["split"], worker_config=wc, batch_size=2, task_encoder=TE(), **copy.deepcopy(args))
                per_worker.append(drain(ds, wc, w))
                got += per_worker[-1]
        allexp = [s for x in want for s in x]
        judge(rec, "val", got, allexp, ordered=G == 1)
        rec.evaluated(f"val:{txt}:{case['split']}:{case['call']}:{G}")
    elif kind == "list":
        rec.ev("val_list")
        got = [[] for _ in want]
        for wc in wcs:
            for w in range(max(case["W"], 1)):
                dsl = get_val_datasets(fresh(), split_part=case["split"], worker_config=wc, batch_size=2, task_encoder=TE(), **copy.deepcopy(args))
                rec.check(len(dsl) == len(want), "val-list", f"{len(dsl)} validation datasets instead of {len(want)}")
                for i, (ds, src) in enumerate(dsl[: len(want)]):
                    got[i] += drain(ds, wc, w)
        for i, (g, e) in enumerate(zip(got, want)):
            judge(rec, "val-list", g, e, ordered=G == 1)
        rec.evaluated(f"list:{txt}:{case['split']}:{case['call']}:{G}")
    else:
        rec.ev("train")
        run_train(case, rec, fresh, args, mult, exp, want, wcs, G, txt)


def judge(rec, what, got, exp, ordered):
    if ordered and got != exp and sorted(got) == sorted(exp):
        rec.violation(what + "-order", first_diff(got, exp))
    elif sorted(got) != sorted(exp):
        rec.violation(what + ("-labels" if labels_ok(got, exp) else "-samples"), diff(got, exp))


def run_train(case, rec, fresh, args, mult, exp, want, wcs, G, txt):
    import copy
    groups, weights, members = {}, collections.Counter(), collections.defaultdict(set)
    for i, (lf, w) in enumerate(zip(exp, want)):
        # leaves which cannot be told apart are one group
        for s in w:
            if s in groups and groups[s] != i:
                j = groups[s]
                for k, g in list(groups.items()):
                    if g == i:
                        groups[k] = j
                i = j
            groups[s] = i
    for i, lf in enumerate(exp):
        weights[groups[want[i][0]]] += lf["weight"]
    for s, g in groups.items():
        members[g].add(s)
    biggest = max(len(w) for w in want)
    n = 300 if G == 1 else 60
    for wc in wcs:
        for w in range(max(case["W"], 1)):
            ds = get_train_dataset(fresh(), split_part=case["split"], worker_config=wc, batch_size=None, shuffle_buffer_size=None,
                                   max_samples_per_sequence=case["mss"], shuffle_over_epochs_multiplier=mult, task_encoder=TE0(),
                                   **copy.deepcopy(args))
            got = drain_train(ds, wc, w, n, want, G)
            if got is None:
                continue
            bad = [s for s in got if s not in groups]
            if bad:
                strip = lambda x: norm([c[0] for c in json.loads(x)])
                known = {strip(s) for s in groups}
                rec.violation("train-labels" if not bad[0].startswith("content") and strip(bad[0]) in known else "train-samples",
                              f"training delivers {bad[0][:200]}; expected e.g. {sorted(groups)[:2]}")
                return
            if G == 1 and len(weights) > 1:
                rec.ev("shares")
                cnt = collections.Counter(groups[s] for s in got)
                for g, p in weights.items():
                    sd = math.sqrt(n * p * (1 - p)) if p < 1 else 0
                    if abs(cnt[g] - n * p) > 7 * sd + 3:
                        rec.violation("train-share", f"group {g} of {dict(weights)}: {cnt[g]} of {n} samples instead of {n * p:.1f}")
    rec.evaluated(f"train:{txt}:{case['split']}:{case['call']}:{G}:{case['mss']}")


def drain_train(ds, wc, w, n, want, G):
    # A training worker without any sample has nothing to deliver
    if G > 1 and min(len(x) for x in want) < G:
        return None
    it = emul.EmuWorker(ds, wc, w)
    out = []
    for _ in range(n):
        s = it.next()
        if s is emul.END:
            break
        out.append(s)
    it.close()
    return [observe(s) for s in out]


class TE0(TaskEncoder):
    @stateless
    def encode_sample(self, sample):
        return sample


def run_defect(case, rec, root, docs):
    """A reference which cannot be satisfied is refused when loading, not replaced by something else."""
    rng = random.Random(case["defect_seed"])
    top = case["files"][-1]
    doc = docs[top["name"]]
    split = case["split"]
    path = os.path.join(root, top["name"])
    refs = []

    def walk(x):
        if isinstance(x, dict):
            if "path" in x:
                refs.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    d = case["defect"]
    if d == "split":
        del doc["splits"][split]
    else:
        walk(doc["splits"][split])
        r = rng.choice(refs)
        if d == "path":
            r["path"] = r["path"] + "_missing"
        elif d == "inner_split":
            if any("split_part" in x for x in refs if x is not r) and len(refs) > 1 and "join" in norm(doc["splits"][split]):
                return
            r["split_part"] = "nosuch"
            j = doc["splits"][split]
        elif d == "config":
            r["split_config"] = "nosuch.yaml"
            if "join" in norm(doc["splits"][split]):
                return
    with open(path, "w") as f:
        yaml.dump(doc, f)
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    try:
        ds = get_val_dataset(path, split_part=split, worker_config=wc, batch_size=2, task_encoder=TE())
        got = drain(ds, wc, 0)
    except Exception as e:
        rec.ev("refused")
        rec.evaluated(f"refuse:{norm(docs)}:{d}:{case['defect_seed']}")
        return
    rec.violation("not-refused", f"{d}: {len(got)} samples were delivered")
