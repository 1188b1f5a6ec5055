"""C24: crude samples are cooked by the first matching cooker only."""
import collections
import contextlib
import io
import json
import os
import random

import yaml

from megatron.energon import Cooker, SkipSample, TaskEncoder, TextSample, WorkerConfig, basic_sample_keys, get_savable_loader, get_train_dataset, get_val_dataset, stateless

from harness import dsgen, emul
from harness.core import HarnessError
from harness.fp import short
from harness.resume import close_loader, reset_globals

PROPERTY = "C24"
LEVEL = "exploration"
RULE = (
    "Random lists of cookers (subflavor, required subflavors with present, absent, None, falsy and nested values, conditions on content and "
    "parts, combinations, none at all, the same cooker twice) over blends of crude datasets (single and several parts per sample, with "
    "and without decoding) and typed datasets. Every call of a condition and a cooker is logged with the sample it got. An independent "
    "matcher decides from the stored content which cooker is responsible: each sample has exactly one call, by that "
    "cooker, with the unmodified crude sample; delivered are exactly its results with the sample's key, restore key and subflavors; typed samples "
    "are delivered as they are; samples without cooker, with a failing cooker or a failing condition are reported and missing; "
    "over validation of all workers and in training, and through restore_sample. An evaluation is the log of one worker; "
    "distinct by cookers, datasets and configuration."
)
ASSUMPTIONS = ["conditions are functions of the sample (the check also uses ones which raise)"]


def plan(tier):
    need = {"cooked": 5000, "passed": 1000, "unmatched": 500, "failed": 100, "skipped": 100, "later_also_matches": 800, "earlier_refused": 500,
            "val": 200, "train": 100, "restored": 150, "conditions": 1500}
    if tier == "quick":
        return dict(n=800, shards=8, case_timeout=60, budget=200, min_evals=500, need_events=need)
    return dict(n=12000, shards=8, case_timeout=90, budget=560, min_evals=6000, need_events=need)


SUBFL = ("s0", "s1", "")
VALS = (None, 0, 1, "x", "", False, [1], {"n": 1})


def rand_dict(rng, lo=0):
    return {k: rng.choice(VALS) for k in rng.sample(("k0", "k1", "k2"), rng.randint(lo, 3))}


def gen(rng, idx, tier):
    W = rng.choice([0, 1, 1, 2])
    world = rng.choice([1, 1, 2])
    G = max(W, 1) * world
    dss = []
    for i in range(rng.randint(1, 4)):
        kind = rng.choice(["crude", "crude", "raw", "typed"] if i else ["crude", "crude", "raw"])
        while True:
            shards = dsgen.rand_ds_spec(rng, f"d{i}", max_shards=4, max_per=5)["shards"]
            if sum(shards) >= 2 * G:
                break
        dss.append(dict(name=f"d{i}", kind=kind, shards=shards, json=rng.random() < 0.4 and kind == "crude", subflavor=rng.choice([None, None, "s0", "s1", ""]),
                        subflavors=rng.choice([None, rand_dict(rng), rand_dict(rng)])))
    cookers = []
    for c in range(rng.randint(1, 6)):
        d = dict(how=rng.choice(["ok", "ok", "ok", "ok", "skip", "fail", "dict"]))
        if rng.random() < 0.4:
            d["is"] = rng.choice(SUBFL)
        if rng.random() < 0.6:
            if rng.random() < 0.6:
                src = rng.choice(dss)["subflavors"] or {}
                d["has"] = {k: v for k, v in src.items() if rng.random() < 0.7}
                if rng.random() < 0.2:
                    d["has"]["k0"] = rng.choice(VALS)
            else:
                d["has"] = rand_dict(rng)
        if rng.random() < 0.4:
            d["cond"] = rng.choice(["odd", "even", "third", "json", "true", "false", "zero", "raise", "list"])
        cookers.append(d)
    if rng.random() < 0.3:
        cookers.append(dict(how="ok"))
    if rng.random() < 0.15:
        cookers.append(dict(cookers[0]))
    return dict(W=W, world=world, dss=dss, cookers=cookers, kind=rng.choice(["val", "val", "train"]), meta=rng.random() < 0.5, seed=rng.randrange(1 << 30),
                bs=rng.choice([1, 2, 3]), enc=rng.random() < 0.3)


def num(text):
    return dsgen.val_of(text)


def text_of(s):
    t = s["txt"] if "txt" in s else s["bin"]
    return t.decode("latin1") if isinstance(t, bytes) else t


class CondError(Exception):
    pass


def cond_value(name, text, has_json):
    """What the condition returns; raises CondError."""
    n = num(text)
    if name == "raise":
        if n % 3 == 0:
            raise CondError("cond")
        return n % 3 == 1
    return {"odd": n % 2 == 1, "even": n % 2 == 0, "third": n % 3 == 0, "json": has_json, "true": True, "false": False, "zero": n % 2,
            "list": [] if n % 2 else [0]}[name]


def eq(a, b):
    return a == b


def responsible(case, ds, text):
    """(index of the cooker or None or "error", indexes of conditions which are asked)."""
    asked = []
    for i, c in enumerate(case["cookers"]):
        if "is" in c and ds["subflavor"] != c["is"]:
            continue
        if "has" in c and not all(k in (ds["subflavors"] or {}) and eq(ds["subflavors"][k], v) for k, v in c["has"].items()):
            continue
        if "cond" in c:
            asked.append(i)
            try:
                if not cond_value(c["cond"], text, ds["json"]):
                    continue
            except CondError:
                return "error", asked
        return i, asked
    return None, asked


def write_world(case, root):
    import tarfile

    from megatron.energon.flavors import BaseWebdatasetFactory

    refs = []
    for d in case["dss"]:
        path = os.path.join(root, d["name"])
        os.makedirs(os.path.join(path, "parts"))
        i = 0
        for s, n in enumerate(d["shards"]):
            with tarfile.open(os.path.join(path, dsgen.shard_name(s)), "w") as tar:
                for _ in range(n):
                    k = dsgen.key_of(d["name"], i)
                    dsgen.add_file(tar, k + (".bin" if d["kind"] == "raw" else ".txt"), dsgen.payload(d["name"], i).encode())
                    if d["json"]:
                        dsgen.add_file(tar, k + ".json", b'{"i": %d}' % i)
                    i += 1
        BaseWebdatasetFactory.prepare_dataset(path, [dsgen.shard_name(s) for s in range(len(d["shards"]))], split_parts_ratio=[("train", 1.0)],
                                              shuffle_seed=None, workers=1)
        if d["kind"] == "typed":
            y = {"sample_type": {"__module__": "megatron.energon", "__class__": "TextSample"}, "field_map": {"text": "txt"}}
        else:
            y = {"__module__": "megatron.energon", "__class__": "CrudeWebdataset"}
            if d["kind"] == "raw":
                y["auto_decode"] = False
        ref = dict(path=d["name"], weight=1)
        target = ref if case["meta"] else y
        for f in ("subflavor", "subflavors"):
            if d[f] is not None:
                target[f] = d[f]
        with open(os.path.join(path, ".nv-meta", "dataset.yaml"), "w") as f:
            yaml.dump(y, f)
        refs.append(ref)
    dsgen.write_meta(os.path.join(root, "m.yaml"), dict(train=dict(blend=refs)))


def make_te(case, log):
    def cook_fn(i, c):
        def cook(sample):
            log.append(("cook", i, sample["__key__"], text_of(sample), dict(sample), type(sample).__name__))
            n = num(text_of(sample))
            if c["how"] == "skip" and n % 3 == 0:
                raise SkipSample()
            if c["how"] == "fail" and n % 3 == 0:
                raise ValueError(f"cannot cook {sample['__key__']}")
            return TextSample(**basic_sample_keys(sample), text=f"{i}|{text_of(sample)}")

        return stateless(cook)

    def cond_fn(i, c):
        def cond(sample):
            log.append(("cond", i, sample["__key__"]))
            return cond_value(c["cond"], text_of(sample), "json" in sample)

        return cond

    cookers_ = [
        Cooker(cook_fn(i, c), **({"is_subflavor": c["is"]} if "is" in c else {}), **({"has_subflavors": dict(c["has"])} if "has" in c else {}),
               **({"condition": cond_fn(i, c)} if "cond" in c else {}))
        for i, c in enumerate(case["cookers"])
    ]

    class Te0(TaskEncoder):
        cookers = cookers_

        if case["enc"]:
            @stateless
            def encode_sample(self, sample):
                assert isinstance(sample, TextSample), type(sample)
                return sample

    class Te(Te0):
        @stateless
        def batch(self, samples):
            return list(samples)

    return Te0(), Te()


def mk(case, root, wc, log, single=False):
    te0, te = make_te(case, log)
    p = os.path.join(root, "m.yaml")
    if case["kind"] == "val":
        return get_val_dataset(p, split_part="train", worker_config=wc, batch_size=case["bs"], task_encoder=te)
    return get_train_dataset(p, worker_config=wc, batch_size=None if single else case["bs"], shuffle_buffer_size=None, max_samples_per_sequence=None,
                             task_encoder=te0 if single else te)


def fate(case, d, i):
    """What happens to the sample: ("out", text, cooker) or (reason, None, cooker)."""
    text = dsgen.payload(d["name"], i)
    if d["kind"] == "typed":
        return "passed", text, None, []
    c, asked = responsible(case, d, text)
    if c == "error":
        return "conderror", None, None, asked
    if c is None:
        return "unmatched", None, None, asked
    how = case["cookers"][c]["how"]
    if how == "skip" and num(text) % 3 == 0:
        return "skip", None, c, asked
    if how == "fail" and num(text) % 3 == 0:
        return "fail", None, c, asked
    return "cooked", f"{c}|{text}", c, asked


def run_case(case, rec):
    reset_globals()
    try:
        run(case, rec)
    finally:
        reset_globals()


def check_sample(case, rec, s, where):
    """Judges one delivered sample by itself; returns (dataset, index)."""
    if not isinstance(s, TextSample):
        rec.violation("uncooked", f"a {type(s).__name__} is delivered: {short(s)}; {where}")
        return None
    shard, base = s.__key__.rsplit("/", 1)
    name, i = base.split("_")
    i = int(i)
    d = next(x for x in case["dss"] if x["name"] == name)
    what, text, c, _ = fate(case, d, i)
    if text is None:
        rec.violation("delivered-" + what, f"{s.__key__} is delivered as {s.text[:60]}, but should be missing ({what}); {where}")
        return None
    rec.check(s.text == text, "content", lambda: f"{s.__key__}: {s.text[:60]} instead of {text[:60]}; {where}")
    rec.check(s.__subflavor__ == d["subflavor"] and s.__subflavors__ == (d["subflavors"] or {}), "subflavors",
              lambda: f"{s.__key__}: subflavors {s.__subflavor__!r} {s.__subflavors__} instead of {d['subflavor']!r} {d['subflavors']}; {where}")
    acc = 0
    for sh, n in enumerate(d["shards"]):
        if i < acc + n:
            break
        acc += n
    rk = ("Webdataset", dsgen.shard_name(sh), i - acc)
    rec.check(tuple(s.__restore_key__[-3:]) == rk, "restore-key", lambda: f"{s.__key__}: restore key {s.__restore_key__} does not end with {rk}; {where}")
    return name, i


def run(case, rec):
    case = json.loads(json.dumps(case))
    write_world(case, rec.tmp)
    cfg = {k: case[k] for k in ("cookers", "dss", "W", "world", "kind", "bs", "meta")}
    where = str(cfg)
    rec.sample = cfg
    everything = [(d, i) for d in case["dss"] for i in range(sum(d["shards"]))]
    fates = {(d["name"], i): fate(case, d, i) for d, i in everything}
    if not any(f[1] is not None for f in fates.values()) and case["kind"] == "train":
        case["kind"] = "val"
    if case["kind"] == "train" and case["world"] * max(case["W"], 1) > 1:
        case["W"], case["world"] = min(case["W"], 1), 1  # a worker whose samples are all missing would search forever
    got_all, calls_all, out = [], [], io.StringIO()
    for r in range(case["world"]):
        for k in range(max(case["W"], 1)):
            wc = WorkerConfig(rank=r, world_size=case["world"], num_workers=case["W"])
            log, out = [], io.StringIO()
            e = emul.EmuWorker(mk(case, rec.tmp, wc, log), wc, k)
            got = []
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                while (x := e.next()) != emul.END:
                    got += [check_sample(case, rec, s, where) for s in x]
                    if case["kind"] == "train" and len(got) >= 60:
                        break
            rec.ev(case["kind"])
            rec.evaluated(repr((where, r, k)))
            e.close()
            check_log(case, rec, log, fates, got, out.getvalue(), where)
            got_all += got
    if case["kind"] == "val":
        want = collections.Counter(k for k, f in fates.items() if f[1] is not None)
        have = collections.Counter(x for x in got_all if x)
        rec.check(have == want, "conservation", lambda: f"missing {sorted((want - have))[:5]}, too many {sorted((have - want))[:5]}; {where}")
    else:
        restore_case(case, rec, fates, where)


def check_log(case, rec, log, fates, got, out, where):
    """One call of exactly the responsible cooker per sample, with the crude sample."""
    conds = collections.defaultdict(list)
    cooks = collections.defaultdict(list)
    seen = set()
    for ev in log:
        base = ev[2].rsplit("/", 1)[-1]
        name, i = base.split("_")
        key = (name, int(i))
        seen.add(key)
        if ev[0] == "cond":
            conds[key].append(ev[1])
            rec.ev("conditions")
        else:
            cooks[key].append(ev[1])
            d = next(x for x in case["dss"] if x["name"] == name)
            text = dsgen.payload(name, int(i))
            ok = ev[3] == text and ev[5] == "CrudeSample" and ("json" in ev[4]) == d["json"]
            rec.check(ok, "crude-sample", lambda: f"cooker {ev[1]} got {short(ev[4])} of type {ev[5]} for {ev[2]}; {where}")
    delivered = collections.Counter(x for x in got if x)
    for key, f in fates.items():
        what, text, c, asked = f
        n = delivered[key] if text is not None else len(cooks[key])
        if what == "passed":
            rec.ev("passed", n)
            continue
        other = [x for x in cooks[key] if x != c]
        rec.check(not other, "wrong-cooker", lambda: f"{key} belongs to {c} ({what}), but cookers {other} were called; {where}")
        # In training, the last batch may have been read in part
        more = len(cooks[key]) - delivered[key]
        if what == "cooked":
            rec.check(more == 0 or (case["kind"] == "train" and more >= 0), "calls", lambda: f"{key} was cooked {len(cooks[key])} times but delivered {delivered[key]} times; {where}")
            rec.ev("cooked", delivered[key])
            if c:
                rec.ev("earlier_refused", delivered[key])
            if any("is" not in x and "has" not in x and "cond" not in x for x in case["cookers"][c + 1 :]):
                rec.ev("later_also_matches", delivered[key])
        elif case["kind"] == "val" and what in ("skip", "fail"):
            rec.check(len(cooks[key]) <= 1, "calls", lambda: f"{key} ({what}) was cooked {len(cooks[key])} times; {where}")
        if case["kind"] == "val":
            base = dsgen.key_of(*key)
            mine = f"{base}'" in out
            if what in ("fail", "conderror", "unmatched"):
                rec.ev("failed" if what == "fail" else "unmatched")
                if key in seen:
                    rec.check(mine, "report", lambda: f"{key} ({what}) is missing without a report; {where}")
            elif what == "skip":
                rec.ev("skipped")
            if what in ("cooked", "skip"):
                rec.check(not mine, "false-report", lambda: f"{key} ({what}) is reported as error; {where}")
    if case["kind"] == "val" and case["W"] <= 1 and case["world"] == 1:
        unreported = [k for k, f in fates.items() if f[0] in ("fail", "conderror", "unmatched") and f"{dsgen.key_of(*k)}'" not in out]
        rec.check(not unreported, "report", lambda: f"{unreported[:5]} are missing without a report; {where}")


def restore_case(case, rec, fates, where):
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    log, out = [], io.StringIO()
    ld = get_savable_loader(mk(case, rec.tmp, wc, log, single=True))
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            it = iter(ld)
            got = [next(it) for _ in range(5)]
            for s in got:
                k = check_sample(case, rec, s, where)
                del log[:]
                t = ld.restore_sample(s.__restore_key__)
                rec.ev("restored")
                rec.check(check_sample(case, rec, t, where) == k and t.__restore_key__ == s.__restore_key__ and t.text == s.text, "restore",
                          lambda: f"restored {t.__key__} instead of {s.__key__}; {where}")
                cooks = [x[1] for x in log if x[0] == "cook"]
                want = [] if fates[k][0] == "passed" else [fates[k][2]]
                rec.check(cooks == want, "restore-cooker", lambda: f"restoring {k} called cookers {cooks} instead of {want}; {where}")
    finally:
        close_loader(ld)
