"""Random dataset pipelines: JSON specs, built from the real wrappers, with traced user functions.

Every user function records (stage, sample index, batch index, random draws), so that a stream is only equal to
another one if the data, the order, the indices and the randomness are all equal.
"""
import dataclasses
import hashlib
import random
from dataclasses import dataclass
from typing import Any, List

import numpy as np
import torch

from megatron.energon import (
    BlendDataset,
    ConcatDataset,
    EpochizeDataset,
    LimitDataset,
    MixBatchDataset,
    RepeatDataset,
    Sample,
    ShuffleBufferDataset,
    SkipSample,
    TaskEncoder,
    TextSample,
    WorkerConfig,
    stateless,
)
from megatron.energon.wrappers.base import BaseSingleWrapperDataset
from megatron.energon.wrappers.batch_dataset import BatchDataset
from megatron.energon.wrappers.filter_dataset import FilterDataset
from megatron.energon.wrappers.gc_dataset import GcDataset
from megatron.energon.wrappers.group_batch_dataset import GroupBatchDataset
from megatron.energon.wrappers.iter_map_dataset import IterMapDataset
from megatron.energon.wrappers.log_sample_dataset import LogSampleDataset
from megatron.energon.wrappers.map_dataset import MapDataset
from megatron.energon.wrappers.packing_dataset import PackingDataset

from harness import dsgen


@dataclass
class PS(Sample):
    """Sample or batch of samples with provenance."""

    uid: List[str]
    trace: List[Any]


class UserError(Exception):
    def __init__(self, msg, sid=None):
        super().__init__(msg)
        self.sid = sid


#: Event log of the taps and user functions (see taps.py), or None
LOG = None


def log(*ev):
    if LOG is not None:
        LOG.append(ev)


def ident(x):
    """Identity of a sample or batch: provenance and what was done to it."""
    if isinstance(x, TextSample):
        return (hsh(short_uid(x.text)), hsh([("src", hsh(x.text))]))
    return (hsh(*x.uid), hsh(x.trace))


def idents(xs):
    return tuple(ident(x) for x in xs)


def hsh(*args):
    return int(hashlib.sha1("|".join(map(str, args)).encode()).hexdigest()[:8], 16)


def draws():
    return (
        int(torch.randint(0, 1 << 30, ()).item()),
        int(np.random.randint(0, 1 << 30)),
        random.getrandbits(30),
    )


#: Record indexes as counted by the worker, independent of how many workers its rank has
LOCAL_INDEX = False


def sidx(te):
    i = te.current_sample_index
    return i // max(WorkerConfig.active_worker_config.num_workers, 1) if LOCAL_INDEX else i


def bidx(te):
    i = te.current_batch_index
    return i // max(WorkerConfig.active_worker_config.num_workers, 1) if LOCAL_INDEX else i


def short_uid(text):
    return text.split(":", 2)[0] + ":" + text.split(":", 2)[1]


def to_ps(x):
    Monitor.read()
    if isinstance(x, PS):
        return x
    if isinstance(x, TextSample):
        return PS(
            __key__=x.__key__, __restore_key__=x.__restore_key__, __subflavor__=x.__subflavor__,
            __subflavors__=x.__subflavors__, uid=[short_uid(x.text)], trace=[("src", hsh(x.text))],
        )
    raise TypeError(type(x))


def merge_ps(xs):
    xs = [to_ps(x) for x in xs]
    return PS(
        __key__="+".join(x.__key__ for x in xs), __restore_key__=(), __subflavor__=None, __subflavors__=None,
        uid=[u for x in xs for u in x.uid], trace=[x.trace for x in xs],
    )


class Spin(BaseException):
    """The pipeline reads on and on without ever emitting anything (degenerate spec, not an error of the code)."""


class Monitor:
    """Counts what the user functions saw (per process)."""

    reads = 0  # samples seen since the last output
    total = 0
    limit = 6000

    @classmethod
    def read(cls):
        cls.reads += 1
        cls.total += 1
        if cls.reads > cls.limit:
            cls.reads = 0
            raise Spin()


class Probe(BaseSingleWrapperDataset):
    """Transparent dataset of the harness: knows if it is currently being iterated, or was exhausted."""

    def __init__(self, dataset, worker_config):
        super().__init__(dataset, worker_config=worker_config)
        self.status = "idle"

    def __len__(self):
        return len(self.dataset)

    def __iter__(self):
        self.status = "run"
        Monitor.read()
        for x in self.dataset:
            Monitor.read()
            yield x
        self.status = "end"

    def config(self):
        return self.dataset.config()


def in_tail(probes):
    """Did a buffering wrapper already see the end of its inner dataset, while still emitting from its buffer?"""
    return any(inner.status == "end" and outer.status == "run" for inner, outer in probes)


FATAL = dict(MemoryError=MemoryError, ImportError=ImportError, NameError=NameError, RecursionError=RecursionError,
             SystemError=SystemError, ReferenceError=ReferenceError, SyntaxError=SyntaxError)


#: Called at the start of every user function, or None
PAUSE = None


def _core(beh, te, x):
    """Common user code: decide (skip/err), draw, trace."""
    if PAUSE is not None:
        PAUSE()
    sid = beh["sid"]
    many = isinstance(x, list)
    if LOG is not None:
        log("call", sid, idents(x) if many else (ident(x),))
    y = merge_ps(x) if many else to_ps(x)
    si = sidx(te)
    bi = bidx(te) if beh.get("rec_b") else None
    h = hsh(sid, y.uid, si) % 64
    d = draws() if beh["mode"] in ("seeded", "free") else None
    if h < beh.get("skip", 0):
        log("skip", sid)
        raise SkipSample()
    if h < beh.get("skip", 0) + beh.get("err", 0):
        log("err", sid)
        raise UserError(f"injected {sid} {y.uid}", sid)
    if h >= 64 - beh.get("fatal", 0):
        log("fatal", sid)
        raise FATAL[beh["fatal_type"]]("injected fatal")
    return dataclasses.replace(y, trace=list(y.trace) + [(sid, si, bi, d)])


def make_fn(beh):
    """Returns a bound method, marked like a user would mark it."""

    if beh.get("gen"):

        def fn(self, x):
            y = _core(beh, self, x)
            n = 1 + hsh(beh["sid"], "n", y.uid) % beh["gen"] if beh["gen"] > 1 else hsh(y.uid) % 2
            for j in range(n):
                if beh.get("generr") and hsh(beh["sid"], "ge", y.uid, j) % 16 < beh["generr"]:
                    log("err", beh["sid"])
                    raise UserError("injected in generator", beh["sid"])
                d = draws() if beh["mode"] in ("seeded", "free") else None
                r = dataclasses.replace(y, trace=list(y.trace) + [("gen", j, sidx(self), d)])
                log("ret", beh["sid"], ident(r))
                yield r
            log("done", beh["sid"])

    else:

        def fn(self, x):
            r = _core(beh, self, x)
            log("ret", beh["sid"], ident(r))
            return r

    if beh["mode"] == "seeded":
        fn = stateless(restore_seeds=True)(fn)
    elif beh["mode"] == "plain":
        fn = stateless(fn)
    cls = type("Te_" + beh["sid"], (TaskEncoder,), {"fn": fn})
    return cls().fn


def is_stateless(beh):
    return beh["mode"] != "free"


def quiet_handler(exc, sample, *a):
    if not isinstance(exc, UserError):
        raise exc
    if LOG is not None:
        many = isinstance(sample, (list, tuple))
        log("handler", exc.sid, idents(sample) if many else (ident(sample),))


def make_filter(beh):
    te = TaskEncoder()

    def f(x):
        r = hsh(beh["sid"], to_ps(x).uid, sidx(te)) % 64 >= beh["skip"]
        log("call", beh["sid"], (ident(x),))
        log("filter", beh["sid"], r)
        return r

    return f


def make_itermap(beh):
    te = TaskEncoder()

    def f(it):
        for x in it:
            y = to_ps(x)
            log("call", beh["sid"], (ident(x),))
            h = hsh(beh["sid"], y.uid, x.__restore_key__[:2]) % 64  # the key changes over epochs: never drops all
            if h < beh.get("skip", 0):
                continue
            if h < beh.get("skip", 0) + beh.get("err", 0):
                log("err", beh["sid"])
                raise UserError("injected itermap", beh["sid"])
            for j in range(beh.get("mult", 1)):
                r = dataclasses.replace(y, trace=list(y.trace) + [(beh["sid"], j, sidx(te))])
                log("ret", beh["sid"], ident(r))
                yield r

    return f


def make_group(beh):
    te = TaskEncoder()

    def f(x):
        y = to_ps(x)
        h = hsh(beh["sid"], y.uid)
        log("call", beh["sid"], (ident(x),))
        if beh.get("skip") and hsh(h, sidx(te)) % 64 < beh["skip"]:
            log("skip", beh["sid"])
            raise SkipSample()
        if beh.get("err") and hsh(h, "e", sidx(te)) % 64 < beh["err"]:
            log("err", beh["sid"])
            raise UserError("injected group key", beh["sid"])
        g = h % beh["groups"]
        n = None if beh.get("fixed") else 1 + (g + beh.get("gsz", 1)) % 3
        log("key", beh["sid"], g, n)
        return g, n

    return f


def make_prepack(beh):
    te = TaskEncoder()

    def f(xs):
        xs = list(xs)
        si = sidx(te)
        if LOG is not None:
            log("precall", beh["sid"], idents(xs))
        key = hsh(beh["sid"], si, [to_ps(x).uid for x in xs])
        if key % 64 < beh.get("preskip", 0):
            log("preskip", beh["sid"])
            raise SkipSample()
        if key % 64 < beh.get("preskip", 0) + beh.get("preerr", 0):
            log("preerr", beh["sid"])
            raise UserError("injected prepack", beh["sid"])
        r = random.Random(key)
        if beh.get("reorder"):
            r.shuffle(xs)
        out = []
        while xs:
            n = r.randint(1, beh["maxpack"])
            pack, xs = xs[:n], xs[n:]
            if beh.get("drop") and r.random() < 0.15 and (out or xs):
                continue
            out.append(pack)
        if LOG is not None:
            log("prepacks", beh["sid"], tuple(idents(p) for p in out))
        return out

    return f


# ------------------------------------------------------------------ generation


class Gen:
    def __init__(self, rng, W, world=1, allow_free=True, allow_err=True, small=True, one_ds=False):
        self.rng = rng
        self.W, self.world = W, world
        self.G = max(W, 1) * world
        self.ds = []
        self.n = 0
        self.allow_free, self.allow_err = allow_free, allow_err

    def sid(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def new_ds(self, min_total=None):
        r = self.rng
        spec = dsgen.rand_ds_spec(r, f"d{len(self.ds)}", min_total=self.G if min_total is None else min_total)
        if r.random() < 0.2:  # exclude some single samples; keep every worker slice non-empty is not needed: skips only
            total = sum(spec["shards"])
            if total >= 3 * self.G + 3:
                i = 0
                ex = []
                for s, cnt in enumerate(spec["shards"]):
                    for j in range(cnt):
                        if r.random() < 0.12 and cnt > 2:
                            ex.append(f"{dsgen.shard_name(s)}/{dsgen.key_of(spec['name'], i + j)}")
                    i += cnt
                spec["exclude"] = ex
        self.ds.append(spec)
        return len(self.ds) - 1

    def src(self, training):
        r = self.rng
        return dict(
            t="src", ds=self.new_ds(), training=training,
            soe=r.choice([1, 1, 1, 2, 3, -1]) if training else 1,
            psi=r.choice([None, 1, 2, 3, 4]) if training else None,  # without shuffling only one iterator is allowed
            mss=r.choice([None, None, 1, 2, 3, 5]),
        )

    def beh(self, p, restorable_needed=False, gen_ok=False, gen_multi=False):
        r = self.rng
        modes = ["plain", "plain", "seeded", "seeded"]
        if self.allow_free and not restorable_needed:
            modes += ["free", "free"]
        b = dict(sid=self.sid(p), mode=r.choice(modes), skip=r.choice([0, 0, 8, 16]))
        if self.allow_err:
            b["err"] = r.choice([0, 0, 0, 6])
        if gen_ok and r.random() < 0.4:
            b["gen"] = r.choice([2, 3]) if gen_multi else 1
            if self.allow_err and r.random() < 0.2:
                b["generr"] = 3
        return b

    def node(self, depth=0):
        """A random pipeline. Returns node dict with attributes inf (never ends), rest (samples restorable)."""
        r = self.rng
        x = r.random()
        if depth < 2 and x < 0.25:
            kids = [self.node(depth + 1) for _ in range(r.randint(2, 3))]
            w = [r.choice([1, 1, 2, 5, 0.3]) for _ in kids]
            if r.random() < 0.25:
                n = dict(t="mix", kids=kids, w=w, bs=r.randint(2, 3), sid=self.sid("x"), inf=True, rest=False)
            else:
                n = dict(t="blend", kids=kids, w=w, inf=True, rest=all(k["rest"] for k in kids))
        elif depth < 2 and x < 0.4:
            kids = []
            for _ in range(r.randint(2, 3)):
                k = self.src(False)
                k.update(inf=False, rest=True)
                if r.random() < 0.3:
                    k = self.wrap(k, only=("map", "limit", "batch"))
                kids.append(k)
            n = dict(t="concat", kids=kids, inf=False, rest=all(k["rest"] for k in kids))
        else:
            training = r.random() < 0.6
            n = self.src(training)
            n.update(inf=training, rest=True)
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            n = self.wrap(n)
        return n

    def wrap(self, k, only=None):
        r = self.rng
        ops = only or (
            "map", "map", "map", "filter", "itermap", "shuffle", "batch", "batch", "group", "pack",
            "limit", "repeat", "gc",
        )
        for _ in range(20):
            t = r.choice(ops)
            inf, rest = k["inf"], k["rest"]
            if t == "map":
                b = self.beh("m", gen_ok=True, gen_multi=rest)
                if b.get("gen") and not rest:
                    b.pop("gen")
                    b.pop("generr", None)
                if b.get("gen") and b["mode"] == "free":  # generators are re-run on resume: must be deterministic
                    b["mode"] = "seeded"
                return dict(t=t, kid=k, beh=b, inf=inf, rest=rest and is_stateless(b))
            if t == "filter":
                return dict(t=t, kid=k, beh=dict(sid=self.sid("f"), skip=r.choice([8, 24])), inf=inf, rest=rest)
            if t == "itermap":
                if not inf and k["t"] != "src":
                    continue
                return dict(t=t, kid=k, beh=dict(sid=self.sid("i"), skip=r.choice([0, 4]), err=r.choice([0, 0, 2]) if self.allow_err else 0),
                            inf=inf, rest=rest)
            if t == "shuffle":
                if not rest:
                    continue
                return dict(t=t, kid=k, n=r.choice([2, 3, 5, 12]), inf=inf, rest=True)
            if t == "batch":
                b = self.beh("b", gen_ok=rest, gen_multi=rest)
                if b.get("gen") and b["mode"] == "free":
                    b["mode"] = "seeded"
                return dict(t=t, kid=k, bs=r.choice([1, 2, 2, 3, 4]), drop=r.random() < 0.4, beh=b, inf=inf,
                            rest=rest and is_stateless(b))
            if t == "group":
                if not rest:
                    continue
                b = self.beh("g")
                b.update(groups=r.choice([1, 2, 3]), gsz=r.randint(1, 3), fixed=r.random() < 0.5)
                gk = dict(sid=b["sid"] + "k", groups=b["groups"], gsz=b["gsz"], fixed=b["fixed"],
                          skip=r.choice([0, 0, 6]), err=r.choice([0, 0, 4]) if self.allow_err else 0)
                return dict(t=t, kid=k, bs=r.choice([2, 3]) if b["fixed"] else None, drop=r.random() < 0.4, beh=b, gk=gk,
                            inf=inf, rest=rest and is_stateless(b))
            if t == "pack":
                if not rest:
                    continue
                b = self.beh("p", gen_ok=False)
                b.update(maxpack=r.choice([1, 2, 3]), reorder=r.random() < 0.5, drop=r.random() < 0.3,
                         preskip=r.choice([0, 0, 4]), preerr=r.choice([0, 0, 3]) if self.allow_err else 0)
                return dict(t=t, kid=k, n=r.choice([1, 2, 4, 7]), beh=b, inf=inf, rest=rest and is_stateless(b))
            if t == "epoch":
                return dict(t=t, kid=k, n=r.choice([1, 2, 3, 5, 8]) * max(self.W, 1) + r.randint(0, max(self.W, 1) - 1),
                            inf=False, rest=rest)
            if t == "limit":
                return dict(t=t, kid=k, n=r.choice([1, 2, 3, 5, 8]) * max(self.W, 1) + r.randint(0, max(self.W, 1) - 1),
                            reset=r.random() < 0.5, inf=False, rest=rest)
            if t == "repeat":
                if inf:
                    continue
                rep = r.choice([None, 2, 3])
                return dict(t=t, kid=k, n=rep, inf=rep is None, rest=rest)
            if t == "gc":
                return dict(t=t, kid=k, inf=inf, rest=rest)
        return k


BUFFERS = ("shuffle", "group", "pack")


def annotate(node, buffered=False):
    """Batch indices are only promised to be reproduced where samples are not re-created later from a buffer."""
    t = node["t"]
    if "beh" in node and t in ("map", "batch", "group", "pack"):
        node["beh"]["rec_b"] = not buffered and not node["beh"].get("gen")
    inner = buffered or t in BUFFERS or (t in ("map", "batch") and bool(node["beh"].get("gen")))
    for k in node.get("kids", []) + ([node["kid"]] if "kid" in node else []):
        annotate(k, inner)
    return node


def ops_of(node, acc=None):
    acc = [] if acc is None else acc
    acc.append(node["t"])
    for k in node.get("kids", []) + ([node["kid"]] if "kid" in node else []):
        ops_of(k, acc)
    return acc


def walk(node):
    yield node
    for k in node.get("kids", []) + ([node["kid"]] if "kid" in node else []):
        yield from walk(k)


def shape_of(node):
    """Structural signature (for distinct-coverage counting)."""
    t = node["t"]
    extra = ""
    if t == "src":
        extra = f"{'T' if node['training'] else 'V'}{node['soe']},{node['psi']},{node['mss']}"
    if "beh" in node:
        b = node["beh"]
        extra = b.get("mode", "") + (f"g{b['gen']}" if b.get("gen") else "") + ("s" if b.get("skip") else "") + ("e" if b.get("err") else "")
    kids = node.get("kids", []) + ([node["kid"]] if "kid" in node else [])
    return f"{t}[{extra}]({','.join(shape_of(k) for k in kids)})"


def gen_pipe(rng, W=None, allow_free=True, allow_err=True):
    W = rng.choice([0, 1, 2, 3, 4]) if W is None else W
    world = rng.choice([1, 1, 1, 2, 3])
    g = Gen(rng, W, world, allow_free=allow_free, allow_err=allow_err)
    node = g.node()
    if rng.random() < 0.25:
        node = g.wrap(node, only=("epoch",))
        if rng.random() < 0.4:
            node = g.wrap(node, only=("gc", "filter"))
    node = annotate(node)
    return dict(datasets=g.ds, node=node, W=W, world=world, rank=rng.randrange(world), seed_offset=rng.choice([0, 0, 7]))


# ------------------------------------------------------------------ building


def make_data(spec, root):
    return [dsgen.make_ds(root, d)[0] for d in spec["datasets"]]


def wcfg_of(spec, **kw):
    return WorkerConfig(
        rank=spec.get("rank", 0), world_size=spec.get("world", 1), num_workers=spec["W"],
        seed_offset=spec.get("seed_offset", 0), **kw,
    )


def build(node, paths, wcfg, handler=None, probes=None):
    ds = build_probed(node, paths, wcfg, handler, probes)
    return WRAP(node, ds, wcfg) if WRAP is not None else ds


#: Hook of the harness: (node, dataset, worker config) -> dataset
WRAP = None


def build_probed(node, paths, wcfg, handler=None, probes=None):
    if probes is None or node["t"] not in ("shuffle", "batch", "group", "pack"):
        return _build(node, paths, wcfg, handler, probes)
    inner = []
    outer = Probe(_build(node, paths, wcfg, handler, probes, inner), wcfg)
    probes.append((inner[0], outer))
    return outer


def _build(node, paths, wcfg, handler, probes, inner=None):
    handler = handler or quiet_handler
    t = node["t"]
    kid = build(node["kid"], paths, wcfg, handler, probes) if "kid" in node else None
    if inner is not None:
        kid = Probe(kid, wcfg)
        inner.append(kid)
    kids = [build(k, paths, wcfg, handler, probes) for k in node.get("kids", [])]
    if t == "src":
        f = _src_factory(node, paths, wcfg)
        return f.build(worker_rotation_offset=node.get("wro", 0))
    if t == "blend":
        return BlendDataset(*zip(kids, node["w"]), worker_config=wcfg)
    if t == "mix":
        def mixfn(xs):
            if LOG is not None:
                log("call", node["sid"], idents(xs))
            y = merge_ps(xs)
            r = dataclasses.replace(y, trace=list(y.trace) + [(node["sid"], sidx(TaskEncoder()))])
            log("ret", node["sid"], ident(r))
            return r
        return MixBatchDataset(*zip(kids, node["w"]), batch_size=node["bs"], batch_mix_fn=mixfn, worker_config=wcfg)
    if t == "concat":
        return ConcatDataset(*kids, worker_config=wcfg)
    if t == "map":
        return MapDataset(kid, make_fn(node["beh"]), error_handler=handler, stateless_map_fn=is_stateless(node["beh"]), worker_config=wcfg)
    if t == "filter":
        return FilterDataset(kid, filter_fn=make_filter(node["beh"]), worker_config=wcfg)
    if t == "itermap":
        return IterMapDataset(kid, make_itermap(node["beh"]), error_handler=handler, stateless_iter_fn=True, worker_config=wcfg)
    if t == "shuffle":
        return ShuffleBufferDataset(kid, size=node["n"], worker_config=wcfg)
    if t == "batch":
        return BatchDataset(kid, batch_size=node["bs"], batcher=make_fn(node["beh"]), batcher_stateless=is_stateless(node["beh"]),
                            drop_last=node["drop"], error_handler=handler, worker_config=wcfg)
    if t == "group":
        return GroupBatchDataset(kid, fixed_batch_size=node["bs"], sample_group_key=make_group(node["gk"]), batcher=make_fn(node["beh"]),
                                 batcher_stateless=is_stateless(node["beh"]), drop_last=node["drop"], error_handler=handler, worker_config=wcfg)
    if t == "pack":
        return PackingDataset(kid, buffer_size=node["n"], pre_packer=make_prepack(node["beh"]), final_packer=make_fn(node["beh"]),
                              final_packer_stateless=is_stateless(node["beh"]), error_handler=handler, worker_config=wcfg)
    if t == "epoch":
        return EpochizeDataset(kid, length=node["n"], worker_config=wcfg)
    if t == "limit":
        return LimitDataset(kid, length=node["n"], reset_after_epoch=node["reset"], worker_config=wcfg)
    if t == "repeat":
        return RepeatDataset(kid, repeats=node["n"], worker_config=wcfg)
    if t == "gc":
        return GcDataset(kid, worker_config=wcfg, every_n_iter=7)
    if t == "log":
        return LogSampleDataset(kid, mode="train", worker_config=wcfg)
    raise ValueError(t)


def dsgen_path(p):
    from megatron.energon.epathlib import EPath

    return EPath(p)


def _src_factory(node, paths, wcfg):
    from megatron.energon.dataset_config import get_dataset_from_config

    return get_dataset_from_config(
        dsgen_path(paths[node["ds"]]), training=node["training"], split_part=node.get("split", "train"), worker_config=wcfg,
        shuffle_over_epochs=node["soe"], parallel_shard_iters=node["psi"], max_samples_per_sequence=node["mss"],
    )


END = "END"


class Stream:
    """Pulls from a loader (anything iterable); a finished pass shows up as one END token."""

    def __init__(self, loader):
        self.loader = loader
        self.it = None

    def next(self):
        if self.it is None:
            self.it = iter(self.loader)
        try:
            return next(self.it)
        except StopIteration:
            self.it = None
            return END

    def take(self, n):
        return [self.next() for _ in range(n)]
