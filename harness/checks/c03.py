"""C03: resuming from a saved state continues the exact same sample stream."""
from harness import emul, pipes
from harness.resume import END, Pipe, close_loader, emu_streams, first_diff, fp, gen_any, reset_globals, roundtrip, short

PROPERTY = "C03"
LEVEL = "exploration"
RULE = (
    "Random compositions of the dataset wrappers over random synthetic webdatasets, and random TaskEncoder pipelines "
    "over (meta)datasets; the state is saved at random positions (biased to 0, 1 and epoch ends), round-tripped, "
    "restored into a freshly built pipeline, chained. An evaluation is one resumed worker or loader stream compared "
    "token by token (content, order, random draws, indexes, restore keys) with the uninterrupted one; it is "
    "non-trivial if at least one token was left to compare; distinct by pipeline structure, driver, position class."
)
ASSUMPTIONS = [
    "user functions are deterministic given the random draws and indexes they see",
    "workers emulated in-process see what torch's worker loop sets up (get_worker_info, seeds); a share of the cases "
    "uses the real forked loader",
]
MODES = ("emu", "emu", "emu", "real")


def plan(tier):
    if tier == "quick":
        return dict(n=400, shards=10, case_timeout=60, budget=150, min_evals=150,
                    need_events={"resumed_emu": 60, "resumed_loader": 25, "loader_with_workers": 10, "te_pipeline": 20})
    return dict(n=3000, shards=10, case_timeout=90, budget=560, min_evals=800,
                need_events={"resumed_emu": 300, "resumed_loader": 100, "loader_with_workers": 40, "te_pipeline": 80})


def gen(rng, idx, tier):
    mode = MODES[idx % len(MODES)]
    if mode == "emu":
        spec = gen_any(rng)
    else:
        W = rng.choice([0, 1, 2, 2, 3])
        # Without workers, the global random state belongs to the user, who would have to save it as well
        spec = gen_any(rng, W=W, te_share=0.5, allow_free=W > 0)
    return dict(mode=mode, spec=spec, seed=rng.randrange(1 << 30), hops=rng.choice([1, 1, 2, 3]),
                ck=rng.choice([{}, {"checkpoint_every_sec": 0}, {"checkpoint_every_sec": 0}]),
                rt=[rng.choice(["none", "pickle", "torch"]) for _ in range(4)], basic=rng.random() < 0.15)


def pos_class(k, ref):
    if k == 0:
        return "start"
    if ref[k - 1] == END:
        return "after_end"
    if k < len(ref) and ref[k] == END:
        return "at_end"
    return "mid"


def pick(rng, ref, lo, hi):
    """Save positions; biased to the interesting ones."""
    cand = [k for k in range(lo, hi + 1)]
    special = [k for k in cand if k == lo or k == lo + 1 or pos_class(k, ref) != "mid"]
    if special and rng.random() < 0.4:
        return rng.choice(special)
    return rng.choice(cand)


def align(got, ref, cands):
    """Positions in the reference after `got`, when resumed at one of the positions `cands`. An epoch end directly at
    the save point may or may not be reported again. Empty if `got` is not what the reference continues with."""
    res = set()
    for k in cands:
        for a in (k, k + 1) if k < len(ref) and ref[k] == END else (k,):
            want = ref[a : a + len(got)]
            if got[: len(want)] == want:
                res.add(a + len(got))
    return res


def run_case(case, rec):
    import random

    reset_globals()
    rng = random.Random(case["seed"])
    pipe = Pipe(case["spec"], rec.tmp)
    if pipe.te:
        rec.ev("te_pipeline")
    for op in ([n["t"] for n in pipes.walk(case["spec"]["node"])] if not pipe.te else ["te"]):
        rec.ev("op:" + op)
    try:
        if case["mode"] == "emu":
            emu_case(case, rec, rng, pipe)
        else:
            real_case(case, rec, rng, pipe)
    except pipes.Spin:
        rec.ev("degenerate_skipped")
    finally:
        reset_globals()


def emu_case(case, rec, rng, pipe):
    N = 34
    w = pipe.wcfg()
    refs, tails = emu_streams(pipe, N)
    rec.arm()
    pos = [{0} for _ in range(pipe.nw)]
    state, extra = None, [None] * pipe.nw
    tainted = [False] * pipe.nw
    for hop in range(case["hops"] + 1):
        last = hop == case["hops"]
        st, ex = [], []
        for k in range(pipe.nw):
            ref, start = refs[k], max(pos[k])
            t = N if last else pick(rng, ref, start, min(N - 4, start + 14))
            kw = {} if extra[k] is None else dict(index=extra[k][0], sysrng=extra[k][1])
            e = emul.EmuWorker(pipe.mk(w), w, k, state=roundtrip(state, "pickle"), **kw)
            got = [fp(x) for x in e.take(max(t - start, 0))]
            new = align(got, ref, pos[k]) if start < N else set()
            if hop and start < N - 1:
                rec.ev("resumed_emu")
                if got:
                    rec.evaluated(f"emu:{pipe.shape()}:{pos_class(start, ref)}:{hop}")
                if not new and tainted[k]:
                    # A state saved within the tail of a finite pass is a known limitation: see DESIGN.md
                    rec.violation("resume-in-tail", f"worker {k} at {pos[k]}: {pipe.shape()}")
                elif not new:
                    fail(rec, pipe, ref, pos[k], got, f"worker {k} hop {hop}", "emu")
            if not new:
                tainted[k] = True
                new = {min(N, start + len(got))}
            if any(0 < p <= N and tails[k][p - 1] for p in new):
                tainted[k] = True
                rec.ev("tail_positions")
            if max(new) >= N:
                tainted[k] = True
            s, x = e.save()
            st.append(s)
            ex.append(x)
            pos[k] = new
        if not last:
            state = roundtrip(pipe.mk(w).merge_states(st), rng.choice(case["rt"]))
            extra = ex
    rec.sample = dict(pipeline=pipe.shape(), W=pipe.W, positions=[sorted(p) for p in pos], hops=case["hops"], driver="emulated workers")


def fail(rec, pipe, ref, cands, got, what, driver):
    k = max(cands)
    j = first_diff(got, ref[k:])
    rec.violation(
        "resume",
        f"[{driver}] {what}: resumed at {sorted(cands)} ({pos_class(k, ref)}), token {j} after it differs; pipeline {pipe.shape()} W={pipe.W}\n"
        f"got  {short(got[j]) if j < len(got) else None}\nwant {short(ref[k + j]) if k + j < len(ref) else None}\n"
        f"epoch ends in the reference: {[q for q, x in enumerate(ref) if x == END]}",
    )


def real_case(case, rec, rng, pipe):
    N = rng.randint(16, 30)
    # The emulation also tells how many tokens there are, which positions are in a tail, and if the spec is degenerate
    refs, tails = emu_streams(pipe, N)
    rec.arm()
    loader = pipe.loader(case["ck"])
    s = pipes.Stream(loader)
    ref = [fp(x) for x in s.take(N)]
    close_loader(loader)
    gw = [pipe.wcfg().rank * pipe.nw + k for k in range(pipe.nw)]
    owner = [None if t == END else gw.index(restore_key_of(t)[1]) for t in ref]

    def classify(k):
        """None if a save at k (with the given reference) is outside of the known limitations."""
        cnt = [0] * pipe.nw
        ends = 0
        for t, o in zip(ref[:k], owner[:k]):
            if t == END:
                ends += 1
            else:
                cnt[o] += 1
        for q in range(pipe.nw):
            # position of worker q in its own stream, with the ends it passed
            seen, i = 0, 0
            while i < len(refs[q]) and seen < cnt[q]:
                seen += refs[q][i] != END
                i += 1
            if pipe.W and any(tails[q][: i + 1]) or (i and i - 1 < len(tails[q]) and tails[q][i - 1]):
                return "resume-in-tail"
            passed = sum(1 for x in refs[q][:i] if x == END)
            while passed < ends and i < len(refs[q]) and refs[q][i] == END:
                i += 1
                passed += 1
            # the worker is at the end of a pass of which the end was not reported yet
            if pipe.W > 1 and (not k or ref[k - 1] != END) and i < len(refs[q]) and refs[q][i] == END:
                return "resume-uneven-end"
        return None

    pos, state, first = {0}, None, 0
    loader = None
    bad = None
    for hop in range(case["hops"] + 1):
        loader = pipe.loader(case["ck"] if hop % 2 == 0 else {"checkpoint_every_sec": 0})
        if state is not None:
            if rng.random() < 0.5:
                loader.restore_state_rank(roundtrip(state, case["rt"][hop % 4]))
            else:
                loader.restore_state(roundtrip(state, case["rt"][hop % 4]))
        s = pipes.Stream(loader)
        last = hop == case["hops"]
        start = max(pos)
        t = N if last else pick(rng, ref, start, min(N - 3, start + 12))
        got = [fp(x) for x in s.take(t - start)]
        new = align(got, ref, pos)
        if hop:
            rec.ev("resumed_loader")
            if pipe.W:
                rec.ev("loader_with_workers")
            if len(got):
                rec.evaluated(f"real:{pipe.shape()}:W{pipe.W}:{pos_class(start, ref)}:{hop}")
            if not new and bad:
                rec.violation(bad, f"loader at {pos}: {pipe.shape()} W={pipe.W}")
                break
            if not new and first and any(align(got, rotated(ref, owner, p, first, pipe.W), {p}) for p in pos):
                # Known: after a resume at worker `first`, also the following passes start with that worker
                rec.violation("next-epoch-rotated", f"loader at {pos}, next worker {first}: {pipe.shape()} W={pipe.W}")
                break
            if not new:
                fail(rec, pipe, ref, pos, got, f"loader, hop {hop}, ck {case['ck']}, next worker {first}", "real")
                break
        if last:
            break
        state = loader.save_state_rank() if rng.random() < 0.5 else loader.save_state()
        first = 0 if state is None or pipe.W == 0 else state.next_worker_id
        if rng.random() < 0.3:
            # keep on using the saving loader while its state is used elsewhere
            s.take(2)
        close_loader(loader)
        pos = new
        if max(pos) >= N - 1:
            break
        bad = bad or next((c for c in map(classify, pos) if c), None)
    close_loader(loader)
    rec.sample = dict(pipeline=pipe.shape(), W=pipe.W, positions=sorted(pos), hops=case["hops"], driver="forked loader", N=N)


def restore_key_of(tok):
    return next(x[1] for x in tok[1:] if isinstance(x, tuple) and len(x) == 2 and x[0] == "__restore_key__")


def rotated(ref, owner, pos, first, W):
    """The reference with each pass after the current one starting at worker `first`."""
    out = list(ref)
    ends = [i for i, x in enumerate(ref) if x == END and i >= pos]
    for a, b in zip(ends, ends[1:] + [len(ref)]):
        seg = list(range(a + 1, b))
        per = {}
        for i in seg:
            per.setdefault(owner[i], []).append(ref[i])
        order = [(first + j) % W for j in range(W)]
        res = []
        while len(res) < len(seg):
            for k in order:
                if per.get(k):
                    res.append(per[k].pop(0))
        out[a + 1 : b] = res
    # The last pass is not complete: cannot tell its order
    return out[: ends[-1] + 1] if ends else out
