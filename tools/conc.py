"""Threaded checks: scenario generators, running them under the controlled scheduler, trace validation (TraceConc)."""
import json, os, random, sys
import gen, vp
from gen import V, L, U, N, E, C, ERR


class Cs(gen.Sc):
    def __init__(self, label="", seed=0):
        super().__init__(seed)
        self.label = label
        self.setup, self.threads, self.fin, self.x = [], [], [], []
        self.settle, self.pt = 100, 0
        self.sched = None

    def thr(self, scripts, pol=0):
        """a source that emits on a thread of its own, started by the subscription"""
        self.srcs.append({"hot": 0, "thr": 1, "s": scripts, "pol": pol})
        return self.node("src", p=len(self.srcs))

    def desc(self, f, **k): self.x.append(dict(k, f=f))

    def go(self, *acts):
        self.threads.append([list(a) for a in acts])
        return self

    def json(self, id):
        return {"id": id, "seed": self.seed, "label": self.label, "nodes": self.nodes, "srcs": self.srcs, "sjs": self.sjs,
                "cns": self.cns, "reacts": self.reacts, "setup": self.setup, "threads": self.threads, "fin": self.fin,
                "settle": self.settle, "pt": self.pt, "x": self.x, "sched": self.sched}


def emit(n, ev, k=1): return ["emit", n, k, ev[0], ev[1]]
def sj(j, ev): return ["sj", j, ev[0], ev[1]]
def script(base, n, term=C): return [N(base + i + 1) for i in range(n)] + ([term] if term else [])


# ------------------------------------------------------------------ C08
def c08(rng, n, tier):
    out = []

    def sc(label): s = Cs(label); out.append(s); return s
    # one producer, no abort / abort from outside / abort from inside, at every place
    for m in (1, 2, 3):
        s = sc("posts"); s.setup = [["qnew", 1, "new"]]
        s.go(*[["post", 1, i + 1, []] for i in range(m)])
        s.fin = [["settle", 5], ["abort", 1]]
        s = sc("posts, never aborted"); s.setup = [["qnew", 1, "new"]]; s.go(*[["post", 1, i + 1, []] for i in range(m)])
        s = sc("abort races"); s.setup = [["qnew", 1, "new"]]
        s.go(*[["post", 1, i + 1, []] for i in range(m)]).go(["abort", 1])
        for k in range(1, m + 1):
            s = sc("abort inside"); s.setup = [["qnew", 1, "new"]]
            s.go(*[["post", 1, i + 1, [["abort", 1]] if i + 1 == k else []] for i in range(m)])
            s = sc("post inside"); s.setup = [["qnew", 1, "new"]]
            s.go(*[["post", 1, i + 1, [["post", 1, 11, []], ["post", 1, 12, []]] if i + 1 == k else []] for i in range(m)])
            s.fin = [["settle", 5], ["abort", 1]]
    # idle before, posts after quiet periods (wake-ups)
    s = sc("wake-ups"); s.setup = [["qnew", 1, "new"], ["settle", 5], ["post", 1, 1, []], ["settle", 5], ["post", 1, 2, []],
                                   ["post", 1, 3, []], ["settle", 5]]
    s.fin = [["abort", 1]]
    s = sc("wake-ups"); s.setup = [["qnew", 1, "new"], ["settle", 5]]; s.go(["post", 1, 1, []]).go(["post", 1, 2, []])
    s = sc("abort an idle worker"); s.setup = [["qnew", 1, "new"], ["settle", 5], ["abort", 1]]
    s = sc("abort at once"); s.setup = [["qnew", 1, "new"], ["abort", 1], ["post", 1, 1, []]]
    s = sc("abort twice"); s.setup = [["qnew", 1, "new"], ["post", 1, 1, [["sleep", 2]]]]; s.go(["abort", 1]).go(["abort", 1], ["post", 1, 2, []])
    s = sc("two posters"); s.setup = [["qnew", 1, "new"]]; s.go(["post", 1, 1, []], ["post", 1, 2, []]).go(["post", 1, 3, []], ["post", 1, 4, []])
    s.fin = [["settle", 5], ["abort", 1]]
    s = sc("two posters, abort"); s.setup = [["qnew", 1, "new"]]; s.go(["post", 1, 1, []], ["post", 1, 2, []]).go(["post", 1, 3, []]).go(["abort", 1])
    s = sc("abort while a task runs"); s.setup = [["qnew", 1, "new"], ["post", 1, 1, [["sleep", 3]]], ["post", 1, 2, []]]
    s.go(["sleep", 1], ["abort", 1], ["post", 1, 3, []])
    s = sc("two queues"); s.setup = [["qnew", 1, "new"], ["qnew", 2, "new"]]
    s.go(["post", 1, 1, [["post", 2, 21, []]]], ["post", 2, 2, [["post", 1, 12, []]]])
    s.fin = [["settle", 5], ["abort", 1], ["abort", 2]]
    s = sc("default"); s.setup = [["qnew", 1, "def"], ["post", 1, 1, []], ["post", 1, 2, [["post", 1, 3, []]]], ["abort", 1], ["post", 1, 4, []]]
    s = sc("default, two threads"); s.setup = [["qnew", 1, "def"]]; s.go(["post", 1, 1, []], ["post", 1, 2, []]).go(["post", 1, 3, []])
    # random programs
    while len(out) < n:
        s = sc("random")
        nq = rng.choice([1, 1, 1, 2])
        s.setup = [["qnew", q + 1, rng.choice(["new"] * 5 + ["def"])] for q in range(nq)]
        ids = iter(range(1, 100))

        def post(depth=0):
            body = []
            q = rng.randrange(nq) + 1
            i = next(ids)
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                x = rng.random()
                if x < .3: body.append(["sleep", rng.randrange(1, 4)])
                elif x < .5: body.append(["p"])
                elif x < .8 and depth < 2: body.append(post(depth + 1))
                elif x < .9: body.append(["abort", rng.randrange(nq) + 1])
            return ["post", q, i, body]
        for _ in range(rng.choice([1, 2, 2, 3])):
            acts = []
            for _ in range(rng.randrange(1, 4)):
                x = rng.random()
                acts.append(post() if x < .75 else ["sleep", rng.randrange(1, 4)] if x < .85 else ["settle", 1] if x < .9 else ["abort", rng.randrange(nq) + 1])
            s.go(*acts)
        s.fin = [["settle", 20]] + ([["abort", q + 1] for q in range(nq)] if rng.random() < .7 else [])
    return out


# ------------------------------------------------------------------ C09
def c09(rng, n, tier):
    out = []
    PURE = [("map", [0, 1, 5]), ("filter", [1, 2, 4]), ("take", [1, 2]), ("skip", [1, 2])]

    def sc(label): s = Cs(label); out.append(s); return s

    def ops(s, x, k):
        o = []
        for _ in range(k):
            op, ps = rng.choice(PURE)
            p = rng.choice(ps)
            x = s.node(op, [x], p=p)
            o.append([op, p])
        return x, o

    def pipe(s, x, r, n, k, spec):
        """spec: string of hand-overs o (observe_on), s (subscribe_on), d (default schedulers), . (a pure operator)"""
        o = []
        for ch in spec:
            if ch == "o": x = s.node("obs_new", [x])
            elif ch == "s": x = s.node("sub_new", [x])
            elif ch == "d": x = s.node(rng.choice(["obs_def", "sub_def"]), [x])
            else:
                x, q = ops(s, x, 1)
                o += q
        s.desc("HAND", r=r, n=n, k=k, ops=o, dl=int("o" in spec), sw=int("s" in spec))
        return x

    evs = [[N(1), C], [N(1), N(2), C], [N(1), N(2), N(3), E(4)], [C], [E(1)], [N(1), N(2)], [N(1), C, N(2), C], [N(1), E(2), N(3)]]
    for spec in ("o", "s", "os", "so", "oo", "ss", ".o", "o.", "s.", ".s"):
        for ev in evs if spec in ("o", "s") else evs[1:3]:
            for mode in ("hot", "cold", "thr"):
                s = sc(spec + " " + mode)
                if mode == "hot":
                    x = s.hot()
                    s.setup = [["sub", 1, 0]]
                    s.go(["await", 1, 1], *[emit(1, e) for e in ev])
                else:
                    x = s.cold([ev], pol=0) if mode == "cold" else s.thr([ev])
                    s.setup = [["sub", 1, 0]]
                s.setup[0][2] = pipe(s, x, 1, 1, 1, spec)
        # unsubscribing at some moment
        for mode in ("hot", "thr"):
            s = sc(spec + " unsub " + mode)
            ev = [N(1), N(2), N(3)] + ([C] if rng.random() < .5 else [])
            x = s.hot() if mode == "hot" else s.thr([ev])
            s.setup = [["sub", 1, pipe(s, x, 1, 1, 1, spec)]]
            if mode == "hot" and "s" in spec:
                # (the worker may never subscribe the source)
                s.go(*[emit(1, e) for e in ev])
            elif mode == "hot":
                s.go(["await", 1, 1], *[emit(1, e) for e in ev])
            s.go(["unsub", 1])
            s = sc(spec + " unsub then emit")
            x = s.hot()
            s.setup = [["sub", 1, pipe(s, x, 1, 1, 1, spec)], ["await", 1, 1]]
            s.go(emit(1, N(1)), ["unsub", 1], emit(1, N(2)), emit(1, C))
            s = sc(spec + " unsub in callback")
            x = s.hot() if mode == "hot" else s.thr([ev])
            s.setup = [["sub", 1, pipe(s, x, 1, 1, 1, spec)]]
            s.react(1, 1, ["unsub", 1])
            if mode == "hot": s.go(["await", 1, 1], *[emit(1, e) for e in ev])
    # two subscriptions of the same observable
    for spec in ("o", "s"):
        s = sc("twice " + spec)
        x = s.cold([[N(1), N(2), C]], pol=0)
        y = pipe(s, x, 1, 1, 1, spec)
        s.desc("HAND", r=2, n=1, k=2, ops=s.x[0]["ops"], dl=int("o" in spec), sw=int("s" in spec))
        s.setup = [["sub", 1, y], ["await", 1, 1], ["sub", 2, y]]
    # two producers into one observe_on
    s = sc("two producers"); x = s.hot(); s.setup = [["sub", 1, pipe(s, x, 1, 1, 1, "o")]]
    s.go(emit(1, N(1)), emit(1, N(2))).go(emit(1, N(11)), emit(1, N(12)))
    s = sc("two producers, terminal"); x = s.hot(); s.setup = [["sub", 1, pipe(s, x, 1, 1, 1, "o")]]
    s.go(emit(1, N(1)), emit(1, N(2))).go(emit(1, N(11)), emit(1, C))
    # slow consumers, slow producers
    for spec in ("o", "so", "os"):
        s = sc("slow consumer " + spec); x = s.thr([[N(1), N(2), N(3), C]])
        s.setup = [["sub", 1, pipe(s, x, 1, 1, 1, spec)]]; s.react(1, 0, ["sleep", 5])
        s = sc("slow producer " + spec); x = s.thr([[N(1), ["w", 5], N(2), ["w", 5], N(3), ["w", 5], C]])
        s.setup = [["sub", 1, pipe(s, x, 1, 1, 1, spec)]]
    while len(out) < n:
        s = sc("random")
        for r in range(1, rng.choice([1, 1, 2]) + 1):
            ev = [N(10 * r + i) for i in range(rng.randrange(4))] + rng.choice([[C], [C], [E(3)], []])
            ev2 = []
            for e in ev:
                if rng.random() < .15: ev2.append(["w", rng.randrange(1, 4)])
                ev2.append(e)
            mode = rng.choice(["hot", "cold", "thr", "thr"])
            spec = rng.choice(["o", "s", "os", "so", "oo", "ss", ".o", "o.", "s.", ".s", "o.o", "s.o", "os.", "do", "od", "sd"])
            x = s.hot() if mode == "hot" else s.cold([ev2], pol=0) if mode == "cold" else s.thr([ev2])
            y = pipe(s, x, r, len(s.srcs), 1, spec)
            s.setup.append(["sub", r, y])
            un = rng.random() < .25
            if mode == "hot":
                s.go(*([] if un and "s" in spec else [["await", len(s.srcs), 1]]), *[emit(len(s.srcs), e) for e in ev])
            if un: s.go(["unsub", r])
            elif rng.random() < .15: s.react(r, 1, ["unsub", r])
            elif rng.random() < .2: s.react(r, 0, ["sleep", 2])
    return out


# ------------------------------------------------------------------ C11
def combined(rng, s, kind, r, m=2, items=2, terms=None, mode=None, lim=0):
    """r subscribed to a combinator of m threaded inputs; returns the acts"""
    base = [1000 * (i + 1) for i in range(m + 1)]
    terms = terms or [C] * (m + 1)
    cnt = [items if isinstance(items, int) else items[i % len(items)] for i in range(m + 1)]
    mode = mode or rng.choice(["thr", "hot"])
    if kind in ("flat", "flatm") and (lim or any(t[0] != "c" for t in terms)): mode = "thr"   # an inner source may never be subscribed
    acts = []

    def source(i):
        ev = script(base[i], cnt[i], terms[i])
        if mode == "hot" and kind not in ("concat",):
            x = s.hot()
            acts.append([["await", len(s.srcs), 1]] + [emit(len(s.srcs), e) for e in ev])
        else:
            x = s.thr([ev])
        return x, len(s.srcs)
    grp = []
    if kind == "flat":
        # the outer source's items choose the inner sources
        inner = [source(i) for i in range(m)]
        s.srcs.append({"hot": 0, "thr": 1, "s": [[N(i) for i in range(m)] + [terms[m]]], "pol": 0})
        outer = s.node("src", p=len(s.srcs))
        x = s.node("flat_map", [outer] + [i[0] for i in inner])
        grp = [[i[1]] for i in inner]
    elif kind == "flat2":
        # every outer item becomes the same inner source again
        s.srcs.append({"hot": 0, "thr": 1, "s": [script(base[i], cnt[i], terms[i]) for i in range(m)], "pol": 0})
        inner = s.node("src", p=len(s.srcs))
        grp = [[len(s.srcs)]]
        s.srcs.append({"hot": 0, "thr": 1, "s": [[N(i) for i in range(m)] + [terms[m]]], "pol": 0})
        x = s.node("flat_map", [s.node("src", p=len(s.srcs)), inner])
    elif kind == "flatm":
        # the outer source emits on several threads at once: inner sources are subscribed concurrently
        inner = [source(i) for i in range(m)]
        outer = []
        for ix in (range(0, m, 2), range(1, m, 2)):
            s.srcs.append({"hot": 0, "thr": 1, "s": [[N(i) for i in ix] + [terms[m]]], "pol": 0})
            outer.append(s.node("src", p=len(s.srcs)))
        x = s.node("flat_map", [s.node("merge", outer)] + [i[0] for i in inner])
        grp = [[i[1]] for i in inner]
    elif kind == "nest":
        a, b, c = source(0), source(1), source(2)
        x = s.node(rng.choice(["merge", "concat"]) if mode == "thr" else "merge", [s.node("merge", [a[0], b[0]]), c[0]])
        grp = [[a[1]], [b[1]], [c[1]]]
        kind = "bag"
    elif kind == "ambm":
        a, b, c = source(0), source(1), source(2)
        x = s.node("amb", [s.node("merge", [a[0], b[0]]), c[0]])
        grp = [[a[1], b[1]], [c[1]]]
        kind = "amb"
    else:
        ins = [source(i) for i in range(m)]
        x = s.node(kind, [i[0] for i in ins])
        grp = [[i[1]] for i in ins]
    sh = 0
    if kind != "zip" and rng.random() < .2:
        x, sh = s.node("map", [x], p=5), 5
    if lim:
        x = s.node("take", [x], p=lim)
    err = int(any(t[0] != "c" for t in terms))
    s.desc("COMB", r=r, kind=kind if kind in ("zip", "amb") else "bag", lim=lim, err=err, sh=sh, grp=grp, k=0)
    s.setup.append(["sub", r, x])
    for a in acts: s.go(*a)
    return x


BIGSCHED = [{"k": "rand", "num": 1, "den": 4, "n": 40}, {"k": "rand", "num": 1, "den": 20, "n": 40}, {"k": "pct", "d": 4, "len": 400, "n": 60}]


def c11(rng, n, tier):
    out = []

    def sc(label): s = Cs(label); out.append(s); return s
    for kind in ("merge", "zip", "concat", "amb", "flat", "flat2", "flatm", "nest", "ambm"):
        for items in (1, 2, (0, 1), (2, 1), (1, 0), (0, 0)):
            for mode in ("thr", "hot"):
                s = sc(kind); combined(rng, s, kind, 1, 2, items, mode=mode)
        for lim in (1, 2):
            s = sc(kind + " take"); combined(rng, s, kind, 1, 2, 2, lim=lim)
        s = sc(kind + " err"); combined(rng, s, kind, 1, 2, 2, terms=[C, E(1), C])
        s = sc(kind + " err"); combined(rng, s, kind, 1, 2, 1, terms=[E(2), E(1), C])
        s = sc(kind + " slow callbacks"); combined(rng, s, kind, 1, 2, 2); s.pt = 1
        if kind in ("merge", "zip", "amb", "concat"):
            s = sc(kind + " 3"); combined(rng, s, kind, 1, 3, 1)
    while len(out) < n:
        kind = rng.choice(["merge", "zip", "concat", "amb", "flat", "flat2", "flatm", "nest", "ambm"])
        big = rng.random() < .15
        s = sc(("big " if big else "random ") + kind)
        m = rng.choice([3, 4, 5] if big else [2, 2, 3, 4])
        terms = [C] * (m + 1)
        if rng.random() < .2: terms[rng.randrange(m)] = E(rng.randrange(5))
        combined(rng, s, kind, 1, m, [rng.randrange(10 if big else 4) for _ in range(m)], terms=terms, lim=rng.choice([0, 0, 0, 1, 2, 3] + [7] * big))
        if big: s.sched = BIGSCHED; s.keep = 10
        s.pt = int(rng.random() < .3)
    return out


# ------------------------------------------------------------------ C12
def c12(rng, n, tier):
    out = []

    def sc(label): s = Cs(label); out.append(s); return s

    def subject(s, kind, rs):
        x, j = s.subj(kind, 900)
        s.desc("MSUB", j=j, kind=kind, init=900, rs=rs)
        return x, j
    def pushes(j, p, m): return [sj(j, N(10 * p + i + 1)) for i in range(m)]
    for kind in ("plain", "behavior", "replay"):
        for (a, b) in ((1, 1), (2, 1), (2, 2)):
            s = sc(kind + " producers"); x, j = subject(s, kind, [1]); s.setup = [["sub", 1, x]]
            s.go(*pushes(j, 1, a)).go(*pushes(j, 2, b))
            s = sc(kind + " late"); x, j = subject(s, kind, [1, 2]); s.setup = [["sub", 1, x]]
            s.go(*pushes(j, 1, a)).go(["sub", 2, x])
            s = sc(kind + " late"); x, j = subject(s, kind, [1]); s.setup = [["build", x]] + pushes(j, 3, b)
            s.go(*pushes(j, 1, a)).go(["sub", 1, x])
            s = sc(kind + " late, two producers"); x, j = subject(s, kind, [1]); s.setup = [["build", x]]
            s.go(*pushes(j, 1, a)).go(*pushes(j, 2, b)).go(["sub", 1, x])
            s = sc(kind + " leaving"); x, j = subject(s, kind, [1, 2]); s.setup = [["sub", 1, x], ["sub", 2, x]]
            s.go(*pushes(j, 1, a + 1)).go(["unsub", 1])
            s = sc(kind + " come and go"); x, j = subject(s, kind, [1]); s.setup = [["build", x]]
            s.go(*pushes(j, 1, a + 1)).go(["sub", 1, x], ["unsub", 1])
        s = sc(kind + " two late"); x, j = subject(s, kind, [1, 2]); s.setup = [["build", x]]
        s.go(*pushes(j, 1, 2)).go(["sub", 1, x]).go(["sub", 2, x])
        s = sc(kind + " slow callback"); x, j = subject(s, kind, [1, 2]); s.setup = [["sub", 2, x]]; s.pt = 1
        s.go(*pushes(j, 1, 2)).go(["sub", 1, x])
        s = sc(kind + " and complete"); x, j = subject(s, kind, [1, 2]); s.setup = [["sub", 2, x]]
        s.go(*pushes(j, 1, 2)).go(sj(j, C)).go(["sub", 1, x])
        s = sc(kind + " then complete"); x, j = subject(s, kind, [1]); s.setup = [["build", x]]
        s.go(*pushes(j, 1, 2), sj(j, C)).go(["sub", 1, x])
        s = sc(kind + " subscribe in callback"); x, j = subject(s, kind, [1, 2]); s.setup = [["sub", 1, x]]
        s.react(1, 1, ["sub", 2, x]); s.go(*pushes(j, 1, 2)).go(*pushes(j, 2, 1))
    s = sc("ready_set_go"); x, j = subject(s, "plain", []); y = s.node("rsgt", [x], p=j, a=[V(1), V(2)]); s.x[0]["rs"] = [1]
    s.setup = [["sub", 1, y]]
    while len(out) < n:
        kind = rng.choice(["plain", "behavior", "replay", "replay"])
        big = rng.random() < .15
        s = sc(("big " if big else "random ") + kind)
        if big: s.sched = BIGSCHED; s.keep = 10
        nr = rng.choice([3, 4, 5] if big else [1, 2, 2, 3])
        x, j = subject(s, kind, list(range(1, nr + 1)))
        s.setup = [["build", x]]
        later = []
        for r in range(1, nr + 1):
            if rng.random() < .35: s.setup.append(["sub", r, x])
            else: later.append(r)
        if rng.random() < .4: s.setup += pushes(j, 9, rng.randrange(1, 3))
        for p in range(1, rng.choice([1, 2, 2, 3]) + 1):
            a = pushes(j, p, rng.randrange(1, 9 if big else 4))
            if rng.random() < .3: a.insert(rng.randrange(len(a) + 1), ["sleep", 1])
            s.go(*a)
        for r in later:
            a = [["sub", r, x]]
            if rng.random() < .3: a.append(["unsub", r])
            if rng.random() < .2: a.insert(0, ["sleep", 1])
            s.go(*a)
        for r in range(1, nr + 1):
            if r not in later and rng.random() < .3: s.go(["unsub", r])
        if rng.random() < .2: s.go(sj(j, rng.choice([C, E(1)])))
        s.pt = int(rng.random() < .3)
    return out


# ------------------------------------------------------------------ C19 (C05, C01 threaded)
def c19(rng, n, tier):
    out = []

    def sc(label): s = Cs(label); out.append(s); return s
    for kind in ("merge", "zip", "amb", "flat", "flat2", "flatm", "nest", "combine", "switch"):
        for terms in ([E(1), E(2), C], [C, E(1), C], [E(1), C, C], [C, C, C]):
            for items in (1, (2, 1)):
                if kind in ("combine", "switch"):
                    s = sc(kind); a = s.thr([script(1000, 2, terms[0])]); b = s.thr([script(2000, 1, terms[1])])
                    s.setup = [["sub", 1, s.node(kind, [a, b])]]
                else:
                    s = sc(kind); combined(rng, s, kind, 1, 2, items, terms=terms); s.x = []
                s.pt = rng.choice([0, 1])
    for kind in ("take_until", "skip_until", "sample", "retry2", "resume"):
        for ta in (C, E(1), None):
            for tb in (C, E(2), None):
                s = sc(kind)
                a, b = s.thr([script(0, 2, ta)]), s.thr([script(10, 1, tb)])
                if kind == "retry2": x = s.node("merge", [s.node("retry", [a], p=2), b])
                elif kind == "resume": x = s.node("merge", [s.node("resume", [a, b]), s.thr([script(20, 1, C)])])
                else: x = s.node(kind, [a, b])
                s.setup = [["sub", 1, x]]
                s.pt = rng.choice([0, 1])
    for kind in ("plain", "behavior", "replay", "async"):
        for t1 in (C, E(1)):
            for t2 in (C, E(2)):
                s = sc(kind); x, j = s.subj(kind); s.setup = [["sub", 1, x], ["sub", 2, x]]
                s.go(sj(j, N(1)), sj(j, t1)).go(sj(j, t2), sj(j, N(2)))
                s = sc(kind + " 3"); x, j = s.subj(kind); s.setup = [["sub", 1, x]]
                s.go(sj(j, t1)).go(sj(j, t2)).go(sj(j, N(3)), sj(j, N(4)))
                s.pt = 1
                s = sc(kind + " late"); x, j = s.subj(kind); s.setup = [["build", x], sj(j, N(1))]
                s.go(sj(j, t1), sj(j, N(5))).go(["sub", 1, x], sj(j, N(6))).go(sj(j, t2))
        s = sc(kind + " unsub"); x, j = s.subj(kind); s.setup = [["sub", 1, x], sj(j, N(1))]
        s.go(sj(j, N(2)), sj(j, C)).go(["unsub", 1], sj(j, N(3)), ["is", 1])
    # one observer called from two threads directly
    for t1 in (C, E(1), N(1)):
        for t2 in (C, E(2), N(2)):
            for op in (None, "map", "take", "scan", "tap"):
                s = sc("direct"); x = s.hot(); y = s.node(op, [x], p=1) if op else x; s.setup = [["sub", 1, y]]
                s.go(emit(1, t1), emit(1, N(5))).go(emit(1, t2), emit(1, C), ["is", 1])
                s.pt = rng.choice([0, 1])
    # nested and repeated terminals behind a slow callback
    for op in ("merge", "amb", "take_until"):
        for t1 in (C, E(1)):
            s = sc(op + " two threads"); x = s.hot(); y = s.hot(); s.setup = [["sub", 1, s.node(op, [x, y])]]
            s.go(emit(1, N(1)), emit(1, N(2))).go(emit(1, N(3)), emit(1, t1)).go(emit(2, N(4)), emit(2, t1))
            s.pt = rng.choice([0, 1])
    for s in out:
        if s.label.split()[0] in ("merge", "amb", "plain", "behavior", "replay", "take_until") or \
           s.label == "direct" and all(x["op"] in ("src", "tap", "take") for x in s.nodes): s.desc("CONT")
    out += c19_random(rng, n - len(out))
    return out


def c19_random(rng, n):
    out = []

    def sc(label): s = Cs(label); out.append(s); return s
    while len(out) < n:
        s = sc("random")
        ins = []
        for i in range(rng.choice([2, 2, 3])):
            t = rng.choice([C, C, E(i), None])
            x = rng.random()
            if x < .5: ins.append(s.thr([script(100 * i, rng.randrange(3), t)]))
            elif x < .8:
                ins.append(s.hot())
                s.go(*[emit(len(s.srcs), e) for e in script(100 * i, rng.randrange(3), t)])
            else:
                x, j = s.subj(rng.choice(["plain", "replay", "behavior"]))
                ins.append(x)
                s.go(*[sj(j, e) for e in script(100 * i, rng.randrange(3), t)])
        for i in range(len(ins)):
            if rng.random() < .3: ins[i] = gen.unary(s, rng, ins[i], ["map", "filter", "take", "scan", "tap", "mat", "buffer", "take_while", "distinct"])
        x = gen.nary(s, rng, rng.choice(gen.NARY), ins)
        if rng.random() < .4: x = gen.unary(s, rng, x, ["map", "take", "tap", "buffer", "skip", "count"])
        if rng.random() < .3: x = gen.nary(s, rng, rng.choice(["merge", "take_until", "sample", "amb"]), [x, s.thr([script(900, 1, rng.choice([C, E(9), None]))])])
        s.setup = [["sub", 1, x]]
        if rng.random() < .3: s.go(["unsub", 1], ["is", 1])
        if rng.random() < .2: s.react(1, rng.choice([1, 2]), rng.choice([["unsub", 1], ["sub", 2, x]]))
        s.pt = int(rng.random() < .4)
    return out


# ------------------------------------------------------------------ C15
def c15(rng, n, tier):
    out = []

    def sc(label, p): s = Cs(label); s.settle = 200; s.desc("WORK", p=p); out.append(s); return s

    def timed(s, rng, depth=2, fin=True):
        """a pipeline that owns threads; returns node and longest period"""
        k = rng.choice(["interval", "interval", "timer", "thr", "thr"]) if depth <= 0 or rng.random() < .4 else \
            rng.choice(["obs_new", "sub_new", "debounce", "timeout", "delay", "merge", "amb", "zip", "take_until", "sample", "flat", "take",
                        "map", "concat", "skip_until", "switch", "retry", "combine", "tap", "start_with"])
        d = rng.choice([3, 5, 8])
        if k in ("interval", "timer"): return s.node(k, p=d), d
        if k == "thr": return s.thr([script(0, rng.randrange(3), rng.choice([C, E(1), None, C]))], pol=1), 0
        a, p = timed(s, rng, depth - 1)
        if k in ("obs_new", "sub_new"): return s.node(k, [a]), p
        if k in ("debounce", "timeout", "delay"): return s.node(k, [a], p=d), max(p, d) + (d if k == "delay" else 0)
        if k == "take": return s.node("take", [a], p=rng.choice([1, 2])), p
        if k == "map": return s.node("map", [a], p=1), p
        if k == "tap": return s.node("tap", [a]), p
        if k == "retry": return s.node("retry", [a], p=2), p
        if k == "start_with": return s.node("start_with", [a], a=[V(1)]), p
        b, q = timed(s, rng, depth - 1)
        if k == "flat": return s.node("flat_map", [a, b]), max(p, q)
        return s.node(k, [a, b]), max(p, q)

    def basic():
        mk = {
            "interval": lambda s: s.node("interval", p=5), "timer": lambda s: s.node("timer", p=5),
            "obs": lambda s: s.node("obs_new", [s.thr([script(0, 2)], pol=1)]),
            "sub": lambda s: s.node("sub_new", [s.cold([script(0, 2)])]),
            "subhot": lambda s: s.node("sub_new", [s.hot()]), "obshot": lambda s: s.node("obs_new", [s.hot()]),
            "subnever": lambda s: s.node("sub_new", [s.node("never")]),
            "subrepeat": lambda s: s.node("sub_new", [s.node("repeat", a=[V(1)])]),
            "subinterval": lambda s: s.node("sub_new", [s.node("interval", p=5)]),
            "obsinterval": lambda s: s.node("obs_new", [s.node("interval", p=5)]),
            "subintervaldef": lambda s: s.node("sub_new", [s.node("interval_def", p=5)]),
            "debounce": lambda s: s.node("debounce", [s.node("interval", p=3)], p=5),
            "debouncehot": lambda s: s.node("debounce", [s.hot()], p=5),
            "timeout": lambda s: s.node("timeout", [s.node("interval", p=3)], p=5),
            "timeoutfires": lambda s: s.node("timeout", [s.node("interval", p=5)], p=3),
            "timeouthot": lambda s: s.node("timeout", [s.thr([[N(1), ["w", 2], N(2), ["w", 1], C]])], p=5),
            "timeoutobs": lambda s: s.node("obs_new", [s.node("timeout", [s.node("interval", p=3)], p=5)]),
            "delay": lambda s: s.node("delay", [s.node("interval", p=3)], p=2),
            "trigger": lambda s: s.node("take_until", [s.node("interval", p=5), s.node("timer", p=12)]),
            "amb": lambda s: s.node("amb", [s.node("interval", p=5), s.node("interval", p=3)]),
            "ambtimer": lambda s: s.node("amb", [s.node("timer", p=5), s.node("interval", p=3)]),
            "merge": lambda s: s.node("merge", [s.node("interval", p=5), s.node("timer", p=3)]),
            "zip": lambda s: s.node("zip", [s.node("interval", p=5), s.node("interval", p=3)]),
            "concat": lambda s: s.node("concat", [s.node("timer", p=3), s.node("interval", p=5)]),
            "sample": lambda s: s.node("sample", [s.node("interval", p=3), s.node("interval", p=5)]),
            "flat": lambda s: s.node("flat_map", [s.node("interval", p=5), s.node("interval", p=4)]),
            "switch": lambda s: s.node("switch", [s.node("interval", p=5), s.node("interval", p=4)]),
            "skip_until": lambda s: s.node("skip_until", [s.node("interval", p=3), s.node("timer", p=5)]),
        }
        for name, f in mk.items():
            for end in ("take1", "take2", "unsub0", "unsub6", "unsub12", "cb", "error", "race"):
                if name == "subrepeat" and end[:4] != "take": continue   # (never lets virtual time pass)
                s = sc(name + " " + end, 12 if name == "trigger" else 8)
                x = f(s)
                if end.startswith("take"): x = s.node("take", [x], p=int(end[4:]))
                if end == "error": x = s.node("merge", [x, s.thr([[["w", 7], E(1)]])])
                s.setup = [["sub", 1, x]]
                if end.startswith("unsub"): s.go(["sleep", int(end[5:])], ["unsub", 1])
                if end == "race": s.go(["unsub", 1]); s.settle = 50
                if end == "cb": s.react(1, 1, ["unsub", 1])
                if name in ("subhot", "obshot", "debouncehot"):
                    s.go(*[emit(1, e) for e in script(0, 2)])
                if end in ("take1", "take2", "error", "cb"): s.fin = [["sleep", 40], ["unsub", 1]]
                elif end != "race": s.fin = [["sleep", 40]]
    basic()
    # created and finished repeatedly
    for op in ("interval", "timer", "obs_new", "sub_new", "debounce", "timeout"):
        s = sc("repeatedly " + op, 8)
        x = s.node(op, p=5) if op in ("interval", "timer") else s.node(op, [s.cold([script(0, 2)])], p=5)
        x = s.node("take", [x], p=1)
        s.setup = [["build", x]]
        for r in range(1, 5): s.setup += [["sub", r, x], ["sleep", 12], ["unsub", r]]
    while len(out) < n:
        s = sc("random", 0)
        x, p = timed(s, rng, rng.choice([1, 2, 3]))
        if rng.random() < .6: x = s.node("take", [x], p=rng.choice([1, 2, 3]))
        s.x[0]["p"] = p
        s.setup = [["sub", 1, x]]
        if rng.random() < .5: s.go(["sleep", rng.randrange(14)], ["unsub", 1])
        elif rng.random() < .3: s.react(1, rng.choice([1, 2]), ["unsub", 1])
        s.fin = [["sleep", 30], ["unsub", 1]]
    return out


# ------------------------------------------------------------------ C16
def c16(rng, n, tier):
    out = []

    def sc(label): s = Cs(label); out.append(s); return s

    def timed_script(m, base=0, term=C, gaps=(0, 1, 2, 3, 5, 8)):
        s = []
        for i in range(m):
            g = rng.choice(gaps)
            if g: s.append(["w", g])
            s.append(N(base + i + 1))
        g = rng.choice(gaps)
        if g: s.append(["w", g])
        if term: s.append(term)
        return s

    def one(op, r=1, how=None):
        s = sc(op)
        d = rng.choice([1, 2, 3, 5, 7, 10])
        how = how or rng.choice(["take", "unsub", "cb", "free"])
        lim = 0
        src = k = 0
        term = rng.choice([C, C, E(3), None])
        if op in ("interval", "timer"):
            x = s.node(op, p=d)
        elif op in ("interval_def", "timer_def"):
            x = s.node(op, p=d)
            if op == "interval_def": how = "take"
            elif how == "unsub": how = "free"
        else:
            y = s.thr([timed_script(rng.randrange(5), term=term)])
            src, k = len(s.srcs), 1
            if op == "sample":
                trig = rng.choice([lambda: s.node("interval", p=rng.choice([2, 3, 5])), lambda: s.thr([timed_script(3, 50)]),
                                   lambda: s.node("timer", p=4)])()
                x = s.node("sample", [y, trig])
            else:
                x = s.node({"tint": "time_interval", "stamp": "timestamp"}.get(op, op), [y], p=d)
        if op.startswith("interval"):
            if how == "take" or rng.random() < .3:
                lim = rng.choice([1, 2, 4]); x = s.node("take", [x], p=lim)
            elif rng.random() < .3: x = s.node("map", [x], p=0)
        dop = {"interval_def": "interval", "timer_def": "timer", "sample": "sub", "debounce": "sub"}.get(op, op)
        s.desc("CLCK", op=dop, r=r, d=d, n=src, k=k, lim=lim)
        pre = rng.choice([0, 0, 3])
        s.setup = ([["sleep", pre]] if pre else []) + [["sub", r, x]]
        if how == "unsub": s.go(["sleep", rng.randrange(1, 25)], ["unsub", r])
        elif how == "cb" and not (op == "interval_def"): s.react(r, rng.choice([1, 2, 3]), ["unsub", r])
        if op in ("sample", "debounce", "timeout") and rng.random() < .4:   # a slow subscriber
            for m in rng.sample([1, 2, 3], 2): s.react(r, m, ["sleep", rng.choice([1, 2, 4, 8])])
        s.fin = [["sleep", 40], ["unsub", r], ["sleep", 15]]
        return s
    ops = ["interval", "timer", "delay", "timeout", "timeout", "sample", "debounce", "tint", "stamp", "interval_def", "timer_def"]
    for op in ops:
        for how in ("take", "unsub", "cb", "free"): one(op, how=how)
    # sample fired from several threads, from a slow callback, from inside a callback
    for i in range(12):
        s = sc("sample par"); y = s.hot() if i % 2 else s.thr([timed_script(4, gaps=(0, 1, 2))]); t = s.hot()
        s.desc("CLCK", op="subp" if i < 8 else "sub", r=1, d=0, n=1, k=1, lim=0)
        s.setup = [["sub", 1, s.node("sample", [y, t])]]
        if i % 2: s.go(*[emit(1, N(v)) for v in range(1, 4)])
        if i < 8: s.go(emit(2, N(50)), emit(2, N(51))).go(emit(2, N(52)), emit(2, N(53)))
        else: s.go(emit(2, N(50)), ["sleep", 1], emit(2, N(51)), emit(2, N(52))); s.react(1, 1, emit(2, N(54))); s.react(1, 2, emit(2, N(55)))
        if i % 4 > 1: s.react(1, 1, ["sleep", 2])
        s.pt = rng.choice([0, 1])
    # the subscriber takes longer than the time that is left (or the whole of it)
    for g in (1, 2, 3):
        for slow in (1, 2, 3, 4, 7):
            for after in (0, 1, 3, 4):
                s = sc("timeout slow")
                ev = [N(1), ["w", g], N(2)] + ([["w", after]] if after else []) + [N(3), ["w", 1], C]
                s.desc("CLCK", op="timeout", r=1, d=3, n=1, k=1, lim=0)
                s.setup = [["sub", 1, s.node("timeout", [s.thr([ev])], p=3)]]
                s.react(1, 2, ["sleep", slow])
                if slow == 7: s.react(1, 1, ["sleep", 2])
                s.fin = [["sleep", 40], ["unsub", 1]]
    # the interesting gaps of timeout: shorter, equal, longer than d
    for gaps in ([2], [3], [4], [2, 2, 4], [2, 4], [0, 0, 5], [3, 3], [2, 2, 2], []):
        for tail in (C, None, E(1)):
            for lag in (0, 2, 3, 4):
                s = sc("timeout gaps")
                ev = [N(1)]
                for i, g in enumerate(gaps): ev += ([["w", g]] if g else []) + [N(i + 2)]
                if lag: ev.append(["w", lag])
                if tail: ev.append(tail)
                x = s.node("timeout", [s.thr([ev])], p=3)
                s.desc("CLCK", op="timeout", r=1, d=3, n=1, k=1, lim=0)
                s.setup = [["sub", 1, x]]
                s.fin = [["sleep", 40], ["unsub", 1]]
    while len(out) < n:
        s = one(rng.choice(ops))
    return out


# ------------------------------------------------------------------ C13
def c13(rng, n, tier):
    """publish / ref_count / replay joined and left from several threads"""
    out = []

    def sc(label): s = Cs(label); out.append(s); return s

    def one(kind, mode, joins, anchor, term, items=3, react=None, cut=False, pt=0):
        """joins: per thread, what its subscriber does: j (join), l (join and leave), x (leaves; was there before),
        w (waits, then joins), d (disconnects / nothing), c (connects)"""
        s = sc("%s %s %s%s" % (kind, mode, "".join(joins), " anchored" if anchor else ""))
        ev = script(10, items, term)
        if mode == "hot": x = s.hot()
        elif mode == "cold": x = s.cold([ev, script(50, 2, term)], pol=rng.randrange(2))
        else:
            g = []
            for e in ev: g += ([["w", rng.randrange(1, 3)]] if mode == "slow" else []) + [e]
            x = s.thr([g, script(50, 2, term)])
        if cut: x = s.node("map", [x], p=0)
        top, c = s.conn(kind, x)
        s.setup = [["build", top]]
        rs = []
        if anchor: s.setup.append(["sub", 1, top]); rs.append(1)
        r = 2
        early = []
        for j in joins:
            if j == "x": s.setup.append(["sub", r, top]); early.append(r)
            if j in "jlxw": rs.append(r); r += 1
        if kind == "pub" and "c" not in joins: s.setup.append(["conn", 1])
        r = 2
        for j in joins:
            if j == "c": s.go(["conn", 1]); continue
            if j == "d": s.go(["disc", 1]); continue
            if j == "j": s.go(["sub", r, top])
            elif j == "w": s.go(["sleep", rng.randrange(1, 4)], ["sub", r, top])
            elif j == "l": s.go(["sub", r, top], ["unsub", r])
            elif j == "x": s.go(["unsub", r])
            r += 1
        if mode == "hot": s.go(["await", 1, 1], *[emit(1, e) for e in ev])
        if react: s.react(rng.choice(rs), rng.choice([1, 2]), react(s, top, rs))
        s.desc("CONN", kind=kind, n=1, rs=rs + ([9] if react else []), anchor=int(anchor))
        s.fin = [["settle", 30], ["probe"]] + [["unsub", q] for q in rs if not (q == 1 and kind != "pub" and rng.random() < .3)] \
            + ([["disc", 1]] if kind == "pub" else []) + [["settle", 30], ["probe"]]
        s.pt = pt
        return s
    JOINS = ["j", "jj", "l", "jl", "x", "xj", "xl", "xx", "lw", "xw", "ll", "jjj", "xjl"]
    for kind in ("ref", "rep", "pub"):
        for mode in ("hot", "thr", "slow", "cold"):
            for joins in JOINS + (["d", "jd", "cj", "cd", "cl"] if kind == "pub" else []):
                for anchor in (0, 1):
                    if mode == "hot" and not anchor and kind != "pub" and set(joins) & set("") : continue
                    one(kind, mode, list(joins), anchor, rng.choice([C, C, E(2), None]), items=rng.choice([1, 2, 3]), pt=int(rng.random() < .2))
    while len(out) < n:
        kind = rng.choice(["ref", "ref", "rep", "rep", "pub"])
        joins = [rng.choice("jjlxw") for _ in range(rng.choice([1, 2, 2, 3]))] + (["d"] if kind == "pub" and rng.random() < .2 else [])
        one(kind, rng.choice(["hot", "thr", "slow", "cold"]), joins, rng.random() < .5, rng.choice([C, C, E(2), None]), items=rng.randrange(0, 5),
            react=rng.choice([None, None, lambda s, top, rs: ["unsub", rng.choice(rs)], lambda s, top, rs: ["sub", 9, top]]),
            cut=rng.random() < .3, pt=int(rng.random() < .25))
    return out


# ------------------------------------------------------------------ C14
def c14(rng, n, tier):
    """the operators that bring threads, subscribed several times"""
    out = []

    def sc(label): s = Cs(label); out.append(s); return s

    def hand(spec, mode, gaps, un=None, ev=None):
        s = sc("again " + spec); ev = ev or [N(1), N(2), rng.choice([C, C, E(3)])]
        x = s.cold([ev], pol=0) if mode == "cold" else s.thr([ev])
        o = []
        for ch in spec:
            if ch == "o": x = s.node("obs_new", [x])
            elif ch == "s": x = s.node("sub_new", [x])
            elif ch == "d": x = s.node(rng.choice(["obs_def", "sub_def"]), [x])
            else:
                op, p = rng.choice([("map", 1), ("filter", 1), ("take", 1), ("skip", 1)]); x = s.node(op, [x], p=p); o.append([op, p])
        for r in range(1, len(gaps) + 2):
            s.desc("HAND", r=r, n=1, k=r, ops=o, dl=int("o" in spec), sw=int("s" in spec))
            s.setup.append(["sub", r, x])
            if r <= len(gaps): s.setup += [["await", 1, r]] + ([["unsub", r]] if un == r else []) + ([["sleep", gaps[r - 1]]] if gaps[r - 1] else [])

    def clock(op, gaps, un=None):
        s = sc("again " + op)
        d = rng.choice([2, 3, 5]); src = lim = 0
        if op in ("interval", "timer", "interval_def", "timer_def"): x = s.node(op, p=d)
        else:
            ev = []
            for i in range(rng.randrange(1, 4)): ev += ([["w", rng.choice([1, 2, 4, 6])]] if i or rng.random() < .5 else []) + [N(i + 1)]
            y = s.thr([ev + rng.choice([[C], [["w", 1], C], []])]); src = 1
            x = s.node("sample", [y, s.node("interval", p=2)]) if op == "sample" else s.node(op, [y], p=d)
        if op.startswith("interval"): lim = rng.choice([1, 2, 3]); x = s.node("take", [x], p=lim)
        dop = {"interval_def": "interval", "timer_def": "timer", "sample": "sub", "debounce": "sub"}.get(op, op)
        for r in range(1, len(gaps) + 2):
            s.desc("CLCK", op=dop, r=r, d=d, n=src, k=r, lim=lim)
            s.setup.append(["sub", r, x])
            if r <= len(gaps):
                if src: s.setup.append(["await", src, r])
                if gaps[r - 1]: s.setup.append(["sleep", gaps[r - 1]])
                if un == r: s.setup.append(["unsub", r])
        s.fin = [["sleep", 60]] + [["unsub", r] for r in range(1, len(gaps) + 2)] + [["sleep", 15]]

    def comb(kind, m, lim, err):
        s = sc("again " + kind)
        combined(rng, s, kind, 1, m, rng.choice([1, 2, (2, 1), (1, 0)]), mode="thr", lim=lim, terms=[E(1) if err and i == 0 else C for i in range(m + 1)])
        s.x[0]["k"] = 1
        s.desc("COMB", **dict({k: v for k, v in s.x[0].items() if k != "f"}, r=2, k=2))
        s.setup += [["sleep", 40], ["sub", 2, s.setup[0][2]]]

    SPECS = ["o", "s", "os", "so", "oo", "ss", ".o", "o.", "s.", ".s", "od", "sd"]
    TIMED = ["interval", "timer", "delay", "timeout", "sample", "debounce", "interval_def", "timer_def"]
    for spec in SPECS:
        for gaps in ([0], [50], [0, 0], [50, 50]):
            hand(spec, rng.choice(["cold", "thr"]), gaps)
        hand(spec, "thr", [rng.choice([0, 50])], un=1)
    for op in TIMED:
        for gaps in ([0], [1], [2], [60], [60, 60]):
            if op.endswith("_def") and gaps[0] < 60: continue
            clock(op, gaps)
        clock(op, [rng.choice([1, 3])], un=None if op.endswith("_def") else 1)
    while len(out) < n:
        x = rng.random()
        if x < .45: hand(rng.choice(SPECS + ["o.o", "s.o", "os."]), rng.choice(["cold", "thr"]), [rng.choice([0, 50]) for _ in range(rng.choice([1, 1, 2]))],
                        un=rng.choice([None, None, 1]), ev=[N(i + 1) for i in range(rng.randrange(4))] + [rng.choice([C, C, E(3)])])
        elif x < .8: clock(rng.choice(TIMED[:6]), [rng.choice([0, 1, 2, 3, 5, 60]) for _ in range(rng.choice([1, 1, 2]))], un=rng.choice([None, 1]))
        else: comb(rng.choice(["merge", "zip", "amb", "concat", "nest", "ambm"]), 2, rng.choice([0, 0, 1, 2]), rng.random() < .3)
    return out


# ------------------------------------------------------------------ C18
def c18(rng, n, tier):
    out = []

    def sc(label): s = Cs(label); out.append(s); return s
    evs = [[C], [E(1)], [N(1), C], [N(1), N(2), C], [N(1), E(2)], [N(1), C, N(2), C], [N(1), E(3), C], []]
    for ev in evs:
        ends = any(e[0] in "ce" for e in ev)
        for mode in ("hot", "cold", "thr", "thrw"):
            ops = []
            for how in ("block", "polls", "late", "inline", "takes", "obs"):
                s = sc(mode + " " + how)
                if mode == "hot": x = s.hot()
                elif mode == "cold": x = s.cold([ev], pol=0)
                else: x = s.thr([[["w", 2]] + ev if mode == "thrw" else ev])
                o = []
                if how == "takes": x, o = s.node("take", [x], p=1), [["take", 1]]
                if how == "obs": x = s.node("obs_new", [x])
                fin = ends or (how == "takes" and any(e[0] == "n" for e in ev))
                if how == "obs": s.x = []
                else: s.desc("FUTR", fu=1, n=1, k=1, ops=o)
                s.setup = [["tovec", 1, x]]
                if mode == "hot": s.go(*[emit(1, e) for e in ev])
                if how in ("block", "takes", "obs"): s.go(["block", 1]) if fin else s.go(["poll", 1, 0], ["poll", 1, 0])
                elif how == "polls": s.go(["poll", 1, 0], ["poll", 1, 0], ["poll", 1, 0]); s.fin = [["settle", 20], ["poll", 1, 0]]
                elif how == "late": s.fin = [["settle", 20], ["poll", 1, 0]]
                else: s.go(["poll", 1, 1])
    # the future changes hands: every poll brings another waker
    for ev in evs[:6]:
        s = sc("hands"); x = s.hot(); s.desc("FUTR", fu=1, n=1, k=1, ops=[]); s.setup = [["tovec", 1, x], ["poll", 1, 0]]
        s.go(*[emit(1, e) for e in ev]).go(["poll", 1, 0], ["block", 1])
        s = sc("two futures"); x = s.thr([ev]); s.desc("FUTR", fu=1, n=1, k=1, ops=[]); s.desc("FUTR", fu=2, n=1, k=2, ops=[])
        s.setup = [["tovec", 1, x], ["tovec", 2, x]]; s.go(["block", 1]).go(["block", 2])
    while len(out) < n:
        s = sc("random")
        nf = rng.choice([1, 1, 2])
        for f in range(1, nf + 1):
            ev = [N(10 * f + i) for i in range(rng.randrange(4))] + rng.choice([[C], [C], [E(3)]])
            ev2 = []
            for e in ev:
                if rng.random() < .2: ev2.append(["w", rng.randrange(1, 4)])
                ev2.append(e)
            x = s.thr([ev2]) if rng.random() < .7 else s.hot()
            hot = s.srcs[-1]["hot"]
            o = []
            if rng.random() < .3:
                op, p = rng.choice([("map", 1), ("filter", 1), ("skip", 1), ("take", 2)])
                x, o = s.node(op, [x], p=p), [[op, p]]
            if rng.random() < .25: x = s.node(rng.choice(["sub_new", "obs_new"]), [x])
            s.desc("FUTR", fu=f, n=len(s.srcs), k=1, ops=o)
            if any(s.nodes[y]["op"] == "obs_new" for y in range(len(s.nodes))): s.x = []
            s.setup.append(["tovec", f, x])
            if hot: s.go(["await", len(s.srcs), 1], *[emit(len(s.srcs), e) for e in ev])
            s.go(*([["poll", f, 0]] * rng.randrange(3)), *([["sleep", 1]] * rng.randrange(2)), ["block", f])
    return out


# ------------------------------------------------------------------ C05 (threads)
def c05(rng, n, tier):
    out = []

    def sc(label): s = Cs(label); out.append(s); return s
    MID = [None, "map", "take", "scan", "tap", "buffer", "distinct", "mat", "skip", "start_with", "window", "group", "take_last", "default",
           "merge", "zip", "combine", "amb", "concat", "flat_map", "take_until", "skip_until", "sample", "switch", "retry", "resume", "obs_new",
           "sub_new", "debounce", "delay", "timeout", "ref", "rep", "tap obs_new", "obs_new map"]
    for mid in MID:
        for how in ("race", "after", "twice", "callback", "using", "two"):
            s = sc("%s %s" % (mid, how))
            sb = rng.random() < .3
            if sb: x, j = s.subj(rng.choice(["plain", "behavior", "replay"]))
            else: x = s.hot()
            a = x
            for op in (mid or "").split():
                if op in ("merge", "zip", "combine", "amb", "concat", "flat_map", "take_until", "skip_until", "sample", "switch", "resume"):
                    a = s.node(op, [a, s.hot()])
                elif op in ("ref", "rep"): a, _ = s.conn(op, a)
                elif op in ("obs_new", "sub_new"): a = s.node(op, [a])
                elif op in ("debounce", "delay", "timeout"): a = s.node(op, [a], p=5)
                elif op == "start_with": a = s.node(op, [a], a=[V(77)])
                elif op in ("window", "group", "retry", "buffer"): a = s.node(op, [a], p=2)
                else: a = s.node(op, [a], p=gen.PARAMS.get(op, [1])[-1])
            push = (lambda e: sj(j, e)) if sb else (lambda e: emit(1, e))
            s.setup = [["subu" if how == "using" else "sub", 1, a], ["settle", 2], ["is", 1]]
            if len(s.srcs) > (0 if sb else 1): s.setup.append(emit(len(s.srcs), N(50)))
            em = [push(N(1)), push(N(2)), push(N(3))]
            if rng.random() < .4: em.append(push(rng.choice([C, E(1)])))
            if how == "race": s.go(*em).go(["unsub", 1], ["is", 1])
            elif how == "after": s.go(em[0], ["is", 1], ["unsub", 1], ["is", 1], *em[1:])
            elif how == "twice": s.go(*em).go(["unsub", 1], ["is", 1], ["unsub", 1], ["is", 1]).go(["unsub", 1])
            elif how == "callback": s.react(1, rng.choice([1, 2]), ["unsub", 1]); s.go(*em, ["is", 1])
            elif how == "using": s.go(*em).go(["drop", 1], ["is", 1])
            else: s.go(*em[:2]).go(em[2]).go(["unsub", 1], ["is", 1], push(N(9)))
            s.fin = [["is", 1], ["unsub", 1], ["is", 1], push(N(8)), ["is", 1]]
            s.pt = rng.choice([0, 0, 1])
    out += [s for s in c09(rng, 150, tier) if "unsub" in s.label]
    while len(out) < n:
        s = c19_random(rng, 1)[0]
        s.label = "random"
        s.go(["sleep", rng.choice([0, 0, 1])], ["unsub", 1], ["is", 1])
        if rng.random() < .3: s.go(["unsub", 1], ["is", 1])
        s.fin = [["is", 1]]
        out.append(s)
    return out


# ------------------------------------------------------------------ C06 (threads)
def c06(rng, n, tier):
    out = []
    pool = c05(rng, 320, tier) + c11(rng, 260, tier) + c19(rng, 330, tier) + c09(rng, 300, tier)
    pool += [s for s in c15(rng, 300, tier)]
    rng.shuffle(pool)
    for s in pool[:n] if tier != "thorough" else pool:
        if s.cns: continue   # a shared source belongs to nobody in particular
        s.x = []
        for sr in s.srcs: sr["pol"] = 1
        s.fin = [a for a in s.fin if a[0] == "sleep"] + [["settle", 60], ["probe"], ["unsub", 1], ["settle", 60], ["probe"]]
        out.append(s)
    return out


# ------------------------------------------------------------------ C07 (threads)
def c07(rng, n, tier):
    out = []

    def sc(label): s = Cs(label); out.append(s); return s
    KINDS = ["plain", "behavior", "replay", "async"]
    # two subjects, each called from the other's callbacks, driven by two threads
    for k1 in KINDS:
        for k2 in KINDS:
            s = sc("cross %s %s" % (k1, k2))
            x, j = s.subj(k1); y, i = s.subj(k2)
            s.setup = [["sub", 1, x], ["sub", 2, y]]
            t1, t2 = rng.choice([N(1), N(1), C]), rng.choice([N(2), N(2), E(1)])
            s.react(1, 1, rng.choice([sj(i, t2), ["unsub", 2], ["sub", 12, y]]))
            s.react(2, 1, rng.choice([sj(j, t1), ["unsub", 1], ["sub", 11, x]]))
            s.go(sj(j, N(1)), sj(j, C)).go(sj(i, N(2)), sj(i, C))
    # subscribing, leaving, terminating and emitting at once, for everything that shares state
    for kind in KINDS + ["pub", "ref", "rep"]:
        for a in ("n", "c", "unsub", "sub"):
            for b in ("n", "c", "e", "unsub", "sub", "unsub2", "disc"):
                s = sc("%s %s %s" % (kind, a, b))
                if kind in KINDS:
                    x, j = s.subj(kind)
                    push = lambda e: sj(j, e)
                else:
                    x, c = s.conn(kind, s.hot())
                    push = lambda e: emit(1, e)
                s.setup = [["sub", 1, x], ["sub", 2, x]] + ([["conn", 1]] if kind == "pub" else [])
                if b == "disc" and kind != "pub": s.setup.append(["settle", 1])
                acts = {"n": push(N(1)), "c": push(C), "e": push(E(1)), "unsub": ["unsub", 1], "unsub2": ["unsub", 2], "sub": ["sub", 3, x],
                        "disc": ["disc", 1] if kind == "pub" else ["unsub", 2]}
                s.go(acts[a], push(N(3))).go(acts[b] if b != "sub" else ["sub", 4, x], push(N(4)))
                if rng.random() < .4: s.react(1, 1, rng.choice([["unsub", 1], ["unsub", 2], ["sub", 5, x], push(N(7))]))
                s.pt = rng.choice([0, 1])
    # operators driven by a clock or a scheduler whose subscriber calls back into the source
    def timed(name, s, x):
        if name == "debounce": return s.node("debounce", [x], p=5)
        if name == "timeout": return s.node("timeout", [x], p=9)
        if name == "delay": return s.node("delay", [x], p=3)
        if name == "sample": return s.node("sample", [x, s.node("interval", p=5)])
        if name == "take_until": return s.node("take_until", [x, s.node("timer", p=12)])
        if name == "skip_until": return s.node("skip_until", [x, s.node("timer", p=2)])
        if name == "switch": return s.node("switch", [x, s.node("interval", p=7)])
        if name == "obs": return s.node("obs_new", [x])
        if name == "subscribe": return s.node("sub_new", [x])
        if name == "merge": return s.node("merge", [x, s.node("interval", p=4)])
        if name == "zip": return s.node("zip", [x, s.node("interval", p=4)])
        if name == "clatest": return s.node("combine", [x, s.node("interval", p=4)])
        if name == "amb": return s.node("amb", [s.node("interval", p=4), x])
        if name == "refcount": return s.conn("ref", s.node("merge", [x, s.node("interval", p=4)]))[0]
        if name == "replay": return s.conn("rep", s.node("merge", [x, s.node("interval", p=4)]))[0]
    for name in ("debounce", "timeout", "delay", "sample", "take_until", "skip_until", "switch", "obs", "subscribe", "merge", "zip",
                 "clatest", "amb", "refcount", "replay"):
        for back in ("n", "nn", "c", "e", "unsub", "sub"):
            s = sc("timed %s %s" % (name, back))
            if rng.random() < .5:
                y, j = s.subj(rng.choice(["plain", "plain", "behavior", "replay"])); push = lambda e: sj(j, e)
            else:
                y = s.hot(); push = lambda e: emit(1, e)
            x = timed(name, s, y)
            if rng.random() < .3: x = gen.unary(s, rng, x)
            if rng.random() < .3: x = timed(rng.choice(["obs", "debounce", "sample"]), s, x)
            s.setup = [["sub", 1, x]]
            acts = {"n": [push(N(5))], "nn": [push(N(5)), push(N(6))], "c": [push(C)], "e": [push(E(1))], "unsub": [["unsub", 1]], "sub": [["sub", 2, x]]}
            for i, a in enumerate(acts[back]): s.react(1, 1 + i, a)
            s.go(["sleep", 1], push(N(1)), ["sleep", 7], push(N(2)), ["sleep", 7], push(rng.choice([N(3), C])))
            s.fin = [["sleep", 30], ["unsub", 1], ["unsub", 2]]
    # every operator that owns state, re-entrant callbacks, two or three threads
    def reentrant_random():
        s = Cs("re-entrant")
        tops = []
        pushes = []
        for q in range(rng.choice([1, 2, 2])):
            x = rng.random()
            if x < .6:
                a, j = s.subj(rng.choice(KINDS))
                pushes.append(lambda e, j=j: sj(j, e))
            else:
                a = s.hot(); k = len(s.srcs)
                pushes.append(lambda e, k=k: emit(k, e))
            tops.append(a)
        x = tops[0]
        for _ in range(rng.choice([0, 1, 1, 2])): x = gen.unary(s, rng, x)
        if rng.random() < .7: x = gen.nary(s, rng, rng.choice(gen.NARY), [x, rng.choice(tops)])
        if rng.random() < .25: x, _ = s.conn(rng.choice(["ref", "rep"]), x)
        if rng.random() < .25: x = s.node(rng.choice(["obs_new", "sub_new", "obs_new"]), [x])
        s.setup = [["sub", 1, x], ["sub", 2, tops[-1]]]
        ev = lambda: rng.choice([N(rng.randrange(5)), N(rng.randrange(5)), N(1), C, E(2)])
        act = lambda: rng.choice([["unsub", 1], ["unsub", 2], rng.choice(pushes)(ev()), rng.choice(pushes)(ev()), rng.choice(pushes)(N(3))])
        fresh = [20]

        def sub():
            fresh[0] += 1
            return ["sub", fresh[0], rng.choice([x] + tops)]
        for _ in range(rng.choice([0, 1, 1, 2])): s.react(rng.choice([1, 2]), rng.randrange(1, 4), act() if rng.random() < .8 else sub())
        for _ in range(rng.choice([2, 2, 3])):
            s.go(*[act() if rng.random() < .85 else sub() for _ in range(rng.randrange(1, 4))])
        s.pt = int(rng.random() < .3)
        return s
    pool = []
    for g, m in ((c08, 130), (c09, 260), (c11, 220), (c12, 160), (c15, 420), (c18, 300), (c19, 330), (c05, 320), (c16, 150)):
        z = g(rng, m, tier)
        rng.shuffle(z)
        pool += z[:max(20, n // 12)] if tier != "thorough" else z
    out += pool
    while len(out) < n: out.append(reentrant_random())
    for s in out: s.x = []
    return out


# ------------------------------------------------------------------ C17 (threads)
def c17(rng, n, tier):
    out = []
    pool = c05(rng, 330, tier) + c11(rng, 260, tier) + c19(rng, 330, tier) + c09(rng, 300, tier) + c12(rng, 160, tier) + c18(rng, 300, tier) + c08(rng, 130, tier)
    pool += c15(rng, 420, tier) + c16(rng, 150, tier)
    rng.shuffle(pool)
    for s in pool[:n] if tier != "thorough" else pool:
        if any(r["act"][0] in ("sub", "subu") for r in s.reacts): continue
        if any(nd["op"] in ("window", "group") for nd in s.nodes): continue   # (their inner subscriptions are not ended by it)
        s.x = []
        rs = sorted({a[1] for t in [s.setup, s.fin] + s.threads for a in t if a[0] in ("sub", "subu")})
        s.fin = [a for a in s.fin if a[0] == "sleep"] + [["settle", 60]] + [["unsub", r] for r in rs] + [["settle", 60]]
        out.append(s)
    return out


# property -> (generator, families, quick size, thorough size)
PROPS = {
    "C05": (c05, ["CONT", "HAND"], 660, 3000),
    "C06": (c06, ["TEAR"], 1000, 3000),
    "C07": (c07, ["PROG"], 1600, 6000),
    "C17": (c17, ["OWNS"], 1000, 3000),
    "C08": (c08, ["SCHD"], 400, 1200),
    "C09": (c09, ["HAND"], 800, 2500),
    "C11": (c11, ["COMB"], 700, 2000),
    "C12": (c12, ["MSUB"], 600, 1500),
    "C13": (c13, ["CONN"], 500, 2000),
    "C14": (c14, ["HAND", "CLCK", "COMB"], 400, 1500),
    "C15": (c15, ["WORK"], 1200, 4000),
    "C16": (c16, ["CLCK"], 2000, 5000),
    "C18": (c18, ["FUTR"], 1000, 2500),
    "C19": (c19, ["CONT"], 1000, 3000),
}
SCHED = {
    "quick": [{"k": "dfs", "b": 2, "n": 400}, {"k": "rand", "num": 1, "den": 6, "n": 120}, {"k": "pct", "d": 3, "len": 150, "n": 120}],
    "thorough": [{"k": "dfs", "b": 3, "n": 6000}, {"k": "rand", "num": 1, "den": 5, "n": 1000}, {"k": "rand", "num": 1, "den": 15, "n": 500},
                 {"k": "pct", "d": 3, "len": 200, "n": 1000}],
}
SCHEDS = {
    "C16": {"quick": [{"k": "dfs", "b": 1, "n": 40}, {"k": "rand", "num": 1, "den": 5, "n": 10}]},
}
KEEP = {"quick": 50, "thorough": 120}


def scenarios(prop, seed, tier, size=None):
    g, fams, q, th = PROPS[prop]
    rng = random.Random("%s/%s" % (prop, seed))
    out = []
    for s in g(rng, size or (th if tier == "thorough" else q), tier):
        s.seed = rng.randrange(1 << 30)
        s.sched = s.sched or SCHEDS.get(prop, {}).get(tier) or SCHED[tier]
        j = s.json(len(out) + 1)
        j["keep"] = getattr(s, "keep", None) or KEEP[tier]
        out.append(j)
    return out, fams


def prepare(sc, t, id):
    nt = max([e[1] for e in t["ev"]] + [e[3][0] for e in t["ev"] if e[0] in ("th+", "user")] + [0])
    return {"id": id, "nt": nt, "x": sc["x"], "ev": t["ev"]}


def run(rep, binary, size=None, prop=None):
    prop = prop or rep.prop
    scs, fams = scenarios(prop, rep.seed, rep.tier, size)
    res = vp.harness(binary, "conc", scs, rep.work, "conc", line_limit=120)
    t1 = __import__("time").time()
    traces, origin = [], {}
    stats = {"executions": 0, "exhausted_scenarios": 0, "histories": 0, "outcomes": 0, "not_validated": 0}
    bad = []
    for sc, r in zip(scs, res):
        if r is None or "skipped" in r: continue
        if "crash" in r:
            bad.append(("the process died (%s)" % r["crash"], sc, None))
            continue
        stats["executions"] += r["runs"]
        stats["exhausted_scenarios"] += int(r["exhausted"])
        stats["histories"] += r["distinct"]
        stats["outcomes"] += r["classes"]
        stats["not_validated"] += r["dropped"]
        for t in r["traces"]:
            if t["bad"]:
                bad.append((t["bad"], sc, t))
                continue
            id = len(traces) + 1
            origin[id] = (sc, t)
            traces.append(prepare(sc, t, id))
    env = {"F_" + f: "1" for f in fams}
    acc, states, trans = vp.validate("TraceConc", traces, rep.work, "conc", env=env)
    vp.log("harness %.1fs, TLC %.1fs" % (t1 - rep.t0, __import__("time").time() - t1))
    rep.add(states, trans, len(acc))
    for k, v in stats.items(): rep.extra[k] = rep.extra.get(k, 0) + v
    rep.extra["scenarios"] = rep.extra.get("scenarios", 0) + len(scs)
    rep.extra["specifications"] = fams
    rep.cov["samples"] += [{k: scs[len(scs) * q // 4][k] for k in ("label", "nodes", "setup", "threads")} for q in (0, 2, 3)]
    rej = [t for t in traces if t["id"] not in acc]
    for why, sc, t in bad[:5]:
        rep.violation("%s: a threaded run did not come to its end (%s)" % (prop, why), {"scenario": sc, "trace": t})
    rej.sort(key=lambda t: len(t["ev"]))
    for t in rej[:5]:
        why = vp.explain("TraceConc", t, rep.work, env)
        sc, tr = origin[t["id"]]
        rep.violation("%s: the recorded history is not one of the specification %s: %s" % (prop, "/".join(fams), why),
                      {"scenario": sc, "trace": tr})
    for t in rej[5:]:
        rep.violation("rejected", {"scenario": origin[t["id"]][0], "trace": origin[t["id"]][1]})
    return scs, [(origin[t["id"]]) for t in rej], bad


def show(sc, t):
    print(json.dumps({k: sc[k] for k in ("nodes", "srcs", "sjs", "cns", "reacts", "setup", "threads", "fin", "x") if sc[k]}))
    for e in (t or {"ev": []})["ev"][:70]:
        print("   ", *e)


if __name__ == "__main__":
    rep = vp.Report(sys.argv[1])
    rep.work = rep.work + "-dev"
    os.makedirs(rep.work, exist_ok=True)
    scs, rej, bad = run(rep, vp.build(), int(sys.argv[2]) if len(sys.argv) > 2 and int(sys.argv[2]) else None)
    lab = {}
    for sc, t in rej: lab[sc["label"]] = lab.get(sc["label"], 0) + 1
    for why, sc, t in bad: lab["BAD " + sc["label"]] = lab.get("BAD " + sc["label"], 0) + 1
    print(len(scs), "scenarios", len(rej), "rejected", len(bad), "bad", dict(sorted(lab.items(), key=lambda x: -x[1])))
    print(rep.extra)
    for w, d in rep.viol[:int(sys.argv[3]) if len(sys.argv) > 3 else 3]:
        print("----", w[:800])
        show(d["scenario"], d.get("trace"))
    print("time", __import__("time").time() - rep.t0)
