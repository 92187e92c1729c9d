"""Scenario generators for the sequential pipeline checks (RxPipe / TracePipe)."""
import itertools, random


def V(n): return [0, n, []]
def L(*k): return [1, 0, list(k)]
def ERR(n, tag=10): return [tag, n, []]
U = [9, 0, []]
def N(v): return ["n", v if isinstance(v, list) else V(v)]
def E(n, tag=10): return ["e", ERR(n, tag)]
C = ["c", U]


class Sc:
    def __init__(self, seed=0):
        self.nodes, self.srcs, self.sjs, self.cns, self.reacts, self.steps = [], [], [], [], [], []
        self.seed = seed
        self.label = ''

    def node(self, op, ins=(), p=0, a=()):
        if op == "wflat" and self.nodes[ins[0] - 1]["op"] == "group":
            p = 0 if p % 2 else p  # groups end in no particular order: nothing may be emitted per group at the end
        self.nodes.append({"op": op, "p": p, "a": list(a), "in": list(ins)})
        return len(self.nodes)

    def endless(self, n):
        nd = self.nodes[n - 1]
        if nd["op"] in ("iterate", "repeat", "start_iter"): return True
        return nd["op"] not in CUTTERS and any(self.endless(x) for x in nd["in"])

    def calm(self, n):
        """fails only when the user makes a hot source fail: safe to retry without end"""
        nd = self.nodes[n - 1]
        if nd["op"] == "src": return self.srcs[nd["p"] - 1]["hot"] == 1
        return bool(nd["in"]) and nd["op"] in CALM and all(self.calm(x) for x in nd["in"])

    def hot(self):
        self.srcs.append({"hot": 1, "s": [], "pol": 1})
        return self.node("src", p=len(self.srcs))

    def cold(self, scripts, pol=1):
        self.srcs.append({"hot": 0, "s": scripts, "pol": pol})
        return self.node("src", p=len(self.srcs))

    def subject(self, k="plain", v=0):
        self.sjs.append({"k": k, "v": V(v)})
        return len(self.sjs)

    def subj(self, k="plain", v=0):
        j = self.subject(k, v)
        return self.node("subj", p=j), j

    def conn(self, k, src):
        j = self.subject("replay" if k == "rep" else "plain")
        self.cns.append({"k": k, "in": src, "sj": j})
        return self.node("conn", p=len(self.cns)), len(self.cns)

    def sub(self, r, n, using=False): self.steps.append(["subu" if using else "sub", r, n])
    def unsub(self, r): self.steps.append(["unsub", r])
    def emit(self, i, k, ev): self.steps.append(["emit", i, k, ev[0], ev[1]])
    def sj(self, j, ev): self.steps.append(["sj", j, ev[0], ev[1]])
    def do(self, *a): self.steps.append(list(a))
    def react(self, r, m, act): self.reacts.append({"r": r, "m": m, "act": act})

    def json(self, id):
        return {"id": id, "seed": self.seed, "label": self.label, "nodes": self.nodes, "srcs": self.srcs,
                "sjs": self.sjs, "cns": self.cns, "reacts": self.reacts, "steps": self.steps}


# op -> parameters worth trying
PARAMS = {
    "map": [0, 1, 5], "filter": [0, 1, 2, 3, 4], "take": [1, 2, 3], "skip": [0, 1, 2, 3], "take_last": [1, 2, 3],
    "skip_last": [0, 1, 2], "take_while": [0, 1, 2, 3, 4], "skip_while": [0, 1, 2, 3, 4], "first": [0], "last": [0],
    "element_at": [1, 2, 3], "distinct": [0], "scan": [0], "reduce": [0], "count": [0], "sum": [0], "sum_count": [0],
    "min": [0], "max": [0], "all": [0, 1, 2, 3, 4], "contains": [0, 1, 2], "default": [9], "ignore": [0],
    "buffer": [1, 2, 3], "mat": [0], "demat": [0], "tap": [0], "map_any": [0], "something": [0, 1, 2, 4],
    "obs_def": [0], "sub_def": [0], "defer": [0], "delay0": [0],
}
CALM = (set(PARAMS) - {"demat", "something"}) | {"merge", "zip", "combine", "amb", "sample", "take_until", "skip_until"}
CUTTERS = {"take", "first", "take_while", "element_at", "all", "contains"}


def unary(sc, rng, src, ops=None):
    op = rng.choice(ops or (list(PARAMS) + ["start_with", "demat2"]))
    if op == "start_with":
        return sc.node("start_with", [src], a=[V(rng.randrange(4)) for _ in range(rng.randrange(1, 4))])
    if op == "demat2":
        return sc.node("demat", [sc.node("mat", [src])])
    return sc.node(op, [src], p=rng.choice(PARAMS[op]))


def chain(sc, rng, src, n, ops=None):
    for _ in range(n):
        src = unary(sc, rng, src, ops)
    return src


def rscript(rng, n, vals=6, term="cen", bad=False, tags=(10,)):
    s = [N(rng.randrange(vals)) for _ in range(rng.randrange(n + 1))]
    t = rng.choice(term)
    if t == "c": s.append(C)
    if t == "e": s.append(E(rng.randrange(9), rng.choice(tags)))
    if bad:
        for _ in range(rng.randrange(1, 5)):
            s.append(rng.choice([N(rng.randrange(vals)), C, E(rng.randrange(9))]))
    return s


def endless(sc, rng):
    """an unbounded synchronous producer that a cutter below it stops"""
    if rng.random() < .2: return sc.node("start_iter", [sc.hot()], p=rng.randrange(3))
    s = sc.node("iterate", p=rng.randrange(3)) if rng.random() < .6 else sc.node("repeat", a=[V(rng.randrange(4))])
    return s


CREATORS = [("just", 0, [V(3)]), ("start", 0, [V(4)]), ("from_iter", 0, [V(1), V(2), V(2), V(5)]), ("from_iter", 0, []),
            ("range", 0, [V(2), V(3)]), ("range", 0, [V(0), V(0)]), ("range", 0, [V(-2), V(4)]), ("empty", 0, []),
            ("never", 0, []), ("error", 0, [ERR(3)]), ("error", 0, [ERR(4, 12)]), ("from_ok", 0, [V(7)]),
            ("from_err", 0, [ERR(2)]), ("from_err", 0, [ERR(5, 11)]), ("from_err", 0, [ERR(6, 12)])]


def creator(sc, rng):
    op, p, a = rng.choice(CREATORS)
    return sc.node(op, p=p, a=a)


NARY = ["merge", "zip", "combine", "amb", "seq_eq", "concat", "flat_map", "take_until", "skip_until", "sample", "switch"]


def nary(sc, rng, op, ins):
    if op in ("take_until", "skip_until", "sample", "switch"):
        return sc.node(op, ins[:2])
    return sc.node(op, ins)


def hot_steps(sc, rng, nsrc, n, terms="cce", vals=5, bad=False, kmax=1, errtags=(10,)):
    """a random interleaving of emissions of the hot sources"""
    kk = {i: kmax for i in nsrc}
    dead = set()
    for _ in range(n):
        i = rng.choice(nsrc)
        k = rng.randrange(1, kk[i] + 1)
        if (i, k) in dead and not bad:
            continue
        x = rng.random()
        if x < .72:
            sc.emit(i, k, N(rng.randrange(vals)))
        else:
            t = rng.choice(terms)
            sc.emit(i, k, C if t == "c" else E(rng.randrange(9), rng.choice(errtags)))
            dead.add((i, k))
            kk[i] += 1


def hots(sc):
    return [i + 1 for i, s in enumerate(sc.srcs) if s["hot"] == 1]


# --------------------------------------------------------------------------------------------------------------
def rand_source(sc, rng, depth=0, bad=False, only_hot=False, errtags=(10,)):
    x = rng.random()
    if only_hot or x < .4:
        return sc.hot()
    if x < .75:
        return sc.cold([rscript(rng, 5, bad=bad, tags=errtags) for _ in range(rng.randrange(1, 3))], pol=0 if bad else rng.randrange(2))
    return creator(sc, rng)


def rand_pipe(sc, rng, bad=False, only_hot=False, nary_p=.6, recover=.2, depth=2, errtags=(10,), endless_p=.1, long=True):
    """a random graph; returns its last node"""
    def sub(d):
        if rng.random() < endless_p:
            n = chain(sc, rng, endless(sc, rng), rng.randrange(0, 2), ["map", "distinct", "tap", "obs_def", "mat"])
            op = rng.choice(["take", "first", "element_at", "take"])
            return sc.node(op, [n], p=rng.choice([1, 2, 3]) if op != "first" else 0) if sc.nodes[n - 1]["op"] != "distinct" \
                else sc.node("take", [n], p=1)
        if d == 0 or rng.random() > nary_p:
            s = rand_source(sc, rng, bad=bad, only_hot=only_hot, errtags=errtags)
        else:
            op = rng.choice(NARY)
            k = 2 if op in ("take_until", "skip_until", "sample", "switch") else rng.choice([2, 2, 3])
            s = nary(sc, rng, op, [sub(d - 1) for _ in range(k)])
        s = chain(sc, rng, s, rng.choice([0, 0, 1, 1, 2]))
        if rng.random() < recover:
            op = rng.choice(["retry", "retry_when", "resume"])
            if op == "retry": s = sc.node("retry", [s], p=rng.choice([1, 2, 3]))
            elif op == "retry_when" : s = sc.node("retry_when", [s], p=rng.choice([0, 1]) if sc.calm(s) else 0)
            else: s = sc.node("resume", [s] + [rand_source(sc, rng, bad=bad, only_hot=only_hot) for _ in range(rng.choice([1, 2]))])
        return s
    return sub(depth)


def contract(rng, n):
    """C01: arbitrary pipelines over sources that break the contract"""
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        top = rand_pipe(sc, rng, bad=True)
        r = rng.random()
        if r < .15:
            top = sc.node(rng.choice(["window", "group"]), [top], p=rng.choice([1, 2, 3]))
            if rng.random() < .4:
                top = sc.node("wflat", [top], p=rng.randrange(4))
        elif r < .3:
            top, c = sc.conn(rng.choice(["pub", "ref", "rep"]), top)
        sc.sub(1, top)
        if sc.cns and sc.cns[-1]["k"] == "pub":
            sc.do("conn", len(sc.cns))
        if rng.random() < .3: sc.sub(2, top)
        if hots(sc): hot_steps(sc, rng, hots(sc), rng.randrange(4, 14), terms="ce", bad=True, kmax=2)
        yield sc
    for _ in range(n // 5):
        sc = Sc(rng.randrange(1 << 20))
        a, j = sc.subj(rng.choice(["plain", "behavior", "replay", "async"]), 1)
        top = chain(sc, rng, a, rng.randrange(0, 3))
        sc.sub(1, top)
        for _ in range(rng.randrange(3, 9)):
            x = rng.random()
            if x < .2 and len([s for s in sc.steps if s[0] == "sub"]) < 3: sc.sub(len([s for s in sc.steps if s[0] == "sub"]) + 1, top)
            else: sc.sj(j, N(rng.randrange(4)) if rng.random() < .6 else (C if rng.random() < .5 else E(1)))
        yield sc
    # well-placed bad endings for every single operator
    for op, ps in PARAMS.items():
        for p in ps:
            for tail in ([C, N(1), C], [E(1), N(1), E(2)], [C, E(1)], [E(1), C], [C, C], [E(1), E(2)]):
                for items in ([], [1, 2], [1, 2, 2, 5, 0]):
                    sc = Sc()
                    sc.label = op
                    s = sc.cold([[N(x) for x in items] + tail], pol=0)
                    sc.sub(1, sc.node(op, [s], p=p))
                    yield sc


def scripts_upto(n, alpha):
    for k in range(n + 1):
        for s in itertools.product(alpha, repeat=k):
            yield list(s)


def functions(rng, n, tier):
    """C02: every operator on every short input, and random compositions"""
    depth = 4 if tier == "thorough" else 3
    for op, ps in PARAMS.items():
        extra = {"take": [0, 5], "skip": [5], "take_last": [0, 5], "skip_last": [5], "element_at": [5], "buffer": [5]}.get(op, [])
        for p in ps + extra:
            for s in scripts_upto(depth, [0, 1, 4]):
                for term in ([C], [E(1)], []):
                    if op == "demat" and rng.random() < .5: continue
                    sc = Sc()
                    sc.label = op
                    sc.sub(1, sc.node(op, [sc.cold([[N(x) for x in s] + term], pol=rng.randrange(2))], p=p))
                    yield sc
    for op in ("window", "group"):
        for p in (1, 2, 3):
            for wf in (None, 0, 1, 2, 3):
                for s in scripts_upto(depth, [0, 1, 2]):
                    for term in ([C], [E(1)], []):
                        if wf is not None and rng.random() < .6: continue
                        sc = Sc()
                        sc.label = op
                        x = sc.node(op, [sc.cold([[N(x) for x in s] + term])], p=p)
                        if wf is not None: x = sc.node("wflat", [x], p=wf)
                        sc.sub(1, x)
                        yield sc
    for a in ([], [V(1)], [V(1), V(2), V(0)]):
        for s in ([], [5], [5, 6]):
            for term in ([C], [E(1)], []):
                sc = Sc()
                sc.label = "start_with"
                sc.sub(1, sc.node("start_with", [sc.cold([[N(x) for x in s] + term])], a=a))
                yield sc
    # dematerialize on arbitrary material
    mats = [[2, 0, [V(1)]], [2, 0, [V(4)]], [3, 0, [ERR(2)]], [4, 0, []]]
    for s in scripts_upto(3, mats):
        for term in ([C], [E(1)], []):
            sc = Sc()
            sc.label = "demat"
            sc.sub(1, sc.node("demat", [sc.cold([[N(x) for x in s] + term])]))
            yield sc
    for op, p, a in CREATORS:
        for un in [None] + list(PARAMS):
            sc = Sc()
            sc.label = op
            x = sc.node(op, p=p, a=a)
            if un: x = sc.node(un, [x], p=rng.choice(PARAMS[un]))
            sc.sub(1, x)
            sc.sub(2, x)
            yield sc
    for src in ("repeat", "iterate", "start_iter"):
        for op in ("take", "first", "element_at"):
            for p in (1, 3, 7):
                for mid in (None, "map", "tap", "obs_def", "sub_def", "mat", "map_any", "start_with"):
                    sc = Sc()
                    sc.label = src
                    x = sc.node(src, [sc.hot()] if src == "start_iter" else (), p=2, a=[V(3)])
                    if mid == "start_with": x = sc.node(mid, [x], a=[V(1)])
                    elif mid: x = sc.node(mid, [x], p=1)
                    sc.sub(1, sc.node(op, [x], p=p))
                    yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        x = rng.random()
        if x < .45: s = sc.cold([rscript(rng, 8)])
        elif x < .85: s = sc.hot()
        else: s = creator(sc, rng)
        top = chain(sc, rng, s, rng.randrange(1, 6))
        if rng.random() < .15:
            top = sc.node(rng.choice(["window", "group"]), [top], p=rng.choice([1, 2, 3]))
            if rng.random() < .5: top = chain(sc, rng, sc.node("wflat", [top], p=rng.randrange(4)), rng.randrange(2))
            elif rng.random() < .4: top = sc.node(rng.choice(["take", "skip"]), [top], p=rng.choice([1, 2]))
            elif rng.random() < .3: top = sc.node("count", [top])
        sc.sub(1, top)
        if hots(sc): hot_steps(sc, rng, hots(sc), rng.randrange(3, 12))
        yield sc


def combining(rng, n, tier):
    """C03: combining operators fed in every / random sequential order"""
    evs = [N(0), N(1), C, E(1)]
    depth = 5 if tier == "thorough" else 4
    for op in NARY + ["seq_eq"]:
        for seq in itertools.product([(i, e) for i in (1, 2) for e in evs], repeat=depth):
            # at most one terminal per source, nothing after it; keep a sample
            dead = set()
            ok = True
            for i, e in seq:
                if i in dead: ok = False; break
                if e[0] != "n": dead.add(i)
            if not ok or rng.random() > (.25 if tier == "thorough" else .16): continue
            sc = Sc()
            sc.label = op
            a, b = sc.hot(), sc.hot()
            if op == "flat_map": top = sc.node("flat_map", [a, b, sc.cold([[N(7), C]])])
            else: top = nary(sc, rng, op, [a, b])
            sc.sub(1, top)
            for i, e in seq: sc.emit(i, 1, e)
            yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        op = rng.choice(NARY)
        k = 2 if op in ("take_until", "skip_until", "sample", "switch") else rng.choice([2, 3, 3])
        ins = []
        for _ in range(k):
            x = rng.random()
            if x < .55: s = sc.hot()
            elif x < .75: s = sc.cold([rscript(rng, 4)])
            elif x < .85: s = creator(sc, rng)
            else: s, _j = sc.subj(rng.choice(["plain", "plain", "behavior", "replay"]), 2)
            ins.append(chain(sc, rng, s, rng.choice([0, 0, 0, 1])))
        top = chain(sc, rng, nary(sc, rng, op, ins), rng.choice([0, 0, 1]))
        if rng.random() < .25:
            other = sc.hot()
            top = nary(sc, rng, rng.choice(NARY[:6]), [top, other])
        sc.sub(1, top)
        m = rng.randrange(4, 16)
        hs, js = hots(sc), list(range(1, len(sc.sjs) + 1))
        for _ in range(m):
            if js and (not hs or rng.random() < .3):
                j = rng.choice(js)
                sc.sj(j, N(rng.randrange(4)) if rng.random() < .75 else (C if rng.random() < .7 else E(2)))
            elif hs:
                hot_steps(sc, rng, hs, 1, kmax=rng.choice([1, 1, 1, 2]))
        yield sc
    for _ in range(n // 8):
        # ready_set_go: what the action emits into the subject is not missed
        sc = Sc(rng.randrange(1 << 20))
        a, j = sc.subj(rng.choice(["plain", "behavior", "replay"]), 3)
        x = chain(sc, rng, a, rng.randrange(0, 3))
        g = sc.node("rsg", [x], p=j, a=[V(rng.randrange(5)) for _ in range(rng.randrange(1, 4))])
        top = chain(sc, rng, g, rng.randrange(0, 2))
        if rng.random() < .3: top = nary(sc, rng, rng.choice(["merge", "concat", "zip"]), [top, sc.cold([rscript(rng, 3)])])
        sc.sub(1, top)
        sc.sj(j, N(1)); sc.sj(j, C if rng.random() < .6 else N(2))
        if rng.random() < .4: sc.sub(2, top)
        yield sc


TAGS = (10, 11, 12, 13)


def errors(rng, n):
    """C04: errors through every operator; retry / retry_when / on_error_resume_next; materialize"""
    for op, ps in PARAMS.items():
        for p in ps[:3]:
            for items in ([], [1], [1, 2, 2, 0, 5]):
                for tag in TAGS:
                    for hot in (0, 1):
                        sc = Sc()
                        sc.label = op
                        if hot: s = sc.hot()
                        else: s = sc.cold([[N(x) for x in items] + [E(3, tag)]])
                        sc.sub(1, sc.node(op, [s], p=p))
                        if hot:
                            for x in items: sc.emit(1, 1, N(x))
                            sc.emit(1, 1, E(3, tag))
                        yield sc
    for op in ("window", "group"):
        for p in (1, 2):
            for wf in (None, 0, 1):
                for tag in TAGS:
                    sc = Sc()
                    sc.label = op
                    x = sc.node(op, [sc.cold([[N(1), N(2), N(3), E(3, tag)]])], p=p)
                    if wf is not None: x = sc.node("wflat", [x], p=wf)
                    sc.sub(1, x)
                    yield sc
    for p in range(0, 5):
        for fails in range(0, 5):
            for rop in ("retry", "retry_when"):
                if rop == "retry_when" and p > 2: continue
                for wrap in (None, "map", "take", "mat", "scan", "tap", "merge", "distinct"):
                    for code in (3, 7):
                        sc = Sc()
                        sc.label = rop
                        ss = [[N(f), N(f + 1), E(code, 10 + (f % 3))] for f in range(fails)] + [[N(50), C]]
                        s = sc.cold(ss)
                        x = sc.node(rop, [sc.node("scan", [s]) if wrap == "scan" else s], p=p)
                        if wrap == "merge": x = sc.node("merge", [x, sc.cold([[N(90), C]])])
                        elif wrap == "take": x = sc.node("take", [x], p=3)
                        elif wrap and wrap != "scan": x = sc.node(wrap, [x], p=0)
                        sc.sub(1, x)
                        sc.sub(2, x)
                        yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        ss = [rscript(rng, 4, term="eec", tags=TAGS) for _ in range(rng.randrange(1, 5))] + [rscript(rng, 3, term="c")]
        s = sc.cold(ss) if rng.random() < .6 else sc.hot()
        s = chain(sc, rng, s, rng.randrange(0, 3))
        for _ in range(rng.randrange(1, 3)):
            op = rng.choice(["retry", "retry_when", "resume", "mat2"])
            if op == "retry": s = sc.node("retry", [s], p=rng.choice([1, 2, 3, 4]))
            elif op == "retry_when": s = sc.node("retry_when", [s], p=rng.choice([0, 1]) if sc.calm(s) else 0)
            elif op == "mat2": s = sc.node("demat", [sc.node("mat", [s])])
            else:
                s = sc.node("resume", [s] + [chain(sc, rng, rand_source(sc, rng, errtags=TAGS), rng.randrange(2)) for _ in range(rng.choice([1, 2]))])
            s = chain(sc, rng, s, rng.randrange(0, 2))
        if rng.random() < .3: s = nary(sc, rng, rng.choice(["merge", "concat", "zip", "flat_map", "combine"]), [s, rand_source(sc, rng, errtags=TAGS)])
        sc.sub(1, s)
        if hots(sc): hot_steps(sc, rng, hots(sc), rng.randrange(4, 14), terms="eec", kmax=2, errtags=TAGS)
        yield sc


def unsubs(rng, n):
    """C05: unsubscribing anywhere, any number of times, through any pipeline"""
    for op, ps in list(PARAMS.items()) + [(o, [0]) for o in NARY] + [("retry", [2]), ("resume", [0]), ("window", [2]), ("group", [2])]:
        for p in ps[:2]:
            for at in range(0, 4):
                for style in ("unsub", "twice", "drop", "react", "late"):
                    sc = Sc()
                    sc.label = op
                    a = sc.hot()
                    if op in NARY: x = nary(sc, rng, op, [a, sc.hot()])
                    elif op == "resume": x = sc.node(op, [a, sc.hot()])
                    else: x = sc.node(op, [a], p=p)
                    sc.sub(1, x, using=style == "drop")
                    for s in range(at):
                        sc.emit(1, 1, N(s))
                        if len(sc.srcs) > 1: sc.emit(2, 1, N(s))
                    if style == "react": sc.react(1, at + 1, ["unsub", 1])
                    elif style == "drop": sc.do("drop", 1)
                    elif style == "late": sc.emit(1, 1, C); sc.emit(2, 1, C); sc.unsub(1)
                    else: sc.unsub(1)
                    if style == "twice": sc.unsub(1)
                    for s in range(2):
                        sc.emit(1, 1, N(s + 3))
                        if len(sc.srcs) > 1: sc.emit(2, 1, N(s))
                    sc.unsub(1)
                    sc.emit(1, 1, C)
                    sc.emit(2, 1, E(1))
                    yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        top = rand_pipe(sc, rng, depth=rng.choice([1, 2]))
        r = rng.random()
        if r < .15:
            top, c = sc.conn(rng.choice(["pub", "ref", "rep"]), top)
        elif r < .3:
            s, j = sc.subj(rng.choice(["plain", "behavior", "replay", "async"]), 3)
            top = nary(sc, rng, rng.choice(["merge", "combine", "take_until", "sample"]), [s, top])
        nr = rng.choice([1, 1, 2])
        for q in range(1, nr + 1):
            sc.sub(q, top, using=rng.random() < .3)
            if rng.random() < .3: sc.react(q, rng.randrange(1, 4), ["unsub", rng.randrange(1, nr + 1)])
        if sc.cns and sc.cns[-1]["k"] == "pub": sc.do("conn", len(sc.cns))
        for _ in range(rng.randrange(3, 12)):
            x = rng.random()
            if x < .15: sc.unsub(rng.randrange(1, nr + 1))
            elif x < .22: sc.do("drop", rng.randrange(1, nr + 1))
            elif x < .4 and sc.sjs and sc.sjs[0]["k"] != "x" and not sc.cns: sc.sj(rng.randrange(1, len(sc.sjs) + 1), N(rng.randrange(4)))
            elif hots(sc): hot_steps(sc, rng, hots(sc), 1, kmax=2)
        yield sc


def teardown(rng, n):
    """C06: every way to end, seen from every source upstream"""
    cut = [("take", 2), ("first", 0), ("element_at", 2), ("take_while", 2), ("contains", 4), ("all", 2)]
    for op, p in cut:
        for mids in ([], ["map"], ["tap", "distinct"], ["mat"], ["obs_def"], ["buffer"], ["start_with"], ["defer"]):
            for src in ("cold", "hot", "iterate", "start_iter", "repeat", "subj", "merge", "flat_map", "concat"):
                sc = Sc()
                sc.label = op
                if src == "cold": s = sc.cold([[N(0), N(1), N(4), N(5), N(6), C]], pol=0)
                elif src == "hot": s = sc.hot()
                elif src == "iterate": s = sc.node("iterate", p=0)
                elif src == "start_iter": s = sc.node("start_iter", [sc.hot()], p=0)
                elif src == "repeat":
                    if op in ("all", "take_while", "contains"): continue
                    s = sc.node("repeat", a=[V(4)])
                elif src == "subj": s, _ = sc.subj()
                elif src == "merge": s = sc.node("merge", [sc.hot(), sc.hot(), sc.cold([[N(1), N(5)]], pol=0)])
                elif src == "flat_map": s = sc.node("flat_map", [sc.hot(), sc.hot(), sc.hot()])
                else: s = sc.node("concat", [sc.cold([[N(1), C]], pol=0), sc.hot(), sc.hot()])
                if src in ("iterate", "start_iter", "repeat") and (any(m in ("distinct", "buffer", "mat") for m in mids)) : continue
                for m in mids:
                    s = sc.node(m, [s], p=PARAMS.get(m, [0])[0], a=[V(1)] if m == "start_with" else [])
                if mids and mids[-1] in ("mat", "buffer") and op in ("contains", "take_while", "all"): continue
                x = sc.node(op, [s], p=p)
                if rng.random() < .3: x = sc.node(rng.choice(["map", "tap", "mat"]), [x])
                sc.sub(1, x)
                if src == "subj":
                    for v in (1, 4, 5, 6): sc.sj(1, N(v))
                else:
                    for v in (1, 4, 5, 6):
                        for h in hots(sc): sc.emit(h, 1, N(v))
                yield sc
    for op in NARY:
        for end in ("unsub", "e1", "e2", "c1", "c2", "take", "c12"):
            for pre in (0, 1, 2):
                sc = Sc()
                sc.label = op
                ins = [sc.hot(), sc.hot()] + ([] if op in ("take_until", "skip_until", "sample", "switch") else [sc.hot()])
                x = nary(sc, rng, op, ins)
                if end == "take": x = sc.node("take", [x], p=1)
                sc.sub(1, x)
                for q in range(pre):
                    for h in hots(sc): sc.emit(h, 1, N(q))
                if end == "unsub": sc.unsub(1)
                elif end in ("e1", "e2"): sc.emit(int(end[1]), 1, E(1))
                elif end in ("c1", "c2"): sc.emit(int(end[1]), 1, C)
                elif end == "c12":
                    sc.emit(1, 1, C); sc.emit(2, 1, C); sc.emit(3, 1, C)
                for h in hots(sc): sc.emit(h, 1, N(7))
                for h in hots(sc): sc.emit(h, 1, N(8))
                yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        top = rand_pipe(sc, rng, depth=rng.choice([1, 2, 2]), endless_p=.2)
        if rng.random() < .5:
            op, p = rng.choice(cut)
            top = sc.node(op, [top], p=p)
        if rng.random() < .15:
            top, _ = sc.conn(rng.choice(["ref", "rep"]), top)
        sc.sub(1, top)
        if rng.random() < .3: sc.sub(2, top)
        for _ in range(rng.randrange(3, 12)):
            if rng.random() < .15: sc.unsub(rng.choice([1, 1, 2]))
            elif hots(sc): hot_steps(sc, rng, hots(sc), 1, kmax=2)
        yield sc
    yield from registrations(rng, n // 4)


def registrations(rng, n):
    """identical subscribe / end cycles on a subject leave nothing registered"""
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        sc.label = "cycles"
        s, j = sc.subj(rng.choice(["plain", "plain", "behavior", "replay", "async"]), 1)
        ops = [o for o in PARAMS if o not in ("all", "contains")]
        x = chain(sc, rng, s, rng.randrange(0, 3), ops)
        r = rng.random()
        if r < .5:
            s2, j2 = sc.subj()
            op = rng.choice(NARY)
            x = nary(sc, rng, op, [x, s2])
        elif r < .6:
            x = sc.node("count", [sc.node(rng.choice(["window", "group"]), [x], p=2)])
        end = rng.choice(["unsub", "unsub", "take", "react"])
        if end == "take": x = sc.node("take", [x], p=rng.choice([1, 2]))
        for cyc in range(1, 4):
            sc.sub(cyc, x)
            if end == "react": sc.react(cyc, 1, ["unsub", cyc])
            for q in range(1, len(sc.sjs) + 1):
                sc.sj(q, N(q)); sc.sj(q, N(4)); sc.sj(q, N(4))
            sc.unsub(cyc)
            # a replay subject grows by its items, not by locks
            sc.do("lk", 1)
        yield sc


def subjects(rng, n, tier):
    """C10"""
    for kind in ("plain", "behavior", "replay", "async"):
        acts = [("sub",), ("n",), ("n",), ("unsub", 1), ("unsub", 2), ("c",), ("e",)]
        depth = 6 if tier == "thorough" else 5
        for seq in itertools.product(range(len(acts)), repeat=depth):
            if rng.random() > (.06 if tier == "thorough" else .05): continue
            sc = Sc()
            sc.label = kind
            s, j = sc.subj(kind, 1)
            r = 0
            v = 2
            for a in seq:
                a = acts[a]
                if a[0] == "sub":
                    if r < 3:
                        r += 1
                        sc.sub(r, s)
                elif a[0] == "n": sc.sj(j, N(v)); v += 1
                elif a[0] == "unsub": sc.unsub(a[1])
                elif a[0] == "c": sc.sj(j, C)
                else: sc.sj(j, E(4))
            r += 1
            sc.sub(r, s)
            sc.sj(j, N(v))
            yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        kind = rng.choice(["plain", "behavior", "replay", "async"])
        sc.label = kind
        s, j = sc.subj(kind, 1)
        tops = [s, chain(sc, rng, s, 1), sc.node("take", [s], p=2)]
        r = 0
        v = 2
        for _ in range(rng.randrange(5, 14)):
            x = rng.random()
            if x < .25 and r < 4:
                r += 1
                sc.sub(r, rng.choice(tops))
                if rng.random() < .3:
                    sc.react(r, rng.randrange(1, 4), rng.choice([["unsub", r], ["unsub", max(1, r - 1)], ["sub", 10 + r, s], ["sj", j, "n", V(30 + r)], ["sj", j, "c", U]]))
            elif x < .75: sc.sj(j, N(v)); v += 1
            elif x < .87 and r: sc.unsub(rng.randrange(1, r + 1))
            elif x < .94: sc.sj(j, C)
            else: sc.sj(j, E(rng.randrange(5)))
        yield sc
    for kind in ("plain", "behavior", "replay", "async"):
        for ending in ("unsub", "c", "e"):
            for pre in (0, 1, 2):
                # nothing stays registered: after a terminal the registrations equal those of an unused subject
                sc = Sc()
                sc.label = kind
                s, j = sc.subj(kind, 1)
                if ending == "unsub":
                    for cyc in range(1, 4):
                        sc.sub(cyc, s)
                        for q in range(pre): sc.sj(j, N(q))
                        sc.unsub(cyc)
                        sc.do("lk", 1)
                else:
                    mp = sc.node("map", [s], p=1)
                    for x in (s, mp): sc.sub(x, x); sc.unsub(x)
                    for q in range(pre): sc.sj(j, N(q))
                    sc.do("lk", 1)
                    sc.sub(1, s); sc.sub(2, mp)
                    sc.sj(j, C if ending == "c" else E(1))
                    sc.do("lk", 1)
                    sc.sub(3, s)
                    if kind != "plain": sc.do("lk", 1)
                yield sc


def connectables(rng, n):
    """C13"""
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        kind = rng.choice(["pub", "ref", "rep"])
        sc.label = kind
        x = rng.random()
        if x < .55: s = sc.hot()
        elif x < .8: s = sc.cold([rscript(rng, 4) for _ in range(2)], pol=rng.randrange(2))
        elif x < .9: s = creator(sc, rng)
        else: s = nary(sc, rng, rng.choice(["merge", "concat", "zip"]), [sc.hot(), sc.cold([rscript(rng, 3)])])
        s = chain(sc, rng, s, rng.choice([0, 0, 1]))
        cn, c = sc.conn(kind, s)
        tops = [cn, cn, sc.node("map", [cn], p=1), sc.node("take", [cn], p=rng.choice([1, 2]))]
        r = 0
        for _ in range(rng.randrange(5, 14)):
            x = rng.random()
            if x < .3 and r < 4:
                r += 1
                sc.sub(r, rng.choice(tops))
                if rng.random() < .25:
                    sc.react(r, rng.randrange(1, 3), rng.choice([["unsub", r], ["unsub", max(1, r - 1)], ["sub", 10 + r, cn]]))
            elif x < .45 and r: sc.unsub(rng.randrange(1, r + 1))
            elif x < .55 and kind == "pub":
                if ["conn", c] not in sc.steps: sc.do("conn", c)
                else: sc.do("disc", c)
            elif hots(sc): hot_steps(sc, rng, hots(sc), 1, terms="ccce", kmax=2)
        if kind == "pub" and ["conn", c] not in sc.steps: sc.do("conn", c)
        if hots(sc): hot_steps(sc, rng, hots(sc), 3)
        for q in range(1, r + 1): sc.unsub(q)
        if hots(sc): hot_steps(sc, rng, hots(sc), 2)
        yield sc
    for kind in ("ref", "rep"):
        for take in (1, 2, 9):
            for cold in ([[N(1), N(2), N(3), C]], [[N(1), N(2)]], [[N(1), E(2)]], [[C]]):
                for pol in (0, 1):
                    sc = Sc()
                    sc.label = kind + " sync"
                    cn, c = sc.conn(kind, sc.cold(cold, pol=pol))
                    t = sc.node("take", [cn], p=take)
                    sc.sub(1, t); sc.sub(2, cn); sc.sub(3, t)
                    for q in (1, 2, 3): sc.unsub(q)
                    yield sc


def independent(rng, n):
    """C14: several subscriptions of the same Observable values"""
    ops = list(PARAMS) + NARY + ["retry", "resume", "window", "group", "start_with", "retry_when"]
    for op in ops:
        for style in ("after", "inter", "nested", "concat", "flat", "retry"):
            for src in ("cold", "hot"):
                sc = Sc()
                sc.label = op
                def S():
                    if src == "hot": return sc.hot()
                    return sc.cold([[N(1), N(2), N(2), N(5), C], [N(3), N(1), C], [C]], pol=rng.randrange(2))
                a = S()
                if op in NARY: x = nary(sc, rng, op, [a, S()] if rng.random() < .7 or op in ("take_until", "skip_until", "sample", "switch") else [a, S(), S()])
                elif op == "resume": x = sc.node(op, [sc.cold([[N(1), E(1)]]), a])
                elif op == "retry": x = sc.node(op, [sc.cold([[N(1), E(1)], [N(2), E(2)], [N(3), C]])], p=2)
                elif op == "retry_when": x = sc.node(op, [sc.cold([[N(1), E(1)], [N(2), E(7)], [N(3), C]])], p=1)
                elif op == "start_with": x = sc.node(op, [a], a=[V(8), V(9)])
                elif op in ("window", "group"): x = sc.node(op, [a], p=2)
                else: x = sc.node(op, [a], p=rng.choice(PARAMS[op]))
                obsop = op in ("window", "group")
                if style == "concat":
                    if obsop: continue
                    x = sc.node("concat", [x, x, x])
                elif style == "flat":
                    if obsop: continue
                    x = sc.node("flat_map", [sc.cold([[N(0), N(1), C]]), x])
                elif style == "retry":
                    if obsop: continue
                    # the pipeline is resubscribed after it failed
                    x = sc.node("retry", [sc.node("something", [x], p=4)], p=3)
                sc.sub(1, x)
                if style == "nested": sc.react(1, 1, ["sub", 11, x])
                if style == "inter": sc.sub(2, x)
                if src == "hot":
                    for k in (1, 2):
                        for h in hots(sc): sc.emit(h, k, N(k)); sc.emit(h, k, N(4))
                    if style != "inter": 
                        for h in hots(sc): sc.emit(h, 1, C)
                if style in ("after", "concat", "flat", "retry"): sc.sub(2, x)
                if src == "hot":
                    for k in (2, 3, 1):
                        for h in hots(sc): sc.emit(h, k, N(k)); sc.emit(h, k, N(4))
                    for k in (1, 2, 3):
                        for h in hots(sc): sc.emit(h, k, C)
                sc.sub(3, x)
                yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        top = rand_pipe(sc, rng, depth=rng.choice([1, 2]), only_hot=rng.random() < .3)
        mid = rng.choice([x for x in range(1, top + 1) if not sc.endless(x)])
        if rng.random() < .3:
            y = rng.choice(["concat", "merge", "zip"])
            top = sc.node(y, [top, top])
        r = 0
        for _ in range(rng.randrange(2, 4)):
            r += 1
            sc.sub(r, top if rng.random() < .7 else mid)
            if rng.random() < .3: sc.react(r, rng.randrange(1, 3), ["sub", 10 + r, top])
            if hots(sc): hot_steps(sc, rng, hots(sc), rng.randrange(2, 6), kmax=3)
            if rng.random() < .2: sc.unsub(r)
        yield sc


def releases(rng, n):
    """C17: everything ends, the user drops every handle, nothing may stay alive"""
    allops = list(PARAMS) + NARY + ["retry", "resume", "window", "group", "start_with", "subj", "behavior", "replay", "async", "pub", "ref", "rep", "rsg"]
    for op in allops:
        for end in ("c", "e", "unsub", "take", "react"):
            for src in ("cold", "hot", "subj"):
                sc = Sc()
                sc.label = op
                def S():
                    if src == "hot": return sc.hot()
                    if src == "subj": return sc.subj()[0]
                    return sc.cold([[N(1), N(2), N(2)] + ([C] if end == "c" else [E(1)] if end == "e" else [])], pol=1)
                a = S()
                if op in NARY: x = nary(sc, rng, op, [a, S()])
                elif op == "resume": x = sc.node(op, [a, S()])
                elif op == "retry": x = sc.node(op, [a], p=2)
                elif op == "start_with": x = sc.node(op, [a], a=[V(8)])
                elif op in ("window", "group"): x = sc.node(op, [a], p=2)
                elif op in ("subj", "behavior", "replay", "async"):
                    y, j = sc.subj("plain" if op == "subj" else op, 3)
                    x = sc.node("merge", [a, y])
                elif op == "rsg":
                    y, j = sc.subj()
                    x = sc.node("rsg", [sc.node("merge", [a, y])], p=j, a=[V(1)])
                elif op in ("pub", "ref", "rep"): x, _ = sc.conn(op, a)
                else: x = sc.node(op, [a], p=rng.choice(PARAMS[op]))
                if end == "take": x = sc.node("take", [x], p=1)
                sc.sub(1, x)
                if end == "react": sc.react(1, 1, ["unsub", 1])
                if op == "pub": sc.do("conn", 1)
                internal = [c["sj"] for c in sc.cns]
                js = [j + 1 for j in range(len(sc.sjs)) if j + 1 not in internal]
                for v in (1, 2):
                    for h in hots(sc): sc.emit(h, 1, N(v))
                    for j in js: sc.sj(j, N(v))
                ev = C if end == "c" else E(1)
                if end in ("c", "e"):
                    for h in hots(sc): sc.emit(h, 1, ev); sc.emit(h, 2, ev)
                    for j in js: sc.sj(j, ev)
                if end != "take" or rng.random() < .5: sc.unsub(1)
                if op == "pub": sc.do("disc", 1)
                yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        top = rand_pipe(sc, rng, depth=rng.choice([1, 2]))
        if rng.random() < .2: top, _ = sc.conn(rng.choice(["ref", "rep"]), top)
        r = 0
        for _ in range(rng.choice([1, 1, 2])):
            r += 1
            sc.sub(r, top)
            if rng.random() < .2: sc.react(r, rng.randrange(1, 3), ["unsub", r])
        if hots(sc): hot_steps(sc, rng, hots(sc), rng.randrange(2, 10), kmax=2)
        for q in range(1, r + 1): sc.unsub(q)
        if hots(sc) and rng.random() < .3: hot_steps(sc, rng, hots(sc), 2, kmax=2)
        yield sc


def feedback(rng, n, err=True):
    """callbacks that feed the source of an operator while it delivers; C02 leaves out
    errors raised while take delivers its last item (either ending is reasonable)"""
    for op, ps in PARAMS.items():
        for p in ps:
            if op == "tap": continue
            for m in (1, 2):
                for acts in ([["emit", 1, 1, "n", V(7)]], [["emit", 1, 1, "n", V(2)], ["emit", 1, 1, "c", U]],
                             [["emit", 1, 1, "c", U]], [["emit", 1, 1, "e", ERR(4)]], [["sub", 11, 2]]):
                    if not err and acts[0][3:4] == ["e"]: continue
                    sc = Sc()
                    sc.label = "feedback " + op
                    s = sc.hot()
                    x = sc.node(op, [s], p=p)
                    sc.sub(1, x)
                    for a in acts: sc.react(1, m, a)
                    for v in (2, 3, 3, 4): sc.emit(1, 1, N(v))
                    sc.emit(1, 1, C)
                    yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        s = sc.hot()
        top = chain(sc, rng, s, rng.randrange(1, 5))
        sc.sub(1, top)
        for m in sorted(rng.sample(range(1, 6), rng.randrange(1, 3))):
            sc.react(1, m, rng.choice([["emit", 1, 1, "n", V(rng.randrange(5))]] * 4 + [["emit", 1, 1, "c", U], ["emit", 1, 1, "e", ERR(1)] if err else ["unsub", 1], ["unsub", 1]]))
        hot_steps(sc, rng, hots(sc), rng.randrange(3, 10))
        if any(x["op"] == "tap" for x in sc.nodes): continue
        yield sc


def untapped(g):
    """no demand is made on tap for emissions nested in a terminal callback"""
    return (s for s in g if not any(x["op"] == "tap" for x in s.nodes))


def reentrant(rng, n):
    """C07 (one thread): callbacks that call back into the library"""
    for kind in ("plain", "behavior", "replay", "async"):
        for act in ("unsub", "unsub2", "sub", "n", "c", "e"):
            for m in (1, 2):
                for mid in (None, "map", "take", "take_last", "scan", "window", "group", "buffer", "default", "distinct", "sample", "merge", "zip", "tap", "skip_last", "amb", "concat", "rep", "ref", "pub", "retry", "reduce"):
                    sc = Sc()
                    sc.label = kind + " " + act
                    s, j = sc.subj(kind, 1)
                    x = s
                    if mid in ("sample", "merge", "zip", "amb", "concat"): x = nary(sc, rng, mid, [s, s])
                    elif mid in ("window", "group", "retry"): x = sc.node(mid, [s], p=2)
                    elif mid in ("rep", "ref", "pub"): x, _ = sc.conn(mid, s)
                    elif mid: x = sc.node(mid, [s], p=PARAMS[mid][-1])
                    sc.sub(1, x); sc.sub(2, s)
                    a = {"unsub": ["unsub", 1], "unsub2": ["unsub", 2], "sub": ["sub", 11, x], "n": ["sj", j, "n", V(7)], "c": ["sj", j, "c", U], "e": ["sj", j, "e", ERR(1)]}[act]
                    sc.react(1, m, a)
                    if mid == "pub": sc.do("conn", 1)
                    sc.sj(j, N(2)); sc.sj(j, N(3)); sc.sj(j, C)
                    sc.sub(3, x)
                    yield sc
    for _ in range(n):
        sc = Sc(rng.randrange(1 << 20))
        s, j = sc.subj(rng.choice(["plain", "behavior", "replay", "async"]), 1)
        top = rand_pipe(sc, rng, depth=1, only_hot=rng.random() < .6)
        x = nary(sc, rng, rng.choice(NARY), [s, top])
        if rng.random() < .3: x, _ = sc.conn(rng.choice(["ref", "rep"]), x)
        sc.sub(1, x)
        sc.sub(2, s)
        for _ in range(rng.randrange(1, 4)):
            sc.react(rng.choice([1, 1, 2]), rng.randrange(1, 5), rng.choice(
                [["unsub", 1], ["unsub", 2], ["sub", 10 + rng.randrange(1, 5), x], ["sj", j, "n", V(rng.randrange(9))],
                 ["sj", j, "c", U], ["sj", j, "e", ERR(1)]] + [["emit", h, 1, "n", V(2)] for h in hots(sc)] + [["emit", h, 1, "c", U] for h in hots(sc)]))
        seen = set()
        sc.reacts = [q for q in sc.reacts if not (q["act"][0] == "sub" and (q["act"][1] in seen or seen.add(q["act"][1])))]
        for _ in range(rng.randrange(3, 10)):
            if rng.random() < .5: sc.sj(j, N(rng.randrange(4)) if rng.random() < .8 else rng.choice([C, E(3)]))
            elif hots(sc): hot_steps(sc, rng, hots(sc), 1, kmax=2)
        sc.unsub(1)
        yield sc


BIG = {"take": [5, 8, 13, 34], "skip": [5, 8, 13, 34], "take_last": [5, 8, 13, 34], "skip_last": [4, 7, 12, 34], "element_at": [6, 9, 17, 34],
       "buffer": [4, 5, 7, 16, 34], "take_while": [0, 2, 7], "skip_while": [0, 2, 7], "filter": [0, 2, 7], "map": [0, 1, 7],
       "contains": [9, 33, -4], "all": [0, 2, 7]}


def wide(rng, n):
    """long inputs, large and negative values, large parameters, many inputs, many subscribers"""
    def val(): return rng.choice([rng.randrange(10), rng.randrange(60), rng.randrange(60), -rng.randrange(1, 20), rng.randrange(100, 900)])
    def run(m, term="cen"):
        mode = rng.random()
        if mode < .25: vs = [val()] * m
        elif mode < .45: vs = list(range(m))
        elif mode < .6: vs = [5] * (m // 2) + list(range(m - m // 2))
        elif mode < .7: vs = [x % 3 for x in range(m)]
        else: vs = [val() for _ in range(m)]
        s = [N(v) for v in vs]
        t = rng.choice(term)
        if t == "c": s.append(C)
        if t == "e": s.append(E(rng.randrange(9)))
        return s
    def un(sc, s, k):
        for _ in range(k):
            op = rng.choice(list(PARAMS) + ["start_with"] + list(BIG))
            if op == "start_with": s = sc.node(op, [s], a=[V(val()) for _ in range(rng.randrange(1, 9))])
            else: s = sc.node(op, [s], p=rng.choice(BIG.get(op, PARAMS.get(op))))
        return s
    for q in range(n):
        sc = Sc(rng.randrange(1 << 20))
        sc.label = "wide"
        kind = rng.choice(["unary", "unary", "nary", "nary", "subj", "conn", "retry", "win"])
        nr = 1
        if kind in ("unary", "win"):
            s = sc.hot() if rng.random() < .4 else sc.cold([run(rng.choice([10, 20, 40, 80]) + rng.randrange(9))])
            if kind == "win":
                op = rng.choice(["window", "group"])
                s = sc.node(op, [un(sc, s, rng.randrange(2))], p=rng.choice([2, 4, 5, 7]))
                if rng.random() < .7: s = un(sc, sc.node("wflat", [s], p=rng.randrange(4)), rng.randrange(2))
            else: s = un(sc, s, rng.choice([1, 1, 1, 2, 3, 7]))
            top = s
        elif kind == "nary":
            op = rng.choice(NARY)
            k = 2 if op in ("take_until", "skip_until", "sample", "switch") else rng.choice([3, 4, 5, 6])
            ins = []
            for _ in range(k):
                s = sc.hot() if rng.random() < .6 else sc.cold([run(rng.randrange(0, 9), "cccn") for _ in range(2)])
                ins.append(un(sc, s, rng.choice([0, 0, 0, 1])))
            top = un(sc, nary(sc, rng, op, ins), rng.choice([0, 0, 1]))
        elif kind == "subj":
            top, j = sc.subj(rng.choice(["plain", "behavior", "replay", "async"]), val())
            nr = rng.randrange(2, 9)
        elif kind == "conn":
            top, c = sc.conn(rng.choice(["pub", "ref", "rep"]), un(sc, sc.hot() if rng.random() < .7 else sc.cold([run(rng.randrange(3, 20), "cnn")]), rng.randrange(2)))
            nr = rng.randrange(2, 7)
        else:
            ss = [run(rng.randrange(0, 4), "e") for _ in range(rng.randrange(0, 8))] + [run(3, "c")]
            s = sc.cold(ss)
            op = rng.choice(["retry", "retry", "retry_when", "resume"])
            if op == "resume": s = sc.node("resume", [s] + [sc.cold([run(2, "e")]) for _ in range(rng.randrange(1, 5))] + [sc.cold([run(2, "c")])])
            else: s = sc.node(op, [s], p=rng.choice([5, 6, 7, 8, 9]) if op == "retry" else 0)
            top = un(sc, s, rng.choice([0, 0, 1]))
        todo = list(range(1, nr + 1))
        hs = hots(sc)
        internal = [c["sj"] for c in sc.cns]
        js = [j for j in range(1, len(sc.sjs) + 1) if j not in internal]
        live, conned = [], False
        m = rng.randrange(10, 45) if hs or js else 0
        closed = set()
        sc.sub(todo[0], top); live.append(todo.pop(0))
        if sc.cns and sc.cns[-1]["k"] == "pub" and rng.random() < .7: sc.do("conn", 1); conned = True
        vs = run(m, "n")
        for ev in vs:
            x = rng.random()
            if todo and x < .25: sc.sub(todo[0], top); live.append(todo.pop(0))
            elif len(live) > 1 and x < .32: sc.unsub(live.pop(rng.randrange(len(live))))
            if js: sc.sj(rng.choice(js), ev)
            elif hs:
                i = rng.choice(hs)
                if i in closed: continue
                if len(hs) > 1 and rng.random() < .04: sc.emit(i, 1, rng.choice([C, C, C, E(2)])); closed.add(i)
                else: sc.emit(i, 1, ev)
        for r in todo: sc.sub(r, top); live.append(r)
        if sc.cns and sc.cns[-1]["k"] == "pub" and not conned: sc.do("conn", 1)
        end = rng.choice([C, C, E(3), None])
        if end:
            for j in js: sc.sj(j, end)
            for i in hs:
                if i not in closed: sc.emit(i, 1, end)
        for r in range(1, nr + 1): sc.unsub(r)
        if sc.cns and sc.cns[-1]["k"] == "pub": sc.do("disc", 1)
        yield sc
