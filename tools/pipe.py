"""C01-C06, C10, C13, C14, C17 and the single-threaded part of C07: RxPipe against the real pipelines."""
import itertools, random, sys, json, os
import gen, vp

# property -> (generator, observations compared, quick size, thorough size)
PROPS = {
    "C01": (lambda r, n, t: itertools.chain(itertools.chain(gen.contract(r, n), gen.reentrant(r, n // 2), gen.feedback(r, n // 2)), gen.wide(r, n // 6)), ["M_WF"], 7500, 20000),
    "C02": (lambda r, n, t: itertools.chain(itertools.chain(gen.functions(r, n, t), gen.feedback(r, n // 3, False)), gen.wide(r, n // 6)), ["M_OUT"], 7500, 25000),
    "C03": (lambda r, n, t: itertools.chain(itertools.chain(gen.combining(r, n, t), gen.untapped(gen.reentrant(r, n // 3))), gen.wide(r, n // 6)), ["M_OUT"], 9000, 25000),
    "C04": (lambda r, n, t: itertools.chain(gen.errors(r, n), gen.wide(r, n // 6)), ["M_OUT"], 7500, 20000),
    "C05": (lambda r, n, t: itertools.chain(itertools.chain(gen.unsubs(r, n), gen.untapped(gen.reentrant(r, n // 3))), gen.wide(r, n // 6)), ["M_IS", "M_SIL"], 7500, 20000),
    "C06": (lambda r, n, t: itertools.chain(itertools.chain(gen.teardown(r, n), gen.untapped(gen.reentrant(r, n // 3))), gen.wide(r, n // 6)), ["M_PR", "M_CF", "M_LK"], 9000, 25000),
    "C10": (lambda r, n, t: itertools.chain(gen.subjects(r, n, t), gen.wide(r, n // 6)), ["M_OUT", "M_LK"], 6000, 15000),
    "C13": (lambda r, n, t: itertools.chain(gen.connectables(r, n), gen.wide(r, n // 6)), ["M_OUT", "M_PR"], 12000, 25000),
    "C14": (lambda r, n, t: itertools.chain(gen.independent(r, n), gen.wide(r, n // 6)), ["M_OUT"], 7500, 20000),
    "C17": (lambda r, n, t: itertools.chain(gen.releases(r, n), gen.wide(r, n // 6)), ["M_LV"], 7500, 20000),
    "C07": (lambda r, n, t: itertools.chain(gen.reentrant(r, n), gen.wide(r, n // 6)), [], 4500, 10000),
}


def scenarios(prop, seed, tier, size=None):
    g, masks, q, th = PROPS[prop]
    n = size or (th if tier == "thorough" else q)
    rng = random.Random("%s/%s" % (prop, seed))
    out = []
    seen = set()
    for sc in g(rng, n, tier):
        j = sc.json(0)
        key = json.dumps([j[k] for k in ("nodes", "srcs", "sjs", "cns", "reacts", "steps")])
        if key in seen:
            continue
        seen.add(key)
        j["id"] = len(out) + 1
        out.append(j)
    return out, masks


def run(rep, binary, size=None, prop=None):
    prop = prop or rep.prop
    scs, masks = scenarios(prop, rep.seed, rep.tier, size)
    traces = vp.harness(binary, "seq", scs, rep.work, "pipe")
    good = []
    for sc, t in zip(scs, traces):
        if t is None or "skipped" in t:
            continue
        if "crash" in t:
            rep.violation("the process died (%s)" % t["crash"], {"scenario": sc})
            continue
        good.append(t)
    env = {m: "1" for m in masks}
    acc, states, trans = vp.validate("TracePipe", good, rep.work, "pipe", env=env)
    rej = [t for t in good if t["id"] not in acc]
    rep.add(states, trans, len(acc))
    if vp.ENDLESS:
        rep.extra["endless_scenarios_not_judged"] = len(vp.ENDLESS)
    if len(vp.ENDLESS) > len(good) // 100:
        raise vp.ToolError("too many scenarios are endless by themselves")
    by = {}
    for s in scs:
        for nd in s["nodes"]:
            by[nd["op"]] = by.get(nd["op"], 0) + 1
    rep.extra["scenarios"] = rep.extra.get("scenarios", 0) + len(scs)
    rep.extra["operator_uses"] = by
    rep.extra["observations_compared"] = masks
    rep.cov["samples"] += [{k: scs[len(scs) * q // 4][k] for k in ("nodes", "srcs", "sjs", "cns", "reacts", "steps")} for q in (0, 2, 3)]
    rej.sort(key=lambda t: len(json.dumps([t["nodes"], t["steps"]])))
    for t in rej[:5]:
        why = vp.explain("TracePipe", t, rep.work, env)
        rep.violation("%s: the recorded run is not a behaviour of RxPipe: %s" % (prop, why), {"trace": t})
    for t in rej[5:]:
        rep.violation("rejected", {"trace": t})
    return scs, rej


if __name__ == "__main__":
    # development aid: pipe.py PROP [size] -> summary of rejections by label
    rep = vp.Report(sys.argv[1])
    rep.work = rep.work + "-dev"
    os.makedirs(rep.work, exist_ok=True)
    scs, rej = run(rep, vp.build(), int(sys.argv[2]) if len(sys.argv) > 2 else None)
    lab = {}
    for t in rej:
        k = scs[t["id"] - 1]["label"] or "random"
        lab[k] = lab.get(k, 0) + 1
    print(len(scs), "scenarios", len(rej), "rejected", len(rep.viol), dict(sorted(lab.items(), key=lambda x: -x[1])))
    for w, d in rep.viol[:int(sys.argv[3]) if len(sys.argv) > 3 else 3]:
        t = d.get("trace") or d["scenario"]
        print("----", w[:1500])
        print(json.dumps({k: t[k] for k in ("nodes", "srcs", "sjs", "cns", "reacts")}))
        for s in t["steps"]:
            print("   ", s if isinstance(s, list) else {k: v for k, v in s.items() if v not in ([], "", 0, [0, 0, 0])})
    print("endless", vp.ENDLESS[:20])
    print("time", __import__("time").time() - rep.t0)
