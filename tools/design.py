"""The design models: TLC explores the specification itself, without a recorded run.

MC_Pipe      RxPipe driven with every sequence of calls up to a bound, against the operators' definitions
MC_Sched     the task queue as written (mutex, condvar, flag) refines Sched, with liveness
MC_Observer  observers, StreamController and the threaded operators lock by lock
MC_Subject   the subjects under concurrent producers and subscribers
MC_Handoff   observe_on and subscribe_on: observers, hooks, queue and worker, unsubscribed at any time
MC_Timeout   timeout: the slot, the timers' threads, the source and an unsubscription at any time
MC_Future    to_vec and its future: the observer's callbacks against poll and drop, wakers, cancellation

QUICK and THOROUGH say which models stand behind which property.  MISTAKES are deliberate errors in a model
which TLC must find (a model that accepts them says nothing); the thorough tier runs those too.
"""
import time
import vp

QUICK = {
    "C02": [("MC_Pipe", {"GROUP": "unary"})],
    "C04": [("MC_Pipe", {"GROUP": "error"})],
    "C08": [("MC_Sched", {"SMALL": "1"})],
    "C09": [("MC_Handoff", {"SMALL": "1"})],
    "C10": [("MC_Pipe", {"GROUP": "subj"})],
    "C11": [("MC_Observer", {"KIND": "merge"})],
    "C12": [("MC_Subject", {"KIND": "plain"})],
    "C13": [("MC_Pipe", {"GROUP": "conn"})],
    "C14": [("MC_Pipe", {"GROUP": "resub"})],
    "C15": [("MC_Handoff", {"SMALL": "1"})],
    "C16": [("MC_Timeout", {})],
    "C17": [("MC_Observer", {"KIND": "take"})],
    "C18": [("MC_Future", {})],
    "C19": [("MC_Observer", {"KIND": "pass"})],
}
D = "DEEP"
THOROUGH = {
    "C01": [("MC_Pipe", {"GROUP": "chain"}), ("MC_Observer", {"KIND": "pass"})],
    "C02": [("MC_Pipe", {"GROUP": "unary", D: "1"}), ("MC_Pipe", {"GROUP": "chain"})],
    "C03": [("MC_Pipe", {"GROUP": "combine"})],
    "C04": [("MC_Pipe", {"GROUP": "error", D: "1"})],
    "C05": [("MC_Pipe", {"GROUP": "combine"}), ("MC_Observer", {"KIND": "merge"})],
    "C06": [("MC_Pipe", {"GROUP": "combine"}), ("MC_Observer", {"KIND": "take"})],
    "C08": [("MC_Sched", {}), ("MC_Sched", {D: "1"})],
    "C09": [("MC_Handoff", {}), ("MC_Handoff", {D: "1"})],
    "C10": [("MC_Pipe", {"GROUP": "subj", D: "1"})],
    "C11": [("MC_Observer", {"KIND": k}) for k in ("merge", "zip", "amb")] + [("MC_Observer", {"KIND": "merge", D: "1"})],
    "C12": [("MC_Subject", {"KIND": k}) for k in ("plain", "replay", "behavior")] + [("MC_Subject", {"KIND": "plain", D: "1"})],
    "C13": [("MC_Pipe", {"GROUP": "conn", D: "1"})],
    "C14": [("MC_Pipe", {"GROUP": "resub", D: "1"})],
    "C15": [("MC_Handoff", {})],
    "C16": [("MC_Timeout", {}), ("MC_Timeout", {D: "1"})],
    "C17": [("MC_Observer", {"KIND": k}) for k in ("take", "merge", "amb")],
    "C18": [("MC_Future", {}), ("MC_Future", {D: "1"})],
    "C19": [("MC_Observer", {"KIND": k}) for k in ("pass", "take", "merge")] + [("MC_Observer", {"KIND": "pass", D: "1"})],
}
MISTAKES = {
    "C08": [("MC_Sched", {"VARIANT": v, "SMALL": "1"}) for v in ("nolock", "nonotify", "ifwait", "late", "unlockedpush")],
    "C09": [("MC_Handoff", {"VARIANT": v}) for v in ("direct", "lifo", "abortnow")],
    "C11": [("MC_Observer", {"KIND": "merge", "VARIANT": "checkfirst"}), ("MC_Observer", {"KIND": "zip", "VARIANT": "zippop"})],
    "C12": [("MC_Subject", {"KIND": k, "VARIANT": v}) for k, v in (("replay", "nobusy"), ("replay", "snapshot"), ("behavior", "unlocked"))],
    "C15": [("MC_Handoff", {"VARIANT": v}) for v in ("nofin", "nocheck2", "keep")],
    "C16": [("MC_Timeout", {"VARIANT": v}) for v in ("nohook", "noreset", "uncancel", "nocheck")],
    "C18": [("MC_Future", {"VARIANT": v}) for v in ("late", "holdwake", "errlast", "first")],
    "C19": [("MC_Observer", {"KIND": "pass", "VARIANT": "both"})],
}


def run(rep):
    quick = rep.tier != "thorough"
    jobs = [(m, e, False) for m, e in (QUICK if quick else THOROUGH).get(rep.prop, [])]
    if not quick:
        jobs += [(m, e, True) for m, e in MISTAKES.get(rep.prop, [])]
    out = rep.extra.setdefault("design_models", [])
    for m, e, wrong in jobs:
        name = m + "".join(" %s=%s" % x for x in sorted(e.items()))
        left = (600 if quick else 7200) - (time.time() - rep.t0)
        if left < 60:
            out.append({"model": name, "result": "not run, no time left"})
            continue
        try:
            r = vp.tlc(m, env=e, work=rep.work, timeout=min(left, 240 if quick else 3600))
        except vp.ToolError as x:
            if "timeout" not in str(x):
                raise
            out.append({"model": name, "result": "not finished in the time allowed"})
            continue
        ok = vp.tlc_ok(r, m)
        if ok == wrong:
            raise vp.ToolError("%s: %s" % (name, "the mistake was not noticed" if wrong else r["out"][-3000:]))
        out.append({"model": name, "result": "mistake found" if wrong else "holds", "states": r["states"],
                    "transitions": r["transitions"], "seconds": round(r["s"], 1)})
        if not wrong:
            rep.add(r["states"], r["transitions"])
