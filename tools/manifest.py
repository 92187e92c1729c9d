"""Writes MANIFEST.json"""
import json, os
T = "TLA+ specification + TLC trace validation of the instrumented implementation"
NOTE = {
 "C01": "Every generated pipeline over misbehaving sources is run on the real code; TLC checks each subscriber history against WellFormed and that RxPipe reaches the end of the trace.",
 "C02": "Every operator on every short input (bounded) plus random compositions: TLC recomputes each delivery with RxPipe's operator definitions.",
 "C03": "Every combining operator on a sample of all sequential orders of short inputs plus random graphs, recomputed by TLC with RxPipe.",
 "C04": "Errors and recovery operators, payloads included, recomputed by TLC with RxPipe.",
 "C05": "is_subscribed and silence after unsubscribe compared by TLC at every step on one thread, unsubscribing at every point incl. from callbacks; threaded runs against CONT and HAND for every interleaving explored of unsubscribe and emission.",
 "C06": "What every source sees of is_subscribed, and what stays registered, compared by TLC with RxPipe's instance tree; threaded runs probed when nothing moves (TEAR).",
 "C07": "Re-entrant callbacks on one thread and the interleavings explored of the threaded scenarios: a run in which somebody is stuck on a lock, or spins, is a violation (PROG).",
 "C08": "Programs of posts and aborts from up to three threads and from tasks; each distinct recorded history must be one of the queue specification Sched, hidden moves (take, effect of post/abort, leaving) found by TLC.",
 "C09": "observe_on/subscribe_on in pure chains over hot, cold and threaded sources: each history must be one of HAND (a FIFO hand-over to one worker); MC_Handoff explores the operators lock by lock.",
 "C10": "Every short call history on the four subjects (bounded) plus random ones, recomputed by TLC.",
 "C11": "merge/zip/concat/amb/flat_map and nestings fed by threads: every history must be one of COMB (each item once, in its source's order, one terminal, complete last).",
 "C12": "Subjects pushed, subscribed, left and terminated from several threads: every history must be one of MSUB.",
 "C13": "publish/ref_count/replay histories recomputed by TLC; open source subscriptions compared; threads arriving and leaving at the same time against CONN.",
 "C14": "Several subscriptions of the same observables recomputed by TLC as independent instances; threaded operators subscribed several times against HAND, CLCK and COMB per subscription.",
 "C15": "Threads started and ended in every threaded scenario, ended in every way, checked in virtual time against WORK.",
 "C16": "Time-based sources and operators in virtual time against CLCK; MC_Timeout explores timeout with time abstracted.",
 "C17": "Destructor counters of items, closures and callbacks read zero after every ended scenario, single-threaded (RxPipe) and threaded (OWNS).",
 "C18": "to_vec futures polled, blocked on, handed over and woken inline while sources emit on other threads, against FUTR; stuck runs are violations.",
 "C19": "Racing inputs, direct calls from two threads on one observer, subjects terminated twice: every history must be one of CONT.",
}
import sys
def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    checks = []
    for p in sorted(NOTE):
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                       "technique": T, "level": "model_checking",
                       "level_note": NOTE[p] + " Bounded scenarios; trusts the source rewriting of std::sync/thread/time and the harness's recording."})
    allp = ["C%02d" % i for i in range(1, 20)]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
         "not_applicable": [{"property": p, "reason": "check under construction"} for p in allp if p not in NOTE]}
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
main()
