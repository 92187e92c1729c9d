-------------------------------- MODULE Hist --------------------------------
(* What an observer of a threaded program that uses the library can see: calls made into it and their returns,
   callbacks and their returns, sources being subscribed, tasks, polls, wake-ups, threads.  An event is
   <<kind, thread, virtual milliseconds, <<integers>>, value>>.  Hstep folds one event into the record H, which
   the property specifications read; it judges nothing.

   One thing is "before" another when its end was recorded before the start of the other; everything else
   overlaps.                                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kind(e) == e[1]
Thr(e) == e[2]
Ms(e) == e[3]
Arg(e) == e[4]
Val(e) == e[5]

H0(nt) == [i |-> 0, now |-> 0,
           calls |-> <<>>,                      \* in order of their start: [a, th, b, e, f, r, ms, me]
           open |-> [x \in 0..nt |-> <<>>],     \* per thread: numbers of its unfinished calls, innermost last
           users |-> {},                        \* threads of the program; the others belong to the library
           libs |-> <<>>,                       \* library threads: [t, ms, own, dead (-1: alive)]
           cbs |-> <<>>,                        \* callbacks, in order of their start: [r, k, v, th, b, e, em, ms, me]
           srcs |-> <<>>]                       \* harness sources subscribed: [n, k, th, b, own, ms]

Last(s) == s[Len(s)]
Emits(a) == a[1] \in {"emit", "sj"}
\* the innermost emission going on in thread th (0: none)
EmitOf(h, th) == LET S == {c \in {h.open[th][x] : x \in DOMAIN h.open[th]} : Emits(h.calls[c].a)}
                 IN IF S = {} THEN 0 ELSE CHOOSE c \in S : \A d \in S : d <= c
LibIx(h, t) == {x \in DOMAIN h.libs : h.libs[x].t = t}
IsLib(h, t) == LibIx(h, t) # {}
SrcIx(h, n, k) == {x \in DOMAIN h.srcs : h.srcs[x].n = n /\ h.srcs[x].k = k}

\* the subscribers on whose behalf thread th is working; {} when that cannot be told
Owner(h, th) ==
  IF IsLib(h, th) /\ h.open[th] = <<>> THEN h.libs[CHOOSE x \in LibIx(h, th) : TRUE].own
  ELSE IF h.open[th] = <<>> THEN {}
  ELSE LET a == h.calls[Last(h.open[th])].a IN
       CASE a[1] \in {"sub", "subu"} -> {a[2]}
         [] a[1] = "emit" -> LET S == SrcIx(h, a[2], a[3]) IN
                             IF S = {} THEN {} ELSE h.srcs[CHOOSE x \in S : TRUE].own
         [] OTHER -> {}

OpenCb(h, r) == {c \in DOMAIN h.cbs : h.cbs[c].r = r /\ h.cbs[c].e = 0}

Hstep(h, e) ==
  LET i == h.i + 1
      th == Thr(e)
      g == [h EXCEPT !.i = i, !.now = Ms(e)]
      x == Arg(e)
  IN CASE Kind(e) = "call" ->
            [g EXCEPT !.calls = Append(@, [a |-> Val(e), th |-> th, b |-> i, e |-> 0, f |-> x[2], r |-> 0, ms |-> Ms(e), me |-> -1]),
                      !.open[th] = Append(@, x[1])]
       [] Kind(e) = "ret" ->
            [g EXCEPT !.calls[x[1]].e = i, !.calls[x[1]].r = x[2], !.calls[x[1]].me = Ms(e), !.open[th] = SubSeq(@, 1, Len(@) - 1)]
       [] Kind(e) = "cb" ->
            [g EXCEPT !.cbs = Append(@, [r |-> x[1], m |-> x[2], k |-> Val(e)[1], v |-> Val(e)[2], th |-> th, b |-> i,
                                         e |-> 0, em |-> EmitOf(h, th), ms |-> Ms(e), me |-> -1])]
       [] Kind(e) = "cbe" ->
            LET c == CHOOSE c \in DOMAIN h.cbs : h.cbs[c].r = x[1] /\ h.cbs[c].m = x[2]
            IN [g EXCEPT !.cbs[c].e = i, !.cbs[c].me = Ms(e)]
       [] Kind(e) = "src" -> [g EXCEPT !.srcs = Append(@, [n |-> x[1], k |-> x[2], th |-> th, b |-> i, own |-> Owner(h, th),
                                                          ms |-> Ms(e)])]
       [] Kind(e) = "th+" -> [g EXCEPT !.libs = Append(@, [t |-> x[1], ms |-> Ms(e), own |-> Owner(h, th), dead |-> -1])]
       [] Kind(e) = "user" -> [g EXCEPT !.users = @ \cup {x[1]}, !.libs = SelectSeq(@, LAMBDA l : l.t # x[1])]
       [] Kind(e) = "th-" -> [g EXCEPT !.libs = [n \in DOMAIN @ |-> IF @[n].t = x[1] THEN [@[n] EXCEPT !.dead = Ms(e)] ELSE @[n]]]
       [] OTHER -> g

Done(c) == c.e # 0
Before(x, y) == x.e # 0 /\ x.e < y.b

\* the calls with action kind k whose first argument is j
CallsOf(h, k, j) == {c \in DOMAIN h.calls : h.calls[c].a[1] = k /\ h.calls[c].a[2] = j}
Unsubs(h, r) == CallsOf(h, "unsub", r) \cup CallsOf(h, "drop", r)
\* r was unsubscribed by a call that returned before event index b
Left(h, r, b) == \E c \in Unsubs(h, r) : Done(h.calls[c]) /\ h.calls[c].r = 0 /\ h.calls[c].e < b
Leaving(h, r) == Unsubs(h, r) # {}
CbsOf(h, r) == {c \in DOMAIN h.cbs : h.cbs[c].r = r}
Terms(h, r) == {c \in CbsOf(h, r) : h.cbs[c].k # "n"}
Ended(h, r) == (\E c \in Terms(h, r) : Done(h.cbs[c])) \/ Left(h, r, h.i + 1)
=============================================================================
