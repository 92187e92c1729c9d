------------------------------ MODULE MC_Handoff ------------------------------
(***************************************************************************)
(* observe_on and subscribe_on as they are written: the subscriber's       *)
(* observer (o), the StreamController with its hooks, the observer given   *)
(* to the source (u), the scheduler's queue and its worker, one step per   *)
(* operation another thread can see.  The queue itself is taken in its     *)
(* abstract form; MC_Sched shows that the code refines it.                 *)
(* An unsubscription may come at any time, also while the operator is      *)
(* still being set up (as when switch_on_next or concat ends), or from     *)
(* inside the callback of the item `cut`.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

\* "code", or a mistake this model must notice
Variant == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "code"
Deep == "DEEP" \in DOMAIN IOEnv
Small == "SMALL" \in DOMAIN IOEnv
MaxN == IF Deep THEN 3 ELSE IF Small THEN 1 ELSE 2
\* op: observe_on | subscribe_on | subscribe_on, then observe_on on top of it is two of these
\* thr: the source emits on a thread of its own; e: how it ends ("-": never)
Progs == {p \in [op : {"obs", "sub"}, thr : BOOLEAN, n : 0..MaxN, e : {"c", "e", "-"}, uns : BOOLEAN, cut : 0..MaxN] :
            /\ p.cut <= p.n
            /\ p.e = "-" => p.uns \/ p.cut # 0
            /\ p.uns => p.cut = 0 \/ Deep}

(* --algorithm handoff {
variables
  prog \in Progs;
  o = [n |-> TRUE, e |-> TRUE, c |-> TRUE];   \* the subscriber's observer: its three callbacks
  oh = FALSE;                                 \* its on_unsubscribe hook is set
  us = FALSE;                                 \* u is in the controller's map
  un = TRUE;                                  \* u still takes items
  fin = FALSE;                                \* the controller's on_finalize hook is set
  que = <<>>; ab = FALSE;                     \* the queue; it has been aborted
  out = <<>>;                                 \* what the subscriber was told
  where = {};                                 \* on which threads
  gone = FALSE; late = 0;                     \* unsubscribe returned; callbacks begun after it
  go = FALSE;                                 \* the source's thread may start
  att = FALSE;                                \* the source has been subscribed

define { Open == o.n /\ o.e /\ o.c }

\* Observer::unsubscribe of o
procedure close() {
c1: o.n := FALSE;
c2: o.e := FALSE;
c3: o.c := FALSE;
c4: if (oh) { oh := FALSE; call finz(); return; } else { return; };
}

\* StreamController::finalize
procedure finz() {
f1: if (us) { us := FALSE; } else { goto f3; };
f2: un := FALSE;
f3: if (Open) { call close(); };
f4: if (fin) { fin := FALSE; } else { goto f6; };
f5: que := <<>>; ab := TRUE;
f6: return;
}

\* the controller's sink_next, sink_error, sink_complete
procedure sink(v = 0)
  variables d = FALSE;
{
k1: if (~Open) { call finz(); return; };
k2: if (v > 0) {
      if (o.n) {
k3:     out := Append(out, v); where := where \cup {self}; late := late + (IF gone THEN 1 ELSE 0);
        if (v = prog.cut) { call close(); return; } else { return; };
      } else { return; };
    };
k4: if (v = 0) { us := IF Variant = "keep" THEN us ELSE FALSE; if (us) { return; } };
k5: if (o.n) { o.n := FALSE; } else { goto k9; };
k6: if (v = 0) { o.e := FALSE; } else { o.c := FALSE; };
k7: if (v = 0 /\ o.c) { o.c := FALSE; d := TRUE; } else if (v # 0 /\ o.e) { o.e := FALSE; d := TRUE; };
k8: if (d) { out := Append(out, v); where := where \cup {self}; late := late + (IF gone THEN 1 ELSE 0); };
    call close();
k9: call finz();
k10: return;
}

\* the source: 1, 2, .. n and its end (0: complete, -1: error); `how`: what u's callbacks do
procedure source()
  variables x = 0;
{
n1: while (x < prog.n) {
      x := x + 1;
n2:   if (un) {
n3:     if (prog.op = "obs") { que := IF Variant = "lifo" THEN <<x>> \o que ELSE Append(que, x); }
        else { call sink(x); };
      };
n4:   skip;
    };
n5: if (prog.e = "-" \/ ~un) { return; } else { un := FALSE; };
n6: if (prog.op = "obs" /\ Variant # "direct") {
      que := Append(que, IF prog.e = "c" THEN 0 ELSE -1);
      if (Variant = "abortnow") { ab := TRUE; };
      return;
    } else { call sink(IF prog.e = "c" THEN 0 ELSE -1); return; };
}

\* sctl.new_observer and the subscription to the source
procedure connect() {
w1: us := TRUE; att := TRUE;
w2: if (~Open /\ Variant # "nocheck2") { call finz(); };
w3: if (prog.thr) { go := TRUE; return; } else { call source(); return; };
}

\* subscribe
fair process (Sub = 1) {
b1: oh := TRUE;
b2: if (~Open) { call close(); };
b3: if (Variant # "nofin") { fin := TRUE; };
b4: if (~Open) { call finz(); };
b5: if (prog.op = "obs") { call connect(); } else { que := Append(que, 99); };
}

\* unsubscribes, whenever
fair process (Uns = 2) {
x1: if (prog.uns) { call close(); } else { goto Done; };
x2: gone := TRUE;
}

\* the scheduler's worker
fair process (Wrk = 3)
  variables t = 0;
{
q1: while (TRUE) {
      await ab \/ que # <<>>;
      if (ab) { goto Done; } else { t := Head(que); que := Tail(que); };
q2:   if (t = 99) { call connect(); } else { call sink(t); };
    };
}

\* the source's own thread
fair process (Src = 4) {
s1: if (~prog.thr) { goto Done; } else { await go \/ (ab /\ pc[3] = "Done" /\ pc[1] = "Done"); };
s2: if (go) { call source(); };
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, prog, o, oh, us, un, fin, que, ab, out, where, gone, late, go, 
          att, stack

(* define statement *)
Open == o.n /\ o.e /\ o.c

VARIABLES v, d, x, t

vars == << pc, prog, o, oh, us, un, fin, que, ab, out, where, gone, late, go, 
           att, stack, v, d, x, t >>

ProcSet == {1} \cup {2} \cup {3} \cup {4}

Init == (* Global variables *)
        /\ prog \in Progs
        /\ o = [n |-> TRUE, e |-> TRUE, c |-> TRUE]
        /\ oh = FALSE
        /\ us = FALSE
        /\ un = TRUE
        /\ fin = FALSE
        /\ que = <<>>
        /\ ab = FALSE
        /\ out = <<>>
        /\ where = {}
        /\ gone = FALSE
        /\ late = 0
        /\ go = FALSE
        /\ att = FALSE
        (* Procedure sink *)
        /\ v = [ self \in ProcSet |-> 0]
        /\ d = [ self \in ProcSet |-> FALSE]
        (* Procedure source *)
        /\ x = [ self \in ProcSet |-> 0]
        (* Process Wrk *)
        /\ t = 0
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self = 1 -> "b1"
                                        [] self = 2 -> "x1"
                                        [] self = 3 -> "q1"
                                        [] self = 4 -> "s1"]

c1(self) == /\ pc[self] = "c1"
            /\ o' = [o EXCEPT !.n = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "c2"]
            /\ UNCHANGED << prog, oh, us, un, fin, que, ab, out, where, gone, 
                            late, go, att, stack, v, d, x, t >>

c2(self) == /\ pc[self] = "c2"
            /\ o' = [o EXCEPT !.e = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "c3"]
            /\ UNCHANGED << prog, oh, us, un, fin, que, ab, out, where, gone, 
                            late, go, att, stack, v, d, x, t >>

c3(self) == /\ pc[self] = "c3"
            /\ o' = [o EXCEPT !.c = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "c4"]
            /\ UNCHANGED << prog, oh, us, un, fin, que, ab, out, where, gone, 
                            late, go, att, stack, v, d, x, t >>

c4(self) == /\ pc[self] = "c4"
            /\ IF oh
                  THEN /\ oh' = FALSE
                       /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finz",
                                                                pc        |->  Head(stack[self]).pc ] >>
                                                            \o Tail(stack[self])]
                       /\ pc' = [pc EXCEPT ![self] = "f1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ oh' = oh
            /\ UNCHANGED << prog, o, us, un, fin, que, ab, out, where, gone, 
                            late, go, att, v, d, x, t >>

close(self) == c1(self) \/ c2(self) \/ c3(self) \/ c4(self)

f1(self) == /\ pc[self] = "f1"
            /\ IF us
                  THEN /\ us' = FALSE
                       /\ pc' = [pc EXCEPT ![self] = "f2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "f3"]
                       /\ us' = us
            /\ UNCHANGED << prog, o, oh, un, fin, que, ab, out, where, gone, 
                            late, go, att, stack, v, d, x, t >>

f2(self) == /\ pc[self] = "f2"
            /\ un' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "f3"]
            /\ UNCHANGED << prog, o, oh, us, fin, que, ab, out, where, gone, 
                            late, go, att, stack, v, d, x, t >>

f3(self) == /\ pc[self] = "f3"
            /\ IF Open
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "close",
                                                                pc        |->  "f4" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "c1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "f4"]
                       /\ stack' = stack
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, go, att, v, d, x, t >>

f4(self) == /\ pc[self] = "f4"
            /\ IF fin
                  THEN /\ fin' = FALSE
                       /\ pc' = [pc EXCEPT ![self] = "f5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "f6"]
                       /\ fin' = fin
            /\ UNCHANGED << prog, o, oh, us, un, que, ab, out, where, gone, 
                            late, go, att, stack, v, d, x, t >>

f5(self) == /\ pc[self] = "f5"
            /\ que' = <<>>
            /\ ab' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "f6"]
            /\ UNCHANGED << prog, o, oh, us, un, fin, out, where, gone, late, 
                            go, att, stack, v, d, x, t >>

f6(self) == /\ pc[self] = "f6"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, go, att, v, d, x, t >>

finz(self) == f1(self) \/ f2(self) \/ f3(self) \/ f4(self) \/ f5(self)
                 \/ f6(self)

k1(self) == /\ pc[self] = "k1"
            /\ IF ~Open
                  THEN /\ /\ d' = [d EXCEPT ![self] = Head(stack[self]).d]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finz",
                                                                   pc        |->  Head(stack[self]).pc ] >>
                                                               \o Tail(stack[self])]
                       /\ pc' = [pc EXCEPT ![self] = "f1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "k2"]
                       /\ UNCHANGED << stack, d >>
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, go, att, v, x, t >>

k2(self) == /\ pc[self] = "k2"
            /\ IF v[self] > 0
                  THEN /\ IF o.n
                             THEN /\ pc' = [pc EXCEPT ![self] = "k3"]
                                  /\ UNCHANGED << stack, v, d >>
                             ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ d' = [d EXCEPT ![self] = Head(stack[self]).d]
                                  /\ v' = [v EXCEPT ![self] = Head(stack[self]).v]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "k4"]
                       /\ UNCHANGED << stack, v, d >>
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, go, att, x, t >>

k3(self) == /\ pc[self] = "k3"
            /\ out' = Append(out, v[self])
            /\ where' = (where \cup {self})
            /\ late' = late + (IF gone THEN 1 ELSE 0)
            /\ IF v[self] = prog.cut
                  THEN /\ /\ d' = [d EXCEPT ![self] = Head(stack[self]).d]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "close",
                                                                   pc        |->  Head(stack[self]).pc ] >>
                                                               \o Tail(stack[self])]
                       /\ pc' = [pc EXCEPT ![self] = "c1"]
                       /\ v' = v
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ d' = [d EXCEPT ![self] = Head(stack[self]).d]
                       /\ v' = [v EXCEPT ![self] = Head(stack[self]).v]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, gone, go, att, 
                            x, t >>

k4(self) == /\ pc[self] = "k4"
            /\ IF v[self] = 0
                  THEN /\ us' = (IF Variant = "keep" THEN us ELSE FALSE)
                       /\ IF us'
                             THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ d' = [d EXCEPT ![self] = Head(stack[self]).d]
                                  /\ v' = [v EXCEPT ![self] = Head(stack[self]).v]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "k5"]
                                  /\ UNCHANGED << stack, v, d >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "k5"]
                       /\ UNCHANGED << us, stack, v, d >>
            /\ UNCHANGED << prog, o, oh, un, fin, que, ab, out, where, gone, 
                            late, go, att, x, t >>

k5(self) == /\ pc[self] = "k5"
            /\ IF o.n
                  THEN /\ o' = [o EXCEPT !.n = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "k6"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "k9"]
                       /\ o' = o
            /\ UNCHANGED << prog, oh, us, un, fin, que, ab, out, where, gone, 
                            late, go, att, stack, v, d, x, t >>

k6(self) == /\ pc[self] = "k6"
            /\ IF v[self] = 0
                  THEN /\ o' = [o EXCEPT !.e = FALSE]
                  ELSE /\ o' = [o EXCEPT !.c = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "k7"]
            /\ UNCHANGED << prog, oh, us, un, fin, que, ab, out, where, gone, 
                            late, go, att, stack, v, d, x, t >>

k7(self) == /\ pc[self] = "k7"
            /\ IF v[self] = 0 /\ o.c
                  THEN /\ o' = [o EXCEPT !.c = FALSE]
                       /\ d' = [d EXCEPT ![self] = TRUE]
                  ELSE /\ IF v[self] # 0 /\ o.e
                             THEN /\ o' = [o EXCEPT !.e = FALSE]
                                  /\ d' = [d EXCEPT ![self] = TRUE]
                             ELSE /\ TRUE
                                  /\ UNCHANGED << o, d >>
            /\ pc' = [pc EXCEPT ![self] = "k8"]
            /\ UNCHANGED << prog, oh, us, un, fin, que, ab, out, where, gone, 
                            late, go, att, stack, v, x, t >>

k8(self) == /\ pc[self] = "k8"
            /\ IF d[self]
                  THEN /\ out' = Append(out, v[self])
                       /\ where' = (where \cup {self})
                       /\ late' = late + (IF gone THEN 1 ELSE 0)
                  ELSE /\ TRUE
                       /\ UNCHANGED << out, where, late >>
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "close",
                                                     pc        |->  "k9" ] >>
                                                 \o stack[self]]
            /\ pc' = [pc EXCEPT ![self] = "c1"]
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, gone, go, att, 
                            v, d, x, t >>

k9(self) == /\ pc[self] = "k9"
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finz",
                                                     pc        |->  "k10" ] >>
                                                 \o stack[self]]
            /\ pc' = [pc EXCEPT ![self] = "f1"]
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, go, att, v, d, x, t >>

k10(self) == /\ pc[self] = "k10"
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ d' = [d EXCEPT ![self] = Head(stack[self]).d]
             /\ v' = [v EXCEPT ![self] = Head(stack[self]).v]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                             gone, late, go, att, x, t >>

sink(self) == k1(self) \/ k2(self) \/ k3(self) \/ k4(self) \/ k5(self)
                 \/ k6(self) \/ k7(self) \/ k8(self) \/ k9(self)
                 \/ k10(self)

n1(self) == /\ pc[self] = "n1"
            /\ IF x[self] < prog.n
                  THEN /\ x' = [x EXCEPT ![self] = x[self] + 1]
                       /\ pc' = [pc EXCEPT ![self] = "n2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "n5"]
                       /\ x' = x
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, go, att, stack, v, d, t >>

n2(self) == /\ pc[self] = "n2"
            /\ IF un
                  THEN /\ pc' = [pc EXCEPT ![self] = "n3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "n4"]
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, go, att, stack, v, d, x, t >>

n3(self) == /\ pc[self] = "n3"
            /\ IF prog.op = "obs"
                  THEN /\ que' = (IF Variant = "lifo" THEN <<x[self]>> \o que ELSE Append(que, x[self]))
                       /\ pc' = [pc EXCEPT ![self] = "n4"]
                       /\ UNCHANGED << stack, v, d >>
                  ELSE /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sink",
                                                                   pc        |->  "n4",
                                                                   d         |->  d[self],
                                                                   v         |->  v[self] ] >>
                                                               \o stack[self]]
                          /\ v' = [v EXCEPT ![self] = x[self]]
                       /\ d' = [d EXCEPT ![self] = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "k1"]
                       /\ que' = que
            /\ UNCHANGED << prog, o, oh, us, un, fin, ab, out, where, gone, 
                            late, go, att, x, t >>

n4(self) == /\ pc[self] = "n4"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "n1"]
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, go, att, stack, v, d, x, t >>

n5(self) == /\ pc[self] = "n5"
            /\ IF prog.e = "-" \/ ~un
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ x' = [x EXCEPT ![self] = Head(stack[self]).x]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ un' = un
                  ELSE /\ un' = FALSE
                       /\ pc' = [pc EXCEPT ![self] = "n6"]
                       /\ UNCHANGED << stack, x >>
            /\ UNCHANGED << prog, o, oh, us, fin, que, ab, out, where, gone, 
                            late, go, att, v, d, t >>

n6(self) == /\ pc[self] = "n6"
            /\ IF prog.op = "obs" /\ Variant # "direct"
                  THEN /\ que' = Append(que, IF prog.e = "c" THEN 0 ELSE -1)
                       /\ IF Variant = "abortnow"
                             THEN /\ ab' = TRUE
                             ELSE /\ TRUE
                                  /\ ab' = ab
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ x' = [x EXCEPT ![self] = Head(stack[self]).x]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ UNCHANGED << v, d >>
                  ELSE /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sink",
                                                                   pc        |->  Head(stack[self]).pc,
                                                                   d         |->  d[self],
                                                                   v         |->  v[self] ] >>
                                                               \o Tail(stack[self])]
                          /\ v' = [v EXCEPT ![self] = IF prog.e = "c" THEN 0 ELSE -1]
                          /\ x' = [x EXCEPT ![self] = Head(stack[self]).x]
                       /\ d' = [d EXCEPT ![self] = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "k1"]
                       /\ UNCHANGED << que, ab >>
            /\ UNCHANGED << prog, o, oh, us, un, fin, out, where, gone, late, 
                            go, att, t >>

source(self) == n1(self) \/ n2(self) \/ n3(self) \/ n4(self) \/ n5(self)
                   \/ n6(self)

w1(self) == /\ pc[self] = "w1"
            /\ us' = TRUE
            /\ att' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "w2"]
            /\ UNCHANGED << prog, o, oh, un, fin, que, ab, out, where, gone, 
                            late, go, stack, v, d, x, t >>

w2(self) == /\ pc[self] = "w2"
            /\ IF ~Open /\ Variant # "nocheck2"
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finz",
                                                                pc        |->  "w3" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "f1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w3"]
                       /\ stack' = stack
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, go, att, v, d, x, t >>

w3(self) == /\ pc[self] = "w3"
            /\ IF prog.thr
                  THEN /\ go' = TRUE
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ x' = x
                  ELSE /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "source",
                                                                pc        |->  Head(stack[self]).pc,
                                                                x         |->  x[self] ] >>
                                                            \o Tail(stack[self])]
                       /\ x' = [x EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "n1"]
                       /\ go' = go
            /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, 
                            gone, late, att, v, d, t >>

connect(self) == w1(self) \/ w2(self) \/ w3(self)

b1 == /\ pc[1] = "b1"
      /\ oh' = TRUE
      /\ pc' = [pc EXCEPT ![1] = "b2"]
      /\ UNCHANGED << prog, o, us, un, fin, que, ab, out, where, gone, late, 
                      go, att, stack, v, d, x, t >>

b2 == /\ pc[1] = "b2"
      /\ IF ~Open
            THEN /\ stack' = [stack EXCEPT ![1] = << [ procedure |->  "close",
                                                       pc        |->  "b3" ] >>
                                                   \o stack[1]]
                 /\ pc' = [pc EXCEPT ![1] = "c1"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "b3"]
                 /\ stack' = stack
      /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, gone, 
                      late, go, att, v, d, x, t >>

b3 == /\ pc[1] = "b3"
      /\ IF Variant # "nofin"
            THEN /\ fin' = TRUE
            ELSE /\ TRUE
                 /\ fin' = fin
      /\ pc' = [pc EXCEPT ![1] = "b4"]
      /\ UNCHANGED << prog, o, oh, us, un, que, ab, out, where, gone, late, go, 
                      att, stack, v, d, x, t >>

b4 == /\ pc[1] = "b4"
      /\ IF ~Open
            THEN /\ stack' = [stack EXCEPT ![1] = << [ procedure |->  "finz",
                                                       pc        |->  "b5" ] >>
                                                   \o stack[1]]
                 /\ pc' = [pc EXCEPT ![1] = "f1"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "b5"]
                 /\ stack' = stack
      /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, gone, 
                      late, go, att, v, d, x, t >>

b5 == /\ pc[1] = "b5"
      /\ IF prog.op = "obs"
            THEN /\ stack' = [stack EXCEPT ![1] = << [ procedure |->  "connect",
                                                       pc        |->  "Done" ] >>
                                                   \o stack[1]]
                 /\ pc' = [pc EXCEPT ![1] = "w1"]
                 /\ que' = que
            ELSE /\ que' = Append(que, 99)
                 /\ pc' = [pc EXCEPT ![1] = "Done"]
                 /\ stack' = stack
      /\ UNCHANGED << prog, o, oh, us, un, fin, ab, out, where, gone, late, go, 
                      att, v, d, x, t >>

Sub == b1 \/ b2 \/ b3 \/ b4 \/ b5

x1 == /\ pc[2] = "x1"
      /\ IF prog.uns
            THEN /\ stack' = [stack EXCEPT ![2] = << [ procedure |->  "close",
                                                       pc        |->  "x2" ] >>
                                                   \o stack[2]]
                 /\ pc' = [pc EXCEPT ![2] = "c1"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "Done"]
                 /\ stack' = stack
      /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, gone, 
                      late, go, att, v, d, x, t >>

x2 == /\ pc[2] = "x2"
      /\ gone' = TRUE
      /\ pc' = [pc EXCEPT ![2] = "Done"]
      /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, late, go, 
                      att, stack, v, d, x, t >>

Uns == x1 \/ x2

q1 == /\ pc[3] = "q1"
      /\ ab \/ que # <<>>
      /\ IF ab
            THEN /\ pc' = [pc EXCEPT ![3] = "Done"]
                 /\ UNCHANGED << que, t >>
            ELSE /\ t' = Head(que)
                 /\ que' = Tail(que)
                 /\ pc' = [pc EXCEPT ![3] = "q2"]
      /\ UNCHANGED << prog, o, oh, us, un, fin, ab, out, where, gone, late, go, 
                      att, stack, v, d, x >>

q2 == /\ pc[3] = "q2"
      /\ IF t = 99
            THEN /\ stack' = [stack EXCEPT ![3] = << [ procedure |->  "connect",
                                                       pc        |->  "q1" ] >>
                                                   \o stack[3]]
                 /\ pc' = [pc EXCEPT ![3] = "w1"]
                 /\ UNCHANGED << v, d >>
            ELSE /\ /\ stack' = [stack EXCEPT ![3] = << [ procedure |->  "sink",
                                                          pc        |->  "q1",
                                                          d         |->  d[3],
                                                          v         |->  v[3] ] >>
                                                      \o stack[3]]
                    /\ v' = [v EXCEPT ![3] = t]
                 /\ d' = [d EXCEPT ![3] = FALSE]
                 /\ pc' = [pc EXCEPT ![3] = "k1"]
      /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, gone, 
                      late, go, att, x, t >>

Wrk == q1 \/ q2

s1 == /\ pc[4] = "s1"
      /\ IF ~prog.thr
            THEN /\ pc' = [pc EXCEPT ![4] = "Done"]
            ELSE /\ go \/ (ab /\ pc[3] = "Done" /\ pc[1] = "Done")
                 /\ pc' = [pc EXCEPT ![4] = "s2"]
      /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, gone, 
                      late, go, att, stack, v, d, x, t >>

s2 == /\ pc[4] = "s2"
      /\ IF go
            THEN /\ stack' = [stack EXCEPT ![4] = << [ procedure |->  "source",
                                                       pc        |->  "Done",
                                                       x         |->  x[4] ] >>
                                                   \o stack[4]]
                 /\ x' = [x EXCEPT ![4] = 0]
                 /\ pc' = [pc EXCEPT ![4] = "n1"]
            ELSE /\ pc' = [pc EXCEPT ![4] = "Done"]
                 /\ UNCHANGED << stack, x >>
      /\ UNCHANGED << prog, o, oh, us, un, fin, que, ab, out, where, gone, 
                      late, go, att, v, d, t >>

Src == s1 \/ s2

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == Sub \/ Uns \/ Wrk \/ Src
           \/ (\E self \in ProcSet:  \/ close(self) \/ finz(self) \/ sink(self)
                                     \/ source(self) \/ connect(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ /\ WF_vars(Sub)
           /\ WF_vars(close(1))
           /\ WF_vars(finz(1))
           /\ WF_vars(connect(1))
           /\ WF_vars(sink(1))
           /\ WF_vars(source(1))
        /\ WF_vars(Uns) /\ WF_vars(close(2)) /\ WF_vars(finz(2))
        /\ /\ WF_vars(Wrk)
           /\ WF_vars(connect(3))
           /\ WF_vars(sink(3))
           /\ WF_vars(close(3))
           /\ WF_vars(finz(3))
           /\ WF_vars(source(3))
        /\ /\ WF_vars(Src)
           /\ WF_vars(source(4))
           /\ WF_vars(close(4))
           /\ WF_vars(finz(4))
           /\ WF_vars(sink(4))

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Items == SelectSeq(out, LAMBDA y : y > 0)
\* a prefix of what was emitted, in order; the end comes last, once, after everything
Prefix == /\ Items = [k \in 1..Len(Items) |-> k]
          /\ \A k \in DOMAIN out : out[k] <= 0 => k = Len(out) /\ k = prog.n + 1 /\ out[k] = (IF prog.e = "c" THEN 0 ELSE -1)
\* on the worker and nowhere else (subscribe_on: unless the source has a thread of its own)
OnWorker == where \subseteq (IF prog.op = "sub" /\ prog.thr THEN {4} ELSE {3})
\* what began before unsubscribe returned may still come out: one callback, no more
Silent == late <= 1
All == \A p \in ProcSet : pc[p] = "Done"
\* nothing is lost unless somebody left
Whole == All /\ ~prog.uns /\ prog.cut = 0 => Len(out) = prog.n + 1
Cut == prog.cut # 0 => \A k \in DOMAIN out : k <= prog.cut
\* nothing stays behind
Empty == All => ~us /\ ~oh /\ ~fin /\ (att => ~un)
\* every thread comes to its end: the worker leaves
Ends == Termination
=============================================================================
