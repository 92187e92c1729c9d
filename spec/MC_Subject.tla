------------------------------ MODULE MC_Subject ------------------------------
(***************************************************************************)
(* The subjects as they are written (subject.rs, replay_subject.rs,        *)
(* behavior_subject.rs), lock by lock: producers push, subscribers join    *)
(* and leave, deliveries take time, everything on threads of its own.      *)
(* A subscriber of a replay subject has a Player (how far it has come, and *)
(* whether somebody is delivering); one of a behavior subject a Courier (a *)
(* queue, and whether somebody is delivering).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

\* "code", or a mistake this model must notice
Variant == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "code"
Kinds == IF "KIND" \in DOMAIN IOEnv THEN {IOEnv.KIND} ELSE {"plain", "replay", "behavior"}
Deep == "DEEP" \in DOMAIN IOEnv

Init0 == 0                                  \* the behavior subject's first value
Script(p, n) == [i \in 1..n |-> 10 * p + i]
\* how many items each producer pushes
Sizes == IF Deep THEN {<<1, 1>>, <<2, 0>>} ELSE {<<1, 1>>}
Ends == {"", "c"}
\* early: the subscriber joins before anything is pushed; leave: it unsubscribes
Joins == {[early |-> TRUE, leave |-> FALSE], [early |-> FALSE, leave |-> FALSE], [early |-> FALSE, leave |-> TRUE]}
Joined(o) == IF o = 4 /\ ~Deep THEN {[early |-> TRUE, leave |-> FALSE]} ELSE Joins
Progs == {[k |-> k, s |-> <<Script(1, n[1]), Script(2, n[2])>>, j |-> (3 :> x) @@ (4 :> y), e |-> e] :
            k \in Kinds, n \in Sizes, x \in Joined(3), y \in Joined(4), e \in Ends}

(* --algorithm subjects {
variables
  prog \in Progs;
  pushed = <<>>;                  \* items, in the order they took effect (the replay subject's store)
  done = FALSE;                   \* completed (after the last push)
  last = Init0;                   \* the behavior subject's value
  reg = {o \in 3..4 : prog.j[o].early};
  open = [o \in 3..4 |-> TRUE];
  pos = [o \in 3..4 |-> 0];       \* Player
  busy = [o \in 3..4 |-> FALSE];
  queue = [o \in 3..4 |-> <<>>];  \* Courier
  got = [o \in 3..4 |-> IF prog.k = "behavior" /\ prog.j[o].early THEN <<Init0>> ELSE <<>>];
  at = [o \in 3..4 |-> IF prog.j[o].early THEN 0 ELSE 99];  \* how much was pushed when the subscriber was taken in
  inside = [o \in 3..4 |-> 0];    \* deliveries going on
  ended = [o \in 3..4 |-> FALSE]; \* unsubscribe returned
  late = FALSE;                   \* a delivery began although unsubscribe had returned before its push began

define {
  K == prog.k
  Range(s) == {s[x] : x \in DOMAIN s}
}

\* Observer::next / complete of the subscriber, which takes its time
procedure hand(o1 = 0, v1 = 0)
{
h1: if (~open[o1]) { return; };
h2: got[o1] := Append(got[o1], v1);
    inside[o1] := inside[o1] + 1;
    if (v1 = 99) { open[o1] := FALSE; reg := reg \ {o1}; };
h3: inside[o1] := inside[o1] - 1;
    return;
}

\* Player::play
procedure play(o2 = 0)
  variables item = 0;
{
p1: if ((busy[o2] /\ Variant # "nobusy") \/ (pos[o2] >= Len(pushed) /\ ~done)) { return; }
    else {
      item := IF pos[o2] < Len(pushed) THEN pushed[pos[o2] + 1] ELSE 99;
      pos[o2] := pos[o2] + 1;
      busy[o2] := TRUE;
    };
p2: call hand(o2, item);
p3: busy[o2] := FALSE;
p4: if (~open[o2]) { return; } else { goto p1; };
}

\* Courier::post (v > 0 or 99) and Courier::deliver
procedure deliver(o3 = 0, v3 = -1)
  variables ev = 0;
{
d1: if (v3 >= 0) { queue[o3] := Append(queue[o3], v3); };
d2: if (busy[o3] \/ queue[o3] = <<>>) { return; }
    else { ev := Head(queue[o3]); queue[o3] := Tail(queue[o3]); busy[o3] := TRUE; };
d3: call hand(o3, ev);
d4: busy[o3] := FALSE;
d5: if (~open[o3]) { return; } else { goto d2; };
}

procedure push(v = 0)
  variables obs = {};
{
q1: if (K = "replay") { if (v = 99) { done := TRUE; } else { pushed := Append(pushed, v); }; }
    else if (K = "behavior") {
      if (v = 99) { done := TRUE; } else { last := v; pushed := Append(pushed, v); };
      if (Variant # "unlocked") { obs := reg; if (v = 99) { reg := {}; }; };
    }
    else { obs := reg; if (v = 99) { reg := {}; done := TRUE; } else { pushed := Append(pushed, v); }; };
q2: if (K = "replay" \/ (K = "behavior" /\ Variant = "unlocked")) { obs := reg; if (v = 99) { reg := {}; }; };
q3: while (obs # {}) {
      with (x \in obs) {
        obs := obs \ {x};
        if (K = "replay") { call play(x); }
        else if (K = "behavior") { call deliver(x, v); }
        else { call hand(x, v); };
      };
    };
    return;
}

process (P \in 1..2)
  variables todo = prog.s[self];
{
a1: while (todo # <<>>) {
      todo := Tail(todo);
      call push(10 * self + Len(prog.s[self]) - Len(todo));
    };
a2: if (self = 1 /\ prog.e = "c") { await pc[2] = "Done"; call push(99); };
}

process (S \in 3..4)
  variables first = 0;
{
s1: if (~prog.j[self].early) {
      if (K = "replay" /\ Variant = "snapshot") { pos[self] := Len(pushed); queue[self] := pushed; }
      else if (K = "behavior" /\ Variant = "unlocked") { first := last; }
      else {
        at[self] := Len(pushed);
        if (K = "behavior") { queue[self] := <<IF done THEN 99 ELSE last>> \o queue[self]; };
        if (~(K = "behavior" /\ done)) { reg := reg \cup {self}; };
      };
s2:   if (K = "replay" /\ Variant = "snapshot") { got[self] := queue[self]; reg := reg \cup {self}; at[self] := 0; }
      else if (K = "behavior" /\ Variant = "unlocked") { queue[self] := <<first>> \o queue[self]; reg := reg \cup {self}; at[self] := Len(pushed); };
s3:   if (K = "replay" /\ Variant # "snapshot") { call play(self); } else if (K = "behavior") { call deliver(self, -1); };
    };
s4: if (prog.j[self].leave) {
      open[self] := FALSE;
s5:   reg := reg \ {self};
s6:   ended[self] := TRUE;
    };
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, prog, pushed, done, last, reg, open, pos, busy, queue, got, at, 
          inside, ended, late, stack

(* define statement *)
K == prog.k
Range(s) == {s[x] : x \in DOMAIN s}

VARIABLES o1, v1, o2, item, o3, v3, ev, v, obs, todo, first

vars == << pc, prog, pushed, done, last, reg, open, pos, busy, queue, got, at, 
           inside, ended, late, stack, o1, v1, o2, item, o3, v3, ev, v, obs, 
           todo, first >>

ProcSet == (1..2) \cup (3..4)

Init == (* Global variables *)
        /\ prog \in Progs
        /\ pushed = <<>>
        /\ done = FALSE
        /\ last = Init0
        /\ reg = {o \in 3..4 : prog.j[o].early}
        /\ open = [o \in 3..4 |-> TRUE]
        /\ pos = [o \in 3..4 |-> 0]
        /\ busy = [o \in 3..4 |-> FALSE]
        /\ queue = [o \in 3..4 |-> <<>>]
        /\ got = [o \in 3..4 |-> IF prog.k = "behavior" /\ prog.j[o].early THEN <<Init0>> ELSE <<>>]
        /\ at = [o \in 3..4 |-> IF prog.j[o].early THEN 0 ELSE 99]
        /\ inside = [o \in 3..4 |-> 0]
        /\ ended = [o \in 3..4 |-> FALSE]
        /\ late = FALSE
        (* Procedure hand *)
        /\ o1 = [ self \in ProcSet |-> 0]
        /\ v1 = [ self \in ProcSet |-> 0]
        (* Procedure play *)
        /\ o2 = [ self \in ProcSet |-> 0]
        /\ item = [ self \in ProcSet |-> 0]
        (* Procedure deliver *)
        /\ o3 = [ self \in ProcSet |-> 0]
        /\ v3 = [ self \in ProcSet |-> -1]
        /\ ev = [ self \in ProcSet |-> 0]
        (* Procedure push *)
        /\ v = [ self \in ProcSet |-> 0]
        /\ obs = [ self \in ProcSet |-> {}]
        (* Process P *)
        /\ todo = [self \in 1..2 |-> prog.s[self]]
        (* Process S *)
        /\ first = [self \in 3..4 |-> 0]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self \in 1..2 -> "a1"
                                        [] self \in 3..4 -> "s1"]

h1(self) == /\ pc[self] = "h1"
            /\ IF ~open[o1[self]]
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ o1' = [o1 EXCEPT ![self] = Head(stack[self]).o1]
                       /\ v1' = [v1 EXCEPT ![self] = Head(stack[self]).v1]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "h2"]
                       /\ UNCHANGED << stack, o1, v1 >>
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, ended, late, o2, item, o3, 
                            v3, ev, v, obs, todo, first >>

h2(self) == /\ pc[self] = "h2"
            /\ got' = [got EXCEPT ![o1[self]] = Append(got[o1[self]], v1[self])]
            /\ inside' = [inside EXCEPT ![o1[self]] = inside[o1[self]] + 1]
            /\ IF v1[self] = 99
                  THEN /\ open' = [open EXCEPT ![o1[self]] = FALSE]
                       /\ reg' = reg \ {o1[self]}
                  ELSE /\ TRUE
                       /\ UNCHANGED << reg, open >>
            /\ pc' = [pc EXCEPT ![self] = "h3"]
            /\ UNCHANGED << prog, pushed, done, last, pos, busy, queue, at, 
                            ended, late, stack, o1, v1, o2, item, o3, v3, ev, 
                            v, obs, todo, first >>

h3(self) == /\ pc[self] = "h3"
            /\ inside' = [inside EXCEPT ![o1[self]] = inside[o1[self]] - 1]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ o1' = [o1 EXCEPT ![self] = Head(stack[self]).o1]
            /\ v1' = [v1 EXCEPT ![self] = Head(stack[self]).v1]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, ended, late, o2, item, o3, v3, ev, 
                            v, obs, todo, first >>

hand(self) == h1(self) \/ h2(self) \/ h3(self)

p1(self) == /\ pc[self] = "p1"
            /\ IF (busy[o2[self]] /\ Variant # "nobusy") \/ (pos[o2[self]] >= Len(pushed) /\ ~done)
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ item' = [item EXCEPT ![self] = Head(stack[self]).item]
                       /\ o2' = [o2 EXCEPT ![self] = Head(stack[self]).o2]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ UNCHANGED << pos, busy >>
                  ELSE /\ item' = [item EXCEPT ![self] = IF pos[o2[self]] < Len(pushed) THEN pushed[pos[o2[self]] + 1] ELSE 99]
                       /\ pos' = [pos EXCEPT ![o2[self]] = pos[o2[self]] + 1]
                       /\ busy' = [busy EXCEPT ![o2[self]] = TRUE]
                       /\ pc' = [pc EXCEPT ![self] = "p2"]
                       /\ UNCHANGED << stack, o2 >>
            /\ UNCHANGED << prog, pushed, done, last, reg, open, queue, got, 
                            at, inside, ended, late, o1, v1, o3, v3, ev, v, 
                            obs, todo, first >>

p2(self) == /\ pc[self] = "p2"
            /\ /\ o1' = [o1 EXCEPT ![self] = o2[self]]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "hand",
                                                        pc        |->  "p3",
                                                        o1        |->  o1[self],
                                                        v1        |->  v1[self] ] >>
                                                    \o stack[self]]
               /\ v1' = [v1 EXCEPT ![self] = item[self]]
            /\ pc' = [pc EXCEPT ![self] = "h1"]
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, ended, late, o2, item, o3, 
                            v3, ev, v, obs, todo, first >>

p3(self) == /\ pc[self] = "p3"
            /\ busy' = [busy EXCEPT ![o2[self]] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "p4"]
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, queue, 
                            got, at, inside, ended, late, stack, o1, v1, o2, 
                            item, o3, v3, ev, v, obs, todo, first >>

p4(self) == /\ pc[self] = "p4"
            /\ IF ~open[o2[self]]
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ item' = [item EXCEPT ![self] = Head(stack[self]).item]
                       /\ o2' = [o2 EXCEPT ![self] = Head(stack[self]).o2]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "p1"]
                       /\ UNCHANGED << stack, o2, item >>
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, ended, late, o1, v1, o3, 
                            v3, ev, v, obs, todo, first >>

play(self) == p1(self) \/ p2(self) \/ p3(self) \/ p4(self)

d1(self) == /\ pc[self] = "d1"
            /\ IF v3[self] >= 0
                  THEN /\ queue' = [queue EXCEPT ![o3[self]] = Append(queue[o3[self]], v3[self])]
                  ELSE /\ TRUE
                       /\ queue' = queue
            /\ pc' = [pc EXCEPT ![self] = "d2"]
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            got, at, inside, ended, late, stack, o1, v1, o2, 
                            item, o3, v3, ev, v, obs, todo, first >>

d2(self) == /\ pc[self] = "d2"
            /\ IF busy[o3[self]] \/ queue[o3[self]] = <<>>
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ ev' = [ev EXCEPT ![self] = Head(stack[self]).ev]
                       /\ o3' = [o3 EXCEPT ![self] = Head(stack[self]).o3]
                       /\ v3' = [v3 EXCEPT ![self] = Head(stack[self]).v3]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ UNCHANGED << busy, queue >>
                  ELSE /\ ev' = [ev EXCEPT ![self] = Head(queue[o3[self]])]
                       /\ queue' = [queue EXCEPT ![o3[self]] = Tail(queue[o3[self]])]
                       /\ busy' = [busy EXCEPT ![o3[self]] = TRUE]
                       /\ pc' = [pc EXCEPT ![self] = "d3"]
                       /\ UNCHANGED << stack, o3, v3 >>
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, got, at, 
                            inside, ended, late, o1, v1, o2, item, v, obs, 
                            todo, first >>

d3(self) == /\ pc[self] = "d3"
            /\ /\ o1' = [o1 EXCEPT ![self] = o3[self]]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "hand",
                                                        pc        |->  "d4",
                                                        o1        |->  o1[self],
                                                        v1        |->  v1[self] ] >>
                                                    \o stack[self]]
               /\ v1' = [v1 EXCEPT ![self] = ev[self]]
            /\ pc' = [pc EXCEPT ![self] = "h1"]
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, ended, late, o2, item, o3, 
                            v3, ev, v, obs, todo, first >>

d4(self) == /\ pc[self] = "d4"
            /\ busy' = [busy EXCEPT ![o3[self]] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "d5"]
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, queue, 
                            got, at, inside, ended, late, stack, o1, v1, o2, 
                            item, o3, v3, ev, v, obs, todo, first >>

d5(self) == /\ pc[self] = "d5"
            /\ IF ~open[o3[self]]
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ ev' = [ev EXCEPT ![self] = Head(stack[self]).ev]
                       /\ o3' = [o3 EXCEPT ![self] = Head(stack[self]).o3]
                       /\ v3' = [v3 EXCEPT ![self] = Head(stack[self]).v3]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "d2"]
                       /\ UNCHANGED << stack, o3, v3, ev >>
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, ended, late, o1, v1, o2, 
                            item, v, obs, todo, first >>

deliver(self) == d1(self) \/ d2(self) \/ d3(self) \/ d4(self) \/ d5(self)

q1(self) == /\ pc[self] = "q1"
            /\ IF K = "replay"
                  THEN /\ IF v[self] = 99
                             THEN /\ done' = TRUE
                                  /\ UNCHANGED pushed
                             ELSE /\ pushed' = Append(pushed, v[self])
                                  /\ done' = done
                       /\ UNCHANGED << last, reg, obs >>
                  ELSE /\ IF K = "behavior"
                             THEN /\ IF v[self] = 99
                                        THEN /\ done' = TRUE
                                             /\ UNCHANGED << pushed, last >>
                                        ELSE /\ last' = v[self]
                                             /\ pushed' = Append(pushed, v[self])
                                             /\ done' = done
                                  /\ IF Variant # "unlocked"
                                        THEN /\ obs' = [obs EXCEPT ![self] = reg]
                                             /\ IF v[self] = 99
                                                   THEN /\ reg' = {}
                                                   ELSE /\ TRUE
                                                        /\ reg' = reg
                                        ELSE /\ TRUE
                                             /\ UNCHANGED << reg, obs >>
                             ELSE /\ obs' = [obs EXCEPT ![self] = reg]
                                  /\ IF v[self] = 99
                                        THEN /\ reg' = {}
                                             /\ done' = TRUE
                                             /\ UNCHANGED pushed
                                        ELSE /\ pushed' = Append(pushed, v[self])
                                             /\ UNCHANGED << done, reg >>
                                  /\ last' = last
            /\ pc' = [pc EXCEPT ![self] = "q2"]
            /\ UNCHANGED << prog, open, pos, busy, queue, got, at, inside, 
                            ended, late, stack, o1, v1, o2, item, o3, v3, ev, 
                            v, todo, first >>

q2(self) == /\ pc[self] = "q2"
            /\ IF K = "replay" \/ (K = "behavior" /\ Variant = "unlocked")
                  THEN /\ obs' = [obs EXCEPT ![self] = reg]
                       /\ IF v[self] = 99
                             THEN /\ reg' = {}
                             ELSE /\ TRUE
                                  /\ reg' = reg
                  ELSE /\ TRUE
                       /\ UNCHANGED << reg, obs >>
            /\ pc' = [pc EXCEPT ![self] = "q3"]
            /\ UNCHANGED << prog, pushed, done, last, open, pos, busy, queue, 
                            got, at, inside, ended, late, stack, o1, v1, o2, 
                            item, o3, v3, ev, v, todo, first >>

q3(self) == /\ pc[self] = "q3"
            /\ IF obs[self] # {}
                  THEN /\ \E x \in obs[self]:
                            /\ obs' = [obs EXCEPT ![self] = obs[self] \ {x}]
                            /\ IF K = "replay"
                                  THEN /\ /\ o2' = [o2 EXCEPT ![self] = x]
                                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "play",
                                                                                   pc        |->  "q3",
                                                                                   item      |->  item[self],
                                                                                   o2        |->  o2[self] ] >>
                                                                               \o stack[self]]
                                       /\ item' = [item EXCEPT ![self] = 0]
                                       /\ pc' = [pc EXCEPT ![self] = "p1"]
                                       /\ UNCHANGED << o1, v1, o3, v3, ev >>
                                  ELSE /\ IF K = "behavior"
                                             THEN /\ /\ o3' = [o3 EXCEPT ![self] = x]
                                                     /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "deliver",
                                                                                              pc        |->  "q3",
                                                                                              ev        |->  ev[self],
                                                                                              o3        |->  o3[self],
                                                                                              v3        |->  v3[self] ] >>
                                                                                          \o stack[self]]
                                                     /\ v3' = [v3 EXCEPT ![self] = v[self]]
                                                  /\ ev' = [ev EXCEPT ![self] = 0]
                                                  /\ pc' = [pc EXCEPT ![self] = "d1"]
                                                  /\ UNCHANGED << o1, v1 >>
                                             ELSE /\ /\ o1' = [o1 EXCEPT ![self] = x]
                                                     /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "hand",
                                                                                              pc        |->  "q3",
                                                                                              o1        |->  o1[self],
                                                                                              v1        |->  v1[self] ] >>
                                                                                          \o stack[self]]
                                                     /\ v1' = [v1 EXCEPT ![self] = v[self]]
                                                  /\ pc' = [pc EXCEPT ![self] = "h1"]
                                                  /\ UNCHANGED << o3, v3, ev >>
                                       /\ UNCHANGED << o2, item >>
                       /\ v' = v
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ obs' = [obs EXCEPT ![self] = Head(stack[self]).obs]
                       /\ v' = [v EXCEPT ![self] = Head(stack[self]).v]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ UNCHANGED << o1, v1, o2, item, o3, v3, ev >>
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, ended, late, todo, first >>

push(self) == q1(self) \/ q2(self) \/ q3(self)

a1(self) == /\ pc[self] = "a1"
            /\ IF todo[self] # <<>>
                  THEN /\ todo' = [todo EXCEPT ![self] = Tail(todo[self])]
                       /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                   pc        |->  "a1",
                                                                   obs       |->  obs[self],
                                                                   v         |->  v[self] ] >>
                                                               \o stack[self]]
                          /\ v' = [v EXCEPT ![self] = 10 * self + Len(prog.s[self]) - Len(todo'[self])]
                       /\ obs' = [obs EXCEPT ![self] = {}]
                       /\ pc' = [pc EXCEPT ![self] = "q1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a2"]
                       /\ UNCHANGED << stack, v, obs, todo >>
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, ended, late, o1, v1, o2, 
                            item, o3, v3, ev, first >>

a2(self) == /\ pc[self] = "a2"
            /\ IF self = 1 /\ prog.e = "c"
                  THEN /\ pc[2] = "Done"
                       /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                   pc        |->  "Done",
                                                                   obs       |->  obs[self],
                                                                   v         |->  v[self] ] >>
                                                               \o stack[self]]
                          /\ v' = [v EXCEPT ![self] = 99]
                       /\ obs' = [obs EXCEPT ![self] = {}]
                       /\ pc' = [pc EXCEPT ![self] = "q1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << stack, v, obs >>
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, ended, late, o1, v1, o2, 
                            item, o3, v3, ev, todo, first >>

P(self) == a1(self) \/ a2(self)

s1(self) == /\ pc[self] = "s1"
            /\ IF ~prog.j[self].early
                  THEN /\ IF K = "replay" /\ Variant = "snapshot"
                             THEN /\ pos' = [pos EXCEPT ![self] = Len(pushed)]
                                  /\ queue' = [queue EXCEPT ![self] = pushed]
                                  /\ UNCHANGED << reg, at, first >>
                             ELSE /\ IF K = "behavior" /\ Variant = "unlocked"
                                        THEN /\ first' = [first EXCEPT ![self] = last]
                                             /\ UNCHANGED << reg, queue, at >>
                                        ELSE /\ at' = [at EXCEPT ![self] = Len(pushed)]
                                             /\ IF K = "behavior"
                                                   THEN /\ queue' = [queue EXCEPT ![self] = <<IF done THEN 99 ELSE last>> \o queue[self]]
                                                   ELSE /\ TRUE
                                                        /\ queue' = queue
                                             /\ IF ~(K = "behavior" /\ done)
                                                   THEN /\ reg' = (reg \cup {self})
                                                   ELSE /\ TRUE
                                                        /\ reg' = reg
                                             /\ first' = first
                                  /\ pos' = pos
                       /\ pc' = [pc EXCEPT ![self] = "s2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "s4"]
                       /\ UNCHANGED << reg, pos, queue, at, first >>
            /\ UNCHANGED << prog, pushed, done, last, open, busy, got, inside, 
                            ended, late, stack, o1, v1, o2, item, o3, v3, ev, 
                            v, obs, todo >>

s2(self) == /\ pc[self] = "s2"
            /\ IF K = "replay" /\ Variant = "snapshot"
                  THEN /\ got' = [got EXCEPT ![self] = queue[self]]
                       /\ reg' = (reg \cup {self})
                       /\ at' = [at EXCEPT ![self] = 0]
                       /\ queue' = queue
                  ELSE /\ IF K = "behavior" /\ Variant = "unlocked"
                             THEN /\ queue' = [queue EXCEPT ![self] = <<first[self]>> \o queue[self]]
                                  /\ reg' = (reg \cup {self})
                                  /\ at' = [at EXCEPT ![self] = Len(pushed)]
                             ELSE /\ TRUE
                                  /\ UNCHANGED << reg, queue, at >>
                       /\ got' = got
            /\ pc' = [pc EXCEPT ![self] = "s3"]
            /\ UNCHANGED << prog, pushed, done, last, open, pos, busy, inside, 
                            ended, late, stack, o1, v1, o2, item, o3, v3, ev, 
                            v, obs, todo, first >>

s3(self) == /\ pc[self] = "s3"
            /\ IF K = "replay" /\ Variant # "snapshot"
                  THEN /\ /\ o2' = [o2 EXCEPT ![self] = self]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "play",
                                                                   pc        |->  "s4",
                                                                   item      |->  item[self],
                                                                   o2        |->  o2[self] ] >>
                                                               \o stack[self]]
                       /\ item' = [item EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "p1"]
                       /\ UNCHANGED << o3, v3, ev >>
                  ELSE /\ IF K = "behavior"
                             THEN /\ /\ o3' = [o3 EXCEPT ![self] = self]
                                     /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "deliver",
                                                                              pc        |->  "s4",
                                                                              ev        |->  ev[self],
                                                                              o3        |->  o3[self],
                                                                              v3        |->  v3[self] ] >>
                                                                          \o stack[self]]
                                     /\ v3' = [v3 EXCEPT ![self] = -1]
                                  /\ ev' = [ev EXCEPT ![self] = 0]
                                  /\ pc' = [pc EXCEPT ![self] = "d1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "s4"]
                                  /\ UNCHANGED << stack, o3, v3, ev >>
                       /\ UNCHANGED << o2, item >>
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, ended, late, o1, v1, v, 
                            obs, todo, first >>

s4(self) == /\ pc[self] = "s4"
            /\ IF prog.j[self].leave
                  THEN /\ open' = [open EXCEPT ![self] = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "s5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ open' = open
            /\ UNCHANGED << prog, pushed, done, last, reg, pos, busy, queue, 
                            got, at, inside, ended, late, stack, o1, v1, o2, 
                            item, o3, v3, ev, v, obs, todo, first >>

s5(self) == /\ pc[self] = "s5"
            /\ reg' = reg \ {self}
            /\ pc' = [pc EXCEPT ![self] = "s6"]
            /\ UNCHANGED << prog, pushed, done, last, open, pos, busy, queue, 
                            got, at, inside, ended, late, stack, o1, v1, o2, 
                            item, o3, v3, ev, v, obs, todo, first >>

s6(self) == /\ pc[self] = "s6"
            /\ ended' = [ended EXCEPT ![self] = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << prog, pushed, done, last, reg, open, pos, busy, 
                            queue, got, at, inside, late, stack, o1, v1, o2, 
                            item, o3, v3, ev, v, obs, todo, first >>

S(self) == s1(self) \/ s2(self) \/ s3(self) \/ s4(self) \/ s5(self)
              \/ s6(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in ProcSet:  \/ hand(self) \/ play(self) \/ deliver(self)
                               \/ push(self))
           \/ (\E self \in 1..2: P(self))
           \/ (\E self \in 3..4: S(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

AllDone == \A t \in ProcSet : pc[t] = "Done"
Stays(o) == ~prog.j[o].leave
Vals(o) == SelectSeq(got[o], LAMBDA x : x # 99)
\* no item twice (the first value of a behavior subject may be any)
Once == \A o \in 3..4 : \A x, y \in DOMAIN got[o] : x # y => got[o][x] # got[o][y]
\* items of one producer in its order
Ordered == \A o \in 3..4 : \A x, y \in DOMAIN got[o] :
             x < y /\ got[o][x] \div 10 = got[o][y] \div 10 => got[o][x] < got[o][y]
\* the terminal is the last thing
TermLast == \A o \in 3..4 : \A x \in DOMAIN got[o] : got[o][x] = 99 => x = Len(got[o])
\* a replay or behavior subject delivers one thing at a time to a subscriber
OneAtATime == K # "plain" => \A o \in 3..4 : inside[o] <= 1
\* nothing is lost
Complete ==
  AllDone => \A o \in 3..4 : Stays(o) =>
    CASE K = "replay" -> Vals(o) = pushed
      [] K = "behavior" -> /\ Range(Vals(o)) \ {IF Vals(o) = <<>> THEN 0 ELSE Vals(o)[1]} = Range(SubSeq(pushed, at[o] + 1, Len(pushed)))
      [] OTHER -> Range(Vals(o)) = Range(pushed) \/ ~prog.j[o].early
\* all subscribers of a replay subject see one order
SameOrder == K = "replay" => \A o \in 3..4 : Vals(o) = SubSeq(pushed, 1, Len(Vals(o)))
Terminated == AllDone /\ prog.e = "c" => \A o \in 3..4 : Stays(o) => (K = "plain" /\ ~prog.j[o].early) \/ 99 \in Range(got[o])
=============================================================================
