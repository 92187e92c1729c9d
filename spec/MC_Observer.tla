----------------------------- MODULE MC_Observer -----------------------------
(***************************************************************************)
(* The protocol by which observers end, as the code is written             *)
(* (observer.rs, function_wrapper.rs, stream_controller.rs, and the parts  *)
(* of merge, zip, amb and take that run on several threads): every lock is *)
(* taken, read or written in a step of its own, callbacks take time, and   *)
(* threads interleave in every way.                                        *)
(*                                                                         *)
(* Observer 0 is the subscriber, observers 1.. are the inputs of one       *)
(* operator; observer o has the three cells fn_next, fn_error, fn_complete *)
(* and the hook fn_on_unsubscribe.  Thread t calls input In[t] according   *)
(* to its script; a last thread may unsubscribe.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

\* "code", or a mistake this model must notice
Variant == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "code"
Deep == "DEEP" \in DOMAIN IOEnv

S(n, t) == [x \in 1..n |-> <<"n", x>>] \o (IF t = "" THEN <<>> ELSE <<<<t, 0>>>>)
Kinds == IF "KIND" \in DOMAIN IOEnv THEN {IOEnv.KIND} ELSE {"merge", "zip", "amb", "pass", "take"}
Scripts(k) == {S(IF k = "zip" THEN 2 ELSE 0, "c"), S(1, "c"), S(1, "e")} \cup (IF Deep THEN {S(2, "c"), S(0, "e"), S(2, "")} ELSE {})
Progs == UNION {{[k |-> k, in |-> IF k \in {"pass", "take"} THEN <<1, 1>> ELSE <<1, 2>>, s |-> <<a, b>>, u |-> u] :
              a \in Scripts(k), b \in Scripts(k), u \in BOOLEAN} : k \in Kinds}

(* --fair algorithm observers {
variables
  prog \in Progs;
  cell = [o \in 0..2 |-> [n |-> TRUE, e |-> TRUE, c |-> TRUE, u |-> o = 0]];  \* functions still there
  map = IF prog.k \in {"pass", "take"} THEN {1} ELSE {1, 2};                 \* StreamController.unscribers
  q = <<<<>>, <<>>>>;          \* zip's buffers
  win = 0;                     \* amb's winner
  cnt = 0;                     \* take's counter
  got = <<>>;                  \* callbacks of the subscriber, in the order they started
  ended = FALSE;               \* a terminal callback, or unsubscribe(), has returned
  bg = [t \in 1..2 |-> FALSE]; \* whether that was so when t's current call began
  late = FALSE;                \* a callback started for such a call

define {
  Open == cell[0].n /\ cell[0].e /\ cell[0].c
  K == prog.k
  Terms(s) == {x \in DOMAIN s : s[x][1] # "n"}
}

\* Observer::unsubscribe
procedure unsub(ob = 0)
  variables hook = FALSE;
{
u1: if (ob > 0) {            \* an input: nobody looks at two of its cells at once
      cell[ob] := [n |-> FALSE, e |-> FALSE, c |-> FALSE, u |-> FALSE];
      return;
    } else cell[ob].n := FALSE;
u2: cell[ob].e := FALSE;
u3: cell[ob].c := FALSE;
u4: hook := cell[ob].u;
    cell[ob].u := FALSE;
u5: if (hook) { call finalize(); return; } else return;
}

\* StreamController::finalize
procedure finalize()
  variables mine = {};
{
f1: mine := map;
    map := {};
f2: while (mine # {}) {
      with (x \in mine) { mine := mine \ {x}; call unsub(x); };
    };
f3: if (Open) { call unsub(0); return; } else return;
}

\* StreamController::sink_next followed by Observer::next of the subscriber
procedure sinkNext(item = <<>>)
{
n1: if (~Open) { call finalize(); return; };
n2: if (cell[0].n) { got := Append(got, <<"n", item>>); late := late \/ bg[self]; };
    return;
}

procedure sinkTerm(kk = "")
  variables mineT = FALSE;
{
t1: if (~Open) { goto t9; };
t2: mineT := cell[0].n;                   \* whoever takes fn_next closes the observer
    cell[0].n := FALSE;
t3: if (mineT \/ Variant = "both") {
      if (kk = "e") { cell[0].c := FALSE; } else { cell[0].e := FALSE; };
t4:   if (kk = "e" /\ cell[0].e) { cell[0].e := FALSE; got := Append(got, <<kk, <<>>>>); late := late \/ bg[self]; }
      else if (kk = "c" /\ cell[0].c) { cell[0].c := FALSE; got := Append(got, <<kk, <<>>>>); late := late \/ bg[self]; }
      else { goto t6; };
t5:   ended := TRUE;
t6:   call unsub(0);
    };
t9: call finalize(); return;
}

procedure sinkComplete(i = 0)
  variables last = FALSE;
{
c1: if (~Open) { call finalize(); return; };
c2: if (Variant = "checkfirst") { last := map \subseteq {i}; }
    else { map := map \ {i}; last := map = {}; };
c3: if (Variant = "checkfirst") { map := map \ {i}; };
c4: if (last) { call sinkTerm("c"); return; } else return;
}

process (T \in 1..2)
  variables todo = prog.s[self]; ev = <<>>; i0 = prog.in[self]; ok = FALSE; row = <<>>; emit = FALSE; full = FALSE;
{
a0: while (todo # <<>>) {
      ev := <<Head(todo)[1], <<self, Head(todo)[2]>>>>;
      todo := Tail(todo);
      bg[self] := ended;
      if (ev[1] = "n") {
        ok := cell[i0].n;
a1:     if (ok) {
          if (K \in {"merge", "pass"}) { call sinkNext(ev[2]); }
          else if (K = "amb") {
            if (win \in {0, self}) { win := self; call sinkNext(ev[2]); }
            else { map := map \ {i0}; call unsub(i0); };
          }
          else if (K = "take") {
            emit := cnt < 1;
            full := cnt + 1 >= 1;
            cnt := cnt + 1;
a2:         if (emit) { call sinkNext(ev[2]); };
a3:         if (full) {
              map := map \ {i0};
              call unsub(i0);
a4:           call sinkComplete(i0);
a5:           call finalize();
            };
          }
          else { \* zip
            q[self] := Append(q[self], ev[2]);
a6:         row := IF q[1] # <<>> /\ q[2] # <<>> THEN <<Head(q[1]), Head(q[2])>> ELSE <<>>;
            if (row # <<>>) {
              q := IF Variant = "zippop" THEN q ELSE <<Tail(q[1]), Tail(q[2])>>;
a7:           if (Variant = "zippop") { q := <<IF q[1] = <<>> THEN <<>> ELSE Tail(q[1]), IF q[2] = <<>> THEN <<>> ELSE Tail(q[2])>>; };
a8:           if (~Open) { goto a9; };
a10:          call sinkNext(row);
a11:          goto a6;
            };
          };
        };
a9:     skip;
      } else {
        \* Observer::error / complete of the input
        ok := cell[i0].n;
        cell[i0].n := FALSE;
b1:     if (ok \/ Variant = "both") {
          if (ev[1] = "e") { cell[i0].c := FALSE; } else { cell[i0].e := FALSE; };
b2:       ok := IF ev[1] = "e" THEN cell[i0].e ELSE cell[i0].c;
          if (ev[1] = "e") { cell[i0].e := FALSE; } else { cell[i0].c := FALSE; };
b3:       if (ok) {
            if (K = "amb") {
              if (win \in {0, self}) { win := self; call sinkTerm(ev[1]); }
              else { map := map \ {i0}; call unsub(i0); };
            }
            else if (ev[1] = "e") { call sinkTerm("e"); }
            else { call sinkComplete(i0); };
          };
b4:       call unsub(i0);
        };
      };
    };
}

process (U = 3)
{
z0: if (prog.u) { call unsub(0);
z1:   ended := TRUE; };
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, prog, cell, map, q, win, cnt, got, ended, bg, late, stack

(* define statement *)
Open == cell[0].n /\ cell[0].e /\ cell[0].c
K == prog.k
Terms(s) == {x \in DOMAIN s : s[x][1] # "n"}

VARIABLES ob, hook, mine, item, kk, mineT, i, last, todo, ev, i0, ok, row, 
          emit, full

vars == << pc, prog, cell, map, q, win, cnt, got, ended, bg, late, stack, ob, 
           hook, mine, item, kk, mineT, i, last, todo, ev, i0, ok, row, emit, 
           full >>

ProcSet == (1..2) \cup {3}

Init == (* Global variables *)
        /\ prog \in Progs
        /\ cell = [o \in 0..2 |-> [n |-> TRUE, e |-> TRUE, c |-> TRUE, u |-> o = 0]]
        /\ map = (IF prog.k \in {"pass", "take"} THEN {1} ELSE {1, 2})
        /\ q = <<<<>>, <<>>>>
        /\ win = 0
        /\ cnt = 0
        /\ got = <<>>
        /\ ended = FALSE
        /\ bg = [t \in 1..2 |-> FALSE]
        /\ late = FALSE
        (* Procedure unsub *)
        /\ ob = [ self \in ProcSet |-> 0]
        /\ hook = [ self \in ProcSet |-> FALSE]
        (* Procedure finalize *)
        /\ mine = [ self \in ProcSet |-> {}]
        (* Procedure sinkNext *)
        /\ item = [ self \in ProcSet |-> <<>>]
        (* Procedure sinkTerm *)
        /\ kk = [ self \in ProcSet |-> ""]
        /\ mineT = [ self \in ProcSet |-> FALSE]
        (* Procedure sinkComplete *)
        /\ i = [ self \in ProcSet |-> 0]
        /\ last = [ self \in ProcSet |-> FALSE]
        (* Process T *)
        /\ todo = [self \in 1..2 |-> prog.s[self]]
        /\ ev = [self \in 1..2 |-> <<>>]
        /\ i0 = [self \in 1..2 |-> prog.in[self]]
        /\ ok = [self \in 1..2 |-> FALSE]
        /\ row = [self \in 1..2 |-> <<>>]
        /\ emit = [self \in 1..2 |-> FALSE]
        /\ full = [self \in 1..2 |-> FALSE]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self \in 1..2 -> "a0"
                                        [] self = 3 -> "z0"]

u1(self) == /\ pc[self] = "u1"
            /\ IF ob[self] > 0
                  THEN /\ cell' = [cell EXCEPT ![ob[self]] = [n |-> FALSE, e |-> FALSE, c |-> FALSE, u |-> FALSE]]
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ hook' = [hook EXCEPT ![self] = Head(stack[self]).hook]
                       /\ ob' = [ob EXCEPT ![self] = Head(stack[self]).ob]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ cell' = [cell EXCEPT ![ob[self]].n = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "u2"]
                       /\ UNCHANGED << stack, ob, hook >>
            /\ UNCHANGED << prog, map, q, win, cnt, got, ended, bg, late, mine, 
                            item, kk, mineT, i, last, todo, ev, i0, ok, row, 
                            emit, full >>

u2(self) == /\ pc[self] = "u2"
            /\ cell' = [cell EXCEPT ![ob[self]].e = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "u3"]
            /\ UNCHANGED << prog, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, row, emit, full >>

u3(self) == /\ pc[self] = "u3"
            /\ cell' = [cell EXCEPT ![ob[self]].c = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "u4"]
            /\ UNCHANGED << prog, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, row, emit, full >>

u4(self) == /\ pc[self] = "u4"
            /\ hook' = [hook EXCEPT ![self] = cell[ob[self]].u]
            /\ cell' = [cell EXCEPT ![ob[self]].u = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "u5"]
            /\ UNCHANGED << prog, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, mine, item, kk, mineT, i, last, todo, 
                            ev, i0, ok, row, emit, full >>

u5(self) == /\ pc[self] = "u5"
            /\ IF hook[self]
                  THEN /\ /\ hook' = [hook EXCEPT ![self] = Head(stack[self]).hook]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finalize",
                                                                   pc        |->  Head(stack[self]).pc,
                                                                   mine      |->  mine[self] ] >>
                                                               \o Tail(stack[self])]
                       /\ mine' = [mine EXCEPT ![self] = {}]
                       /\ pc' = [pc EXCEPT ![self] = "f1"]
                       /\ ob' = ob
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ hook' = [hook EXCEPT ![self] = Head(stack[self]).hook]
                       /\ ob' = [ob EXCEPT ![self] = Head(stack[self]).ob]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ mine' = mine
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            item, kk, mineT, i, last, todo, ev, i0, ok, row, 
                            emit, full >>

unsub(self) == u1(self) \/ u2(self) \/ u3(self) \/ u4(self) \/ u5(self)

f1(self) == /\ pc[self] = "f1"
            /\ mine' = [mine EXCEPT ![self] = map]
            /\ map' = {}
            /\ pc' = [pc EXCEPT ![self] = "f2"]
            /\ UNCHANGED << prog, cell, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, item, kk, mineT, i, last, todo, 
                            ev, i0, ok, row, emit, full >>

f2(self) == /\ pc[self] = "f2"
            /\ IF mine[self] # {}
                  THEN /\ \E x \in mine[self]:
                            /\ mine' = [mine EXCEPT ![self] = mine[self] \ {x}]
                            /\ /\ ob' = [ob EXCEPT ![self] = x]
                               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "unsub",
                                                                        pc        |->  "f2",
                                                                        hook      |->  hook[self],
                                                                        ob        |->  ob[self] ] >>
                                                                    \o stack[self]]
                            /\ hook' = [hook EXCEPT ![self] = FALSE]
                            /\ pc' = [pc EXCEPT ![self] = "u1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "f3"]
                       /\ UNCHANGED << stack, ob, hook, mine >>
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            item, kk, mineT, i, last, todo, ev, i0, ok, row, 
                            emit, full >>

f3(self) == /\ pc[self] = "f3"
            /\ IF Open
                  THEN /\ /\ mine' = [mine EXCEPT ![self] = Head(stack[self]).mine]
                          /\ ob' = [ob EXCEPT ![self] = 0]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "unsub",
                                                                   pc        |->  Head(stack[self]).pc,
                                                                   hook      |->  hook[self],
                                                                   ob        |->  ob[self] ] >>
                                                               \o Tail(stack[self])]
                       /\ hook' = [hook EXCEPT ![self] = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "u1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ mine' = [mine EXCEPT ![self] = Head(stack[self]).mine]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ UNCHANGED << ob, hook >>
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            item, kk, mineT, i, last, todo, ev, i0, ok, row, 
                            emit, full >>

finalize(self) == f1(self) \/ f2(self) \/ f3(self)

n1(self) == /\ pc[self] = "n1"
            /\ IF ~Open
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finalize",
                                                                pc        |->  Head(stack[self]).pc,
                                                                mine      |->  mine[self] ] >>
                                                            \o Tail(stack[self])]
                       /\ mine' = [mine EXCEPT ![self] = {}]
                       /\ pc' = [pc EXCEPT ![self] = "f1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "n2"]
                       /\ UNCHANGED << stack, mine >>
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            ob, hook, item, kk, mineT, i, last, todo, ev, i0, 
                            ok, row, emit, full >>

n2(self) == /\ pc[self] = "n2"
            /\ IF cell[0].n
                  THEN /\ got' = Append(got, <<"n", item[self]>>)
                       /\ late' = (late \/ bg[self])
                  ELSE /\ TRUE
                       /\ UNCHANGED << got, late >>
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ item' = [item EXCEPT ![self] = Head(stack[self]).item]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, ended, bg, ob, hook, 
                            mine, kk, mineT, i, last, todo, ev, i0, ok, row, 
                            emit, full >>

sinkNext(self) == n1(self) \/ n2(self)

t1(self) == /\ pc[self] = "t1"
            /\ IF ~Open
                  THEN /\ pc' = [pc EXCEPT ![self] = "t9"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "t2"]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, row, emit, full >>

t2(self) == /\ pc[self] = "t2"
            /\ mineT' = [mineT EXCEPT ![self] = cell[0].n]
            /\ cell' = [cell EXCEPT ![0].n = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "t3"]
            /\ UNCHANGED << prog, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, i, last, todo, ev, 
                            i0, ok, row, emit, full >>

t3(self) == /\ pc[self] = "t3"
            /\ IF mineT[self] \/ Variant = "both"
                  THEN /\ IF kk[self] = "e"
                             THEN /\ cell' = [cell EXCEPT ![0].c = FALSE]
                             ELSE /\ cell' = [cell EXCEPT ![0].e = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "t4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "t9"]
                       /\ cell' = cell
            /\ UNCHANGED << prog, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, row, emit, full >>

t4(self) == /\ pc[self] = "t4"
            /\ IF kk[self] = "e" /\ cell[0].e
                  THEN /\ cell' = [cell EXCEPT ![0].e = FALSE]
                       /\ got' = Append(got, <<kk[self], <<>>>>)
                       /\ late' = (late \/ bg[self])
                       /\ pc' = [pc EXCEPT ![self] = "t5"]
                  ELSE /\ IF kk[self] = "c" /\ cell[0].c
                             THEN /\ cell' = [cell EXCEPT ![0].c = FALSE]
                                  /\ got' = Append(got, <<kk[self], <<>>>>)
                                  /\ late' = (late \/ bg[self])
                                  /\ pc' = [pc EXCEPT ![self] = "t5"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "t6"]
                                  /\ UNCHANGED << cell, got, late >>
            /\ UNCHANGED << prog, map, q, win, cnt, ended, bg, stack, ob, hook, 
                            mine, item, kk, mineT, i, last, todo, ev, i0, ok, 
                            row, emit, full >>

t5(self) == /\ pc[self] = "t5"
            /\ ended' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "t6"]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, bg, late, stack, 
                            ob, hook, mine, item, kk, mineT, i, last, todo, ev, 
                            i0, ok, row, emit, full >>

t6(self) == /\ pc[self] = "t6"
            /\ /\ ob' = [ob EXCEPT ![self] = 0]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "unsub",
                                                        pc        |->  "t9",
                                                        hook      |->  hook[self],
                                                        ob        |->  ob[self] ] >>
                                                    \o stack[self]]
            /\ hook' = [hook EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "u1"]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            mine, item, kk, mineT, i, last, todo, ev, i0, ok, 
                            row, emit, full >>

t9(self) == /\ pc[self] = "t9"
            /\ /\ mineT' = [mineT EXCEPT ![self] = Head(stack[self]).mineT]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finalize",
                                                        pc        |->  Head(stack[self]).pc,
                                                        mine      |->  mine[self] ] >>
                                                    \o Tail(stack[self])]
            /\ mine' = [mine EXCEPT ![self] = {}]
            /\ pc' = [pc EXCEPT ![self] = "f1"]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            ob, hook, item, kk, i, last, todo, ev, i0, ok, row, 
                            emit, full >>

sinkTerm(self) == t1(self) \/ t2(self) \/ t3(self) \/ t4(self) \/ t5(self)
                     \/ t6(self) \/ t9(self)

c1(self) == /\ pc[self] = "c1"
            /\ IF ~Open
                  THEN /\ /\ last' = [last EXCEPT ![self] = Head(stack[self]).last]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finalize",
                                                                   pc        |->  Head(stack[self]).pc,
                                                                   mine      |->  mine[self] ] >>
                                                               \o Tail(stack[self])]
                       /\ mine' = [mine EXCEPT ![self] = {}]
                       /\ pc' = [pc EXCEPT ![self] = "f1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "c2"]
                       /\ UNCHANGED << stack, mine, last >>
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            ob, hook, item, kk, mineT, i, todo, ev, i0, ok, 
                            row, emit, full >>

c2(self) == /\ pc[self] = "c2"
            /\ IF Variant = "checkfirst"
                  THEN /\ last' = [last EXCEPT ![self] = map \subseteq {i[self]}]
                       /\ map' = map
                  ELSE /\ map' = map \ {i[self]}
                       /\ last' = [last EXCEPT ![self] = map' = {}]
            /\ pc' = [pc EXCEPT ![self] = "c3"]
            /\ UNCHANGED << prog, cell, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, todo, 
                            ev, i0, ok, row, emit, full >>

c3(self) == /\ pc[self] = "c3"
            /\ IF Variant = "checkfirst"
                  THEN /\ map' = map \ {i[self]}
                  ELSE /\ TRUE
                       /\ map' = map
            /\ pc' = [pc EXCEPT ![self] = "c4"]
            /\ UNCHANGED << prog, cell, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, row, emit, full >>

c4(self) == /\ pc[self] = "c4"
            /\ IF last[self]
                  THEN /\ /\ kk' = [kk EXCEPT ![self] = "c"]
                          /\ last' = [last EXCEPT ![self] = Head(stack[self]).last]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sinkTerm",
                                                                   pc        |->  Head(stack[self]).pc,
                                                                   mineT     |->  mineT[self],
                                                                   kk        |->  kk[self] ] >>
                                                               \o Tail(stack[self])]
                       /\ mineT' = [mineT EXCEPT ![self] = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "t1"]
                       /\ i' = i
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ last' = [last EXCEPT ![self] = Head(stack[self]).last]
                       /\ i' = [i EXCEPT ![self] = Head(stack[self]).i]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ UNCHANGED << kk, mineT >>
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            ob, hook, mine, item, todo, ev, i0, ok, row, emit, 
                            full >>

sinkComplete(self) == c1(self) \/ c2(self) \/ c3(self) \/ c4(self)

a0(self) == /\ pc[self] = "a0"
            /\ IF todo[self] # <<>>
                  THEN /\ ev' = [ev EXCEPT ![self] = <<Head(todo[self])[1], <<self, Head(todo[self])[2]>>>>]
                       /\ todo' = [todo EXCEPT ![self] = Tail(todo[self])]
                       /\ bg' = [bg EXCEPT ![self] = ended]
                       /\ IF ev'[self][1] = "n"
                             THEN /\ ok' = [ok EXCEPT ![self] = cell[i0[self]].n]
                                  /\ pc' = [pc EXCEPT ![self] = "a1"]
                                  /\ cell' = cell
                             ELSE /\ ok' = [ok EXCEPT ![self] = cell[i0[self]].n]
                                  /\ cell' = [cell EXCEPT ![i0[self]].n = FALSE]
                                  /\ pc' = [pc EXCEPT ![self] = "b1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << cell, bg, todo, ev, ok >>
            /\ UNCHANGED << prog, map, q, win, cnt, got, ended, late, stack, 
                            ob, hook, mine, item, kk, mineT, i, last, i0, row, 
                            emit, full >>

a1(self) == /\ pc[self] = "a1"
            /\ IF ok[self]
                  THEN /\ IF K \in {"merge", "pass"}
                             THEN /\ /\ item' = [item EXCEPT ![self] = ev[self][2]]
                                     /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sinkNext",
                                                                              pc        |->  "a9",
                                                                              item      |->  item[self] ] >>
                                                                          \o stack[self]]
                                  /\ pc' = [pc EXCEPT ![self] = "n1"]
                                  /\ UNCHANGED << map, q, win, cnt, ob, hook, 
                                                  emit, full >>
                             ELSE /\ IF K = "amb"
                                        THEN /\ IF win \in {0, self}
                                                   THEN /\ win' = self
                                                        /\ /\ item' = [item EXCEPT ![self] = ev[self][2]]
                                                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sinkNext",
                                                                                                    pc        |->  "a9",
                                                                                                    item      |->  item[self] ] >>
                                                                                                \o stack[self]]
                                                        /\ pc' = [pc EXCEPT ![self] = "n1"]
                                                        /\ UNCHANGED << map, 
                                                                        ob, 
                                                                        hook >>
                                                   ELSE /\ map' = map \ {i0[self]}
                                                        /\ /\ ob' = [ob EXCEPT ![self] = i0[self]]
                                                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "unsub",
                                                                                                    pc        |->  "a9",
                                                                                                    hook      |->  hook[self],
                                                                                                    ob        |->  ob[self] ] >>
                                                                                                \o stack[self]]
                                                        /\ hook' = [hook EXCEPT ![self] = FALSE]
                                                        /\ pc' = [pc EXCEPT ![self] = "u1"]
                                                        /\ UNCHANGED << win, 
                                                                        item >>
                                             /\ UNCHANGED << q, cnt, emit, 
                                                             full >>
                                        ELSE /\ IF K = "take"
                                                   THEN /\ emit' = [emit EXCEPT ![self] = cnt < 1]
                                                        /\ full' = [full EXCEPT ![self] = cnt + 1 >= 1]
                                                        /\ cnt' = cnt + 1
                                                        /\ pc' = [pc EXCEPT ![self] = "a2"]
                                                        /\ q' = q
                                                   ELSE /\ q' = [q EXCEPT ![self] = Append(q[self], ev[self][2])]
                                                        /\ pc' = [pc EXCEPT ![self] = "a6"]
                                                        /\ UNCHANGED << cnt, 
                                                                        emit, 
                                                                        full >>
                                             /\ UNCHANGED << map, win, stack, 
                                                             ob, hook, item >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a9"]
                       /\ UNCHANGED << map, q, win, cnt, stack, ob, hook, item, 
                                       emit, full >>
            /\ UNCHANGED << prog, cell, got, ended, bg, late, mine, kk, mineT, 
                            i, last, todo, ev, i0, ok, row >>

a2(self) == /\ pc[self] = "a2"
            /\ IF emit[self]
                  THEN /\ /\ item' = [item EXCEPT ![self] = ev[self][2]]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sinkNext",
                                                                   pc        |->  "a3",
                                                                   item      |->  item[self] ] >>
                                                               \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "n1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a3"]
                       /\ UNCHANGED << stack, item >>
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            ob, hook, mine, kk, mineT, i, last, todo, ev, i0, 
                            ok, row, emit, full >>

a3(self) == /\ pc[self] = "a3"
            /\ IF full[self]
                  THEN /\ map' = map \ {i0[self]}
                       /\ /\ ob' = [ob EXCEPT ![self] = i0[self]]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "unsub",
                                                                   pc        |->  "a4",
                                                                   hook      |->  hook[self],
                                                                   ob        |->  ob[self] ] >>
                                                               \o stack[self]]
                       /\ hook' = [hook EXCEPT ![self] = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "u1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a9"]
                       /\ UNCHANGED << map, stack, ob, hook >>
            /\ UNCHANGED << prog, cell, q, win, cnt, got, ended, bg, late, 
                            mine, item, kk, mineT, i, last, todo, ev, i0, ok, 
                            row, emit, full >>

a4(self) == /\ pc[self] = "a4"
            /\ /\ i' = [i EXCEPT ![self] = i0[self]]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sinkComplete",
                                                        pc        |->  "a5",
                                                        last      |->  last[self],
                                                        i         |->  i[self] ] >>
                                                    \o stack[self]]
            /\ last' = [last EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "c1"]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            ob, hook, mine, item, kk, mineT, todo, ev, i0, ok, 
                            row, emit, full >>

a5(self) == /\ pc[self] = "a5"
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "finalize",
                                                     pc        |->  "a9",
                                                     mine      |->  mine[self] ] >>
                                                 \o stack[self]]
            /\ mine' = [mine EXCEPT ![self] = {}]
            /\ pc' = [pc EXCEPT ![self] = "f1"]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            ob, hook, item, kk, mineT, i, last, todo, ev, i0, 
                            ok, row, emit, full >>

a6(self) == /\ pc[self] = "a6"
            /\ row' = [row EXCEPT ![self] = IF q[1] # <<>> /\ q[2] # <<>> THEN <<Head(q[1]), Head(q[2])>> ELSE <<>>]
            /\ IF row'[self] # <<>>
                  THEN /\ q' = (IF Variant = "zippop" THEN q ELSE <<Tail(q[1]), Tail(q[2])>>)
                       /\ pc' = [pc EXCEPT ![self] = "a7"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a9"]
                       /\ q' = q
            /\ UNCHANGED << prog, cell, map, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, emit, full >>

a7(self) == /\ pc[self] = "a7"
            /\ IF Variant = "zippop"
                  THEN /\ q' = <<IF q[1] = <<>> THEN <<>> ELSE Tail(q[1]), IF q[2] = <<>> THEN <<>> ELSE Tail(q[2])>>
                  ELSE /\ TRUE
                       /\ q' = q
            /\ pc' = [pc EXCEPT ![self] = "a8"]
            /\ UNCHANGED << prog, cell, map, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, row, emit, full >>

a8(self) == /\ pc[self] = "a8"
            /\ IF ~Open
                  THEN /\ pc' = [pc EXCEPT ![self] = "a9"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a10"]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, row, emit, full >>

a10(self) == /\ pc[self] = "a10"
             /\ /\ item' = [item EXCEPT ![self] = row[self]]
                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sinkNext",
                                                         pc        |->  "a11",
                                                         item      |->  item[self] ] >>
                                                     \o stack[self]]
             /\ pc' = [pc EXCEPT ![self] = "n1"]
             /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, 
                             late, ob, hook, mine, kk, mineT, i, last, todo, 
                             ev, i0, ok, row, emit, full >>

a11(self) == /\ pc[self] = "a11"
             /\ pc' = [pc EXCEPT ![self] = "a6"]
             /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, 
                             late, stack, ob, hook, mine, item, kk, mineT, i, 
                             last, todo, ev, i0, ok, row, emit, full >>

a9(self) == /\ pc[self] = "a9"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "a0"]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, row, emit, full >>

b1(self) == /\ pc[self] = "b1"
            /\ IF ok[self] \/ Variant = "both"
                  THEN /\ IF ev[self][1] = "e"
                             THEN /\ cell' = [cell EXCEPT ![i0[self]].c = FALSE]
                             ELSE /\ cell' = [cell EXCEPT ![i0[self]].e = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "b2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a0"]
                       /\ cell' = cell
            /\ UNCHANGED << prog, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, ok, row, emit, full >>

b2(self) == /\ pc[self] = "b2"
            /\ ok' = [ok EXCEPT ![self] = IF ev[self][1] = "e" THEN cell[i0[self]].e ELSE cell[i0[self]].c]
            /\ IF ev[self][1] = "e"
                  THEN /\ cell' = [cell EXCEPT ![i0[self]].e = FALSE]
                  ELSE /\ cell' = [cell EXCEPT ![i0[self]].c = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "b3"]
            /\ UNCHANGED << prog, map, q, win, cnt, got, ended, bg, late, 
                            stack, ob, hook, mine, item, kk, mineT, i, last, 
                            todo, ev, i0, row, emit, full >>

b3(self) == /\ pc[self] = "b3"
            /\ IF ok[self]
                  THEN /\ IF K = "amb"
                             THEN /\ IF win \in {0, self}
                                        THEN /\ win' = self
                                             /\ /\ kk' = [kk EXCEPT ![self] = ev[self][1]]
                                                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sinkTerm",
                                                                                         pc        |->  "b4",
                                                                                         mineT     |->  mineT[self],
                                                                                         kk        |->  kk[self] ] >>
                                                                                     \o stack[self]]
                                             /\ mineT' = [mineT EXCEPT ![self] = FALSE]
                                             /\ pc' = [pc EXCEPT ![self] = "t1"]
                                             /\ UNCHANGED << map, ob, hook >>
                                        ELSE /\ map' = map \ {i0[self]}
                                             /\ /\ ob' = [ob EXCEPT ![self] = i0[self]]
                                                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "unsub",
                                                                                         pc        |->  "b4",
                                                                                         hook      |->  hook[self],
                                                                                         ob        |->  ob[self] ] >>
                                                                                     \o stack[self]]
                                             /\ hook' = [hook EXCEPT ![self] = FALSE]
                                             /\ pc' = [pc EXCEPT ![self] = "u1"]
                                             /\ UNCHANGED << win, kk, mineT >>
                                  /\ UNCHANGED << i, last >>
                             ELSE /\ IF ev[self][1] = "e"
                                        THEN /\ /\ kk' = [kk EXCEPT ![self] = "e"]
                                                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sinkTerm",
                                                                                         pc        |->  "b4",
                                                                                         mineT     |->  mineT[self],
                                                                                         kk        |->  kk[self] ] >>
                                                                                     \o stack[self]]
                                             /\ mineT' = [mineT EXCEPT ![self] = FALSE]
                                             /\ pc' = [pc EXCEPT ![self] = "t1"]
                                             /\ UNCHANGED << i, last >>
                                        ELSE /\ /\ i' = [i EXCEPT ![self] = i0[self]]
                                                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "sinkComplete",
                                                                                         pc        |->  "b4",
                                                                                         last      |->  last[self],
                                                                                         i         |->  i[self] ] >>
                                                                                     \o stack[self]]
                                             /\ last' = [last EXCEPT ![self] = FALSE]
                                             /\ pc' = [pc EXCEPT ![self] = "c1"]
                                             /\ UNCHANGED << kk, mineT >>
                                  /\ UNCHANGED << map, win, ob, hook >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "b4"]
                       /\ UNCHANGED << map, win, stack, ob, hook, kk, mineT, i, 
                                       last >>
            /\ UNCHANGED << prog, cell, q, cnt, got, ended, bg, late, mine, 
                            item, todo, ev, i0, ok, row, emit, full >>

b4(self) == /\ pc[self] = "b4"
            /\ /\ ob' = [ob EXCEPT ![self] = i0[self]]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "unsub",
                                                        pc        |->  "a0",
                                                        hook      |->  hook[self],
                                                        ob        |->  ob[self] ] >>
                                                    \o stack[self]]
            /\ hook' = [hook EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "u1"]
            /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, 
                            mine, item, kk, mineT, i, last, todo, ev, i0, ok, 
                            row, emit, full >>

T(self) == a0(self) \/ a1(self) \/ a2(self) \/ a3(self) \/ a4(self)
              \/ a5(self) \/ a6(self) \/ a7(self) \/ a8(self) \/ a10(self)
              \/ a11(self) \/ a9(self) \/ b1(self) \/ b2(self) \/ b3(self)
              \/ b4(self)

z0 == /\ pc[3] = "z0"
      /\ IF prog.u
            THEN /\ /\ ob' = [ob EXCEPT ![3] = 0]
                    /\ stack' = [stack EXCEPT ![3] = << [ procedure |->  "unsub",
                                                          pc        |->  "z1",
                                                          hook      |->  hook[3],
                                                          ob        |->  ob[3] ] >>
                                                      \o stack[3]]
                 /\ hook' = [hook EXCEPT ![3] = FALSE]
                 /\ pc' = [pc EXCEPT ![3] = "u1"]
            ELSE /\ pc' = [pc EXCEPT ![3] = "Done"]
                 /\ UNCHANGED << stack, ob, hook >>
      /\ UNCHANGED << prog, cell, map, q, win, cnt, got, ended, bg, late, mine, 
                      item, kk, mineT, i, last, todo, ev, i0, ok, row, emit, 
                      full >>

z1 == /\ pc[3] = "z1"
      /\ ended' = TRUE
      /\ pc' = [pc EXCEPT ![3] = "Done"]
      /\ UNCHANGED << prog, cell, map, q, win, cnt, got, bg, late, stack, ob, 
                      hook, mine, item, kk, mineT, i, last, todo, ev, i0, ok, 
                      row, emit, full >>

U == z0 \/ z1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == U
           \/ (\E self \in ProcSet:  \/ unsub(self) \/ finalize(self)
                                     \/ sinkNext(self) \/ sinkTerm(self)
                                     \/ sinkComplete(self))
           \/ (\E self \in 1..2: T(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

----------------------------------------------------------------------------
NoErr == \A t \in 1..2 : \A x \in DOMAIN prog.s[t] : prog.s[t][x][1] # "e"
AllDone == \A t \in ProcSet : pc[t] = "Done"
\* C01/C19: one terminal; nothing for an event whose call began after the terminal callback, or unsubscribe, returned
\* an error that nothing stopped on the way reaches the subscriber
ErrorArrives == AllDone /\ ~prog.u /\ ~NoErr /\ prog.k \in {"pass", "merge", "zip"} => Terms(got) # {}
OneTerminal == Cardinality(Terms(got)) <= 1
NotAfter == ~late
\* C06/C17: whatever ended the subscription, no input and no callback is left
Clean == AllDone /\ (~Open \/ Terms(got) # {}) =>
           /\ map = {}
           /\ \A o \in {0} \cup {prog.in[1], prog.in[2]} : ~cell[o].n /\ ~cell[o].e /\ ~cell[o].c /\ ~cell[o].u
Ends(t) == prog.s[t] # <<>> /\ prog.s[t][Len(prog.s[t])][1] = "c"
Emitted(t) == {<<t, x>> : x \in {x \in 1..Len(prog.s[t]) : prog.s[t][x][1] = "n"}}
Items(s) == {s[x][2] : x \in {x \in DOMAIN s : s[x][1] = "n"}}
NumItems(s) == Cardinality({x \in DOMAIN s : s[x][1] = "n"})
\* C11: nothing lost, nothing invented or repeated, completed exactly once, after the last item
Conserve ==
  /\ prog.k = "take" => NumItems(got) <= 1
  /\ prog.k = "merge" => NumItems(got) = Cardinality(Items(got)) /\ Items(got) \subseteq Emitted(1) \cup Emitted(2)
  /\ prog.k = "zip" => \A r \in Items(got) : r[1][1] = 1 /\ r[2][1] = 2 /\ r[1][2] = r[2][2]
  /\ prog.k = "amb" => \A x, y \in Items(got) : x[1] = y[1]
  /\ AllDone /\ NoErr /\ ~prog.u /\ prog.k \in {"merge", "zip"} =>
       /\ Items(got) = IF prog.k = "merge" THEN Emitted(1) \cup Emitted(2)
                       ELSE {<<<<1, x>>, <<2, x>>>> : x \in {x \in 1..9 : <<1, x>> \in Emitted(1) /\ <<2, x>> \in Emitted(2)}}
       /\ Ends(1) /\ Ends(2) => got # <<>> /\ got[Len(got)][1] = "c"
       /\ Terms(got) # {} => Ends(1) /\ Ends(2)
=============================================================================
