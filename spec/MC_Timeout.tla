------------------------------ MODULE MC_Timeout ------------------------------
(***************************************************************************)
(* timeout as it is written (operators/timeout.rs): the slot with the      *)
(* current timer, the threads of the timers, the source's thread and an    *)
(* unsubscription at any time.  Time is left out: a timer that has been    *)
(* started may fire whenever it has not been cancelled, so whatever holds  *)
(* here holds for every duration and every delay of a thread.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

\* "code", or a mistake this model must notice
Variant == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "code"
MaxN == IF "DEEP" \in DOMAIN IOEnv THEN 3 ELSE 2
Progs == [n : 0..MaxN, e : {"c", "e", "-"}, uns : BOOLEAN]
T == 11..(10 + MaxN)          \* the timer of item k is thread 10 + k

(* --algorithm timeout {
variables
  prog \in Progs;
  o = TRUE;                   \* the subscriber's observer takes items
  fin = TRUE;                 \* the controller's on_finalize hook is set
  slot = 0;                   \* the current timer
  live = [i \in T |-> FALSE]; \* started and not cancelled
  begun = [i \in T |-> FALSE];
  out = <<>>;                 \* what the subscriber was told: items, 0: complete, -1: error, -k: timer k's error
  reset = {};                 \* timers whose next item has come
  stale = FALSE;              \* such a timer fired nevertheless, while the subscriber was there
  gone = FALSE; late = 0;

\* replaces the timer, the previous one is cancelled
procedure settimer(new = 0)
  variables old = 0;
{
m1: old := slot; slot := new;
m2: if (old # 0 /\ (Variant # "uncancel")) { live[old] := FALSE; };
    return;
}

procedure close() {
c1: o := FALSE;
c2: if (fin) { fin := FALSE; } else { return; };
c3: if (Variant # "nohook") { call settimer(0); };
c4: return;
}

\* sink_error, sink_complete
procedure end(z = 0) {
z1: if (o) { o := FALSE; out := Append(out, z); late := late + (IF gone THEN 1 ELSE 0); };
z2: call close();
    return;
}

fair process (Src = 1)
  variables k = 0;
{
s1: while (k < prog.n) {
      k := k + 1;
s2:   if (~o) { goto s8; };
s3:   if (Variant # "noreset") { call settimer(0); };
s4:   if (k > 1) { reset := reset \cup {9 + k}; };
s5:   if (o) { out := Append(out, k); late := late + (IF gone THEN 1 ELSE 0); };
s6:   if (o) {
        begun[10 + k] := TRUE; live[10 + k] := TRUE;
s7:     call settimer(10 + k);
s9:     if (~o /\ Variant # "nocheck") { call settimer(0); };
      };
    };
s8: if (prog.e = "c") { call end(0); } else if (prog.e = "e") { call end(-1); };
}

fair process (Uns = 2) {
x1: if (prog.uns) { call close(); } else { goto Done; };
x2: gone := TRUE;
}

fair process (Timer \in T) {
t1: await begun[self] \/ pc[1] = "Done";
    if (~begun[self]) { goto Done; };
t2: if (live[self]) { live[self] := FALSE; if (self \in reset) { stale := stale \/ o; }; }
    else { goto Done; };
t3: call end(-self);
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, prog, o, fin, slot, live, begun, out, reset, stale, gone, late, 
          stack, new, old, z, k

vars == << pc, prog, o, fin, slot, live, begun, out, reset, stale, gone, late, 
           stack, new, old, z, k >>

ProcSet == {1} \cup {2} \cup (T)

Init == (* Global variables *)
        /\ prog \in Progs
        /\ o = TRUE
        /\ fin = TRUE
        /\ slot = 0
        /\ live = [i \in T |-> FALSE]
        /\ begun = [i \in T |-> FALSE]
        /\ out = <<>>
        /\ reset = {}
        /\ stale = FALSE
        /\ gone = FALSE
        /\ late = 0
        (* Procedure settimer *)
        /\ new = [ self \in ProcSet |-> 0]
        /\ old = [ self \in ProcSet |-> 0]
        (* Procedure end *)
        /\ z = [ self \in ProcSet |-> 0]
        (* Process Src *)
        /\ k = 0
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self = 1 -> "s1"
                                        [] self = 2 -> "x1"
                                        [] self \in T -> "t1"]

m1(self) == /\ pc[self] = "m1"
            /\ old' = [old EXCEPT ![self] = slot]
            /\ slot' = new[self]
            /\ pc' = [pc EXCEPT ![self] = "m2"]
            /\ UNCHANGED << prog, o, fin, live, begun, out, reset, stale, gone, 
                            late, stack, new, z, k >>

m2(self) == /\ pc[self] = "m2"
            /\ IF old[self] # 0 /\ (Variant # "uncancel")
                  THEN /\ live' = [live EXCEPT ![old[self]] = FALSE]
                  ELSE /\ TRUE
                       /\ live' = live
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ old' = [old EXCEPT ![self] = Head(stack[self]).old]
            /\ new' = [new EXCEPT ![self] = Head(stack[self]).new]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << prog, o, fin, slot, begun, out, reset, stale, gone, 
                            late, z, k >>

settimer(self) == m1(self) \/ m2(self)

c1(self) == /\ pc[self] = "c1"
            /\ o' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "c2"]
            /\ UNCHANGED << prog, fin, slot, live, begun, out, reset, stale, 
                            gone, late, stack, new, old, z, k >>

c2(self) == /\ pc[self] = "c2"
            /\ IF fin
                  THEN /\ fin' = FALSE
                       /\ pc' = [pc EXCEPT ![self] = "c3"]
                       /\ stack' = stack
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ fin' = fin
            /\ UNCHANGED << prog, o, slot, live, begun, out, reset, stale, 
                            gone, late, new, old, z, k >>

c3(self) == /\ pc[self] = "c3"
            /\ IF Variant # "nohook"
                  THEN /\ /\ new' = [new EXCEPT ![self] = 0]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "settimer",
                                                                   pc        |->  "c4",
                                                                   old       |->  old[self],
                                                                   new       |->  new[self] ] >>
                                                               \o stack[self]]
                       /\ old' = [old EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "m1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "c4"]
                       /\ UNCHANGED << stack, new, old >>
            /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, 
                            gone, late, z, k >>

c4(self) == /\ pc[self] = "c4"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, 
                            gone, late, new, old, z, k >>

close(self) == c1(self) \/ c2(self) \/ c3(self) \/ c4(self)

z1(self) == /\ pc[self] = "z1"
            /\ IF o
                  THEN /\ o' = FALSE
                       /\ out' = Append(out, z[self])
                       /\ late' = late + (IF gone THEN 1 ELSE 0)
                  ELSE /\ TRUE
                       /\ UNCHANGED << o, out, late >>
            /\ pc' = [pc EXCEPT ![self] = "z2"]
            /\ UNCHANGED << prog, fin, slot, live, begun, reset, stale, gone, 
                            stack, new, old, z, k >>

z2(self) == /\ pc[self] = "z2"
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "close",
                                                     pc        |->  Head(stack[self]).pc ] >>
                                                 \o Tail(stack[self])]
            /\ pc' = [pc EXCEPT ![self] = "c1"]
            /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, 
                            gone, late, new, old, z, k >>

end(self) == z1(self) \/ z2(self)

s1 == /\ pc[1] = "s1"
      /\ IF k < prog.n
            THEN /\ k' = k + 1
                 /\ pc' = [pc EXCEPT ![1] = "s2"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "s8"]
                 /\ k' = k
      /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, gone, 
                      late, stack, new, old, z >>

s2 == /\ pc[1] = "s2"
      /\ IF ~o
            THEN /\ pc' = [pc EXCEPT ![1] = "s8"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "s3"]
      /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, gone, 
                      late, stack, new, old, z, k >>

s3 == /\ pc[1] = "s3"
      /\ IF Variant # "noreset"
            THEN /\ /\ new' = [new EXCEPT ![1] = 0]
                    /\ stack' = [stack EXCEPT ![1] = << [ procedure |->  "settimer",
                                                          pc        |->  "s4",
                                                          old       |->  old[1],
                                                          new       |->  new[1] ] >>
                                                      \o stack[1]]
                 /\ old' = [old EXCEPT ![1] = 0]
                 /\ pc' = [pc EXCEPT ![1] = "m1"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "s4"]
                 /\ UNCHANGED << stack, new, old >>
      /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, gone, 
                      late, z, k >>

s4 == /\ pc[1] = "s4"
      /\ IF k > 1
            THEN /\ reset' = (reset \cup {9 + k})
            ELSE /\ TRUE
                 /\ reset' = reset
      /\ pc' = [pc EXCEPT ![1] = "s5"]
      /\ UNCHANGED << prog, o, fin, slot, live, begun, out, stale, gone, late, 
                      stack, new, old, z, k >>

s5 == /\ pc[1] = "s5"
      /\ IF o
            THEN /\ out' = Append(out, k)
                 /\ late' = late + (IF gone THEN 1 ELSE 0)
            ELSE /\ TRUE
                 /\ UNCHANGED << out, late >>
      /\ pc' = [pc EXCEPT ![1] = "s6"]
      /\ UNCHANGED << prog, o, fin, slot, live, begun, reset, stale, gone, 
                      stack, new, old, z, k >>

s6 == /\ pc[1] = "s6"
      /\ IF o
            THEN /\ begun' = [begun EXCEPT ![10 + k] = TRUE]
                 /\ live' = [live EXCEPT ![10 + k] = TRUE]
                 /\ pc' = [pc EXCEPT ![1] = "s7"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "s1"]
                 /\ UNCHANGED << live, begun >>
      /\ UNCHANGED << prog, o, fin, slot, out, reset, stale, gone, late, stack, 
                      new, old, z, k >>

s7 == /\ pc[1] = "s7"
      /\ /\ new' = [new EXCEPT ![1] = 10 + k]
         /\ stack' = [stack EXCEPT ![1] = << [ procedure |->  "settimer",
                                               pc        |->  "s9",
                                               old       |->  old[1],
                                               new       |->  new[1] ] >>
                                           \o stack[1]]
      /\ old' = [old EXCEPT ![1] = 0]
      /\ pc' = [pc EXCEPT ![1] = "m1"]
      /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, gone, 
                      late, z, k >>

s9 == /\ pc[1] = "s9"
      /\ IF ~o /\ Variant # "nocheck"
            THEN /\ /\ new' = [new EXCEPT ![1] = 0]
                    /\ stack' = [stack EXCEPT ![1] = << [ procedure |->  "settimer",
                                                          pc        |->  "s1",
                                                          old       |->  old[1],
                                                          new       |->  new[1] ] >>
                                                      \o stack[1]]
                 /\ old' = [old EXCEPT ![1] = 0]
                 /\ pc' = [pc EXCEPT ![1] = "m1"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "s1"]
                 /\ UNCHANGED << stack, new, old >>
      /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, gone, 
                      late, z, k >>

s8 == /\ pc[1] = "s8"
      /\ IF prog.e = "c"
            THEN /\ /\ stack' = [stack EXCEPT ![1] = << [ procedure |->  "end",
                                                          pc        |->  "Done",
                                                          z         |->  z[1] ] >>
                                                      \o stack[1]]
                    /\ z' = [z EXCEPT ![1] = 0]
                 /\ pc' = [pc EXCEPT ![1] = "z1"]
            ELSE /\ IF prog.e = "e"
                       THEN /\ /\ stack' = [stack EXCEPT ![1] = << [ procedure |->  "end",
                                                                     pc        |->  "Done",
                                                                     z         |->  z[1] ] >>
                                                                 \o stack[1]]
                               /\ z' = [z EXCEPT ![1] = -1]
                            /\ pc' = [pc EXCEPT ![1] = "z1"]
                       ELSE /\ pc' = [pc EXCEPT ![1] = "Done"]
                            /\ UNCHANGED << stack, z >>
      /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, gone, 
                      late, new, old, k >>

Src == s1 \/ s2 \/ s3 \/ s4 \/ s5 \/ s6 \/ s7 \/ s9 \/ s8

x1 == /\ pc[2] = "x1"
      /\ IF prog.uns
            THEN /\ stack' = [stack EXCEPT ![2] = << [ procedure |->  "close",
                                                       pc        |->  "x2" ] >>
                                                   \o stack[2]]
                 /\ pc' = [pc EXCEPT ![2] = "c1"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "Done"]
                 /\ stack' = stack
      /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, gone, 
                      late, new, old, z, k >>

x2 == /\ pc[2] = "x2"
      /\ gone' = TRUE
      /\ pc' = [pc EXCEPT ![2] = "Done"]
      /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, late, 
                      stack, new, old, z, k >>

Uns == x1 \/ x2

t1(self) == /\ pc[self] = "t1"
            /\ begun[self] \/ pc[1] = "Done"
            /\ IF ~begun[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "t2"]
            /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, 
                            gone, late, stack, new, old, z, k >>

t2(self) == /\ pc[self] = "t2"
            /\ IF live[self]
                  THEN /\ live' = [live EXCEPT ![self] = FALSE]
                       /\ IF self \in reset
                             THEN /\ stale' = (stale \/ o)
                             ELSE /\ TRUE
                                  /\ stale' = stale
                       /\ pc' = [pc EXCEPT ![self] = "t3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << live, stale >>
            /\ UNCHANGED << prog, o, fin, slot, begun, out, reset, gone, late, 
                            stack, new, old, z, k >>

t3(self) == /\ pc[self] = "t3"
            /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "end",
                                                        pc        |->  "Done",
                                                        z         |->  z[self] ] >>
                                                    \o stack[self]]
               /\ z' = [z EXCEPT ![self] = -self]
            /\ pc' = [pc EXCEPT ![self] = "z1"]
            /\ UNCHANGED << prog, o, fin, slot, live, begun, out, reset, stale, 
                            gone, late, new, old, k >>

Timer(self) == t1(self) \/ t2(self) \/ t3(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == Src \/ Uns
           \/ (\E self \in ProcSet: settimer(self) \/ close(self) \/ end(self))
           \/ (\E self \in T: Timer(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Src) /\ WF_vars(settimer(1)) /\ WF_vars(end(1)) /\ WF_vars(close(1))
        /\ WF_vars(Uns) /\ WF_vars(close(2)) /\ WF_vars(settimer(2))
        /\ \A self \in T : /\ WF_vars(Timer(self))
                           /\ WF_vars(end(self))
                           /\ WF_vars(settimer(self))
                           /\ WF_vars(close(self))

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Items == SelectSeq(out, LAMBDA y : y > 0)
Shape == /\ \A j \in DOMAIN out : out[j] <= 0 => j = Len(out)
         /\ Items = [j \in 1..Len(Items) |-> j]
\* the end is the source's own, or the timer's of an item that was delivered last, or later than that timer was started
Why == out # <<>> /\ out[Len(out)] < -1 => Len(Items) >= 1
Fresh == ~stale
Silent == late <= 1
All == \A p \in ProcSet : pc[p] = "Done"
\* no timer is left running once the stream has ended and everybody else is gone
NoTimer == pc[1] = "Done" /\ (prog.uns => pc[2] = "Done") /\ ~o /\ (\A p \in T : pc[p] \in {"t1", "t2", "Done"})
             => \A p \in T : ~live[p]
\* a source that falls silent is timed out, if it has emitted at all
Fires == All /\ prog.e = "-" /\ prog.n > 0 /\ ~prog.uns => out # <<>> /\ out[Len(out)] < -1
Whole == All /\ prog.e # "-" /\ ~prog.uns => out # <<>> /\ out[Len(out)] <= 0
Ends == Termination
=============================================================================
