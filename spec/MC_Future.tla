------------------------------ MODULE MC_Future -------------------------------
(***************************************************************************)
(* to_vec as it is written (operators/to_vec.rs): the buffer, the done and *)
(* error cells and the waker's lock.  A source emits on its own thread; an *)
(* executor polls and sleeps until its waker is called; the future may be  *)
(* handed to another executor after a poll, and a waker may poll at once,  *)
(* on the thread that wakes it.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

\* "code", or a mistake this model must notice
Variant == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "code"
Deep == "DEEP" \in DOMAIN IOEnv
Uses == {"one", "hand", "inline", "again"}
Progs == {[use |-> u, n |-> n, e |-> e] : u \in Uses, n \in 0..(IF Deep THEN 3 ELSE 2), e \in {"c", "e"}}

(* --algorithm future {
variables
  prog \in Progs;
  buf = 0; done = FALSE; err = FALSE;
  waker = 0;                          \* whose waker is stored
  wl = [w |-> 0, r |-> {}];           \* the waker's lock: writer, readers
  flag = [x \in 1..3 |-> FALSE];      \* waker x has been called
  res = <<>>;                         \* what the first poll that was ready returned
  ready = [x \in 1..3 |-> FALSE];     \* the answer of x's last poll

define { Free == wl.w = 0 /\ wl.r = {} }

procedure poll(me = 0)
  variables d = FALSE;
{
p1: if (Variant # "late") { await Free; wl.w := self; };
p2: d := done;
p3: if (d) {
      ready[me] := TRUE;
      if (res = <<>>) { res := <<IF err THEN "e" ELSE "c", buf>>; };
    } else if (Variant = "late") { await Free; waker := me; }
    else if (Variant # "first" \/ waker = 0) { waker := me; };
p4: if (Variant # "late") { wl.w := 0; };
    return;
}

\* the source's thread
fair process (Src = 1)
  variables got = 0;
{
s1: while (buf < prog.n) { buf := buf + 1; };
s2: if (prog.e = "e" /\ Variant # "errlast") { err := TRUE; };
s3: done := TRUE;
s4: if (prog.e = "e" /\ Variant = "errlast") { err := TRUE; };
s5: await wl.w = 0;
    got := waker;
    if (Variant = "holdwake") { wl.r := {1}; };
s6: if (got # 0) {
      flag[got] := TRUE;
      if (prog.use = "inline" /\ ~ready[got]) { call poll(got); };
    };
s7: if (Variant = "holdwake") { wl.r := {}; };
}

fair process (Exec = 2)
{
e1: call poll(2);
e2: if (prog.use = "again") { call poll(2); };
e3: if (~ready[2] /\ prog.use # "hand") { await flag[2] \/ (prog.use = "inline" /\ ready[2]); }
    else { goto Done; };
e4: if (~ready[2]) { call poll(2); };
}

\* takes the future over
fair process (Other = 3)
{
o1: if (prog.use = "hand") { await pc[2] = "Done"; } else { goto Done; };
o2: if (~ready[2]) { call poll(3); } else { goto Done; };
o3: if (~ready[3]) { await flag[3]; } else { goto Done; };
o4: call poll(3);
}
} *)
\* BEGIN TRANSLATION
VARIABLES pc, prog, buf, done, err, waker, wl, flag, res, ready, stack

(* define statement *)
Free == wl.w = 0 /\ wl.r = {}

VARIABLES me, d, got

vars == << pc, prog, buf, done, err, waker, wl, flag, res, ready, stack, me, 
           d, got >>

ProcSet == {1} \cup {2} \cup {3}

Init == (* Global variables *)
        /\ prog \in Progs
        /\ buf = 0
        /\ done = FALSE
        /\ err = FALSE
        /\ waker = 0
        /\ wl = [w |-> 0, r |-> {}]
        /\ flag = [x \in 1..3 |-> FALSE]
        /\ res = <<>>
        /\ ready = [x \in 1..3 |-> FALSE]
        (* Procedure poll *)
        /\ me = [ self \in ProcSet |-> 0]
        /\ d = [ self \in ProcSet |-> FALSE]
        (* Process Src *)
        /\ got = 0
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self = 1 -> "s1"
                                        [] self = 2 -> "e1"
                                        [] self = 3 -> "o1"]

p1(self) == /\ pc[self] = "p1"
            /\ IF Variant # "late"
                  THEN /\ Free
                       /\ wl' = [wl EXCEPT !.w = self]
                  ELSE /\ TRUE
                       /\ wl' = wl
            /\ pc' = [pc EXCEPT ![self] = "p2"]
            /\ UNCHANGED << prog, buf, done, err, waker, flag, res, ready, 
                            stack, me, d, got >>

p2(self) == /\ pc[self] = "p2"
            /\ d' = [d EXCEPT ![self] = done]
            /\ pc' = [pc EXCEPT ![self] = "p3"]
            /\ UNCHANGED << prog, buf, done, err, waker, wl, flag, res, ready, 
                            stack, me, got >>

p3(self) == /\ pc[self] = "p3"
            /\ IF d[self]
                  THEN /\ ready' = [ready EXCEPT ![me[self]] = TRUE]
                       /\ IF res = <<>>
                             THEN /\ res' = <<IF err THEN "e" ELSE "c", buf>>
                             ELSE /\ TRUE
                                  /\ res' = res
                       /\ waker' = waker
                  ELSE /\ IF Variant = "late"
                             THEN /\ Free
                                  /\ waker' = me[self]
                             ELSE /\ IF Variant # "first" \/ waker = 0
                                        THEN /\ waker' = me[self]
                                        ELSE /\ TRUE
                                             /\ waker' = waker
                       /\ UNCHANGED << res, ready >>
            /\ pc' = [pc EXCEPT ![self] = "p4"]
            /\ UNCHANGED << prog, buf, done, err, wl, flag, stack, me, d, got >>

p4(self) == /\ pc[self] = "p4"
            /\ IF Variant # "late"
                  THEN /\ wl' = [wl EXCEPT !.w = 0]
                  ELSE /\ TRUE
                       /\ wl' = wl
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ d' = [d EXCEPT ![self] = Head(stack[self]).d]
            /\ me' = [me EXCEPT ![self] = Head(stack[self]).me]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << prog, buf, done, err, waker, flag, res, ready, got >>

poll(self) == p1(self) \/ p2(self) \/ p3(self) \/ p4(self)

s1 == /\ pc[1] = "s1"
      /\ IF buf < prog.n
            THEN /\ buf' = buf + 1
                 /\ pc' = [pc EXCEPT ![1] = "s1"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "s2"]
                 /\ buf' = buf
      /\ UNCHANGED << prog, done, err, waker, wl, flag, res, ready, stack, me, 
                      d, got >>

s2 == /\ pc[1] = "s2"
      /\ IF prog.e = "e" /\ Variant # "errlast"
            THEN /\ err' = TRUE
            ELSE /\ TRUE
                 /\ err' = err
      /\ pc' = [pc EXCEPT ![1] = "s3"]
      /\ UNCHANGED << prog, buf, done, waker, wl, flag, res, ready, stack, me, 
                      d, got >>

s3 == /\ pc[1] = "s3"
      /\ done' = TRUE
      /\ pc' = [pc EXCEPT ![1] = "s4"]
      /\ UNCHANGED << prog, buf, err, waker, wl, flag, res, ready, stack, me, 
                      d, got >>

s4 == /\ pc[1] = "s4"
      /\ IF prog.e = "e" /\ Variant = "errlast"
            THEN /\ err' = TRUE
            ELSE /\ TRUE
                 /\ err' = err
      /\ pc' = [pc EXCEPT ![1] = "s5"]
      /\ UNCHANGED << prog, buf, done, waker, wl, flag, res, ready, stack, me, 
                      d, got >>

s5 == /\ pc[1] = "s5"
      /\ wl.w = 0
      /\ got' = waker
      /\ IF Variant = "holdwake"
            THEN /\ wl' = [wl EXCEPT !.r = {1}]
            ELSE /\ TRUE
                 /\ wl' = wl
      /\ pc' = [pc EXCEPT ![1] = "s6"]
      /\ UNCHANGED << prog, buf, done, err, waker, flag, res, ready, stack, me, 
                      d >>

s6 == /\ pc[1] = "s6"
      /\ IF got # 0
            THEN /\ flag' = [flag EXCEPT ![got] = TRUE]
                 /\ IF prog.use = "inline" /\ ~ready[got]
                       THEN /\ /\ me' = [me EXCEPT ![1] = got]
                               /\ stack' = [stack EXCEPT ![1] = << [ procedure |->  "poll",
                                                                     pc        |->  "s7",
                                                                     d         |->  d[1],
                                                                     me        |->  me[1] ] >>
                                                                 \o stack[1]]
                            /\ d' = [d EXCEPT ![1] = FALSE]
                            /\ pc' = [pc EXCEPT ![1] = "p1"]
                       ELSE /\ pc' = [pc EXCEPT ![1] = "s7"]
                            /\ UNCHANGED << stack, me, d >>
            ELSE /\ pc' = [pc EXCEPT ![1] = "s7"]
                 /\ UNCHANGED << flag, stack, me, d >>
      /\ UNCHANGED << prog, buf, done, err, waker, wl, res, ready, got >>

s7 == /\ pc[1] = "s7"
      /\ IF Variant = "holdwake"
            THEN /\ wl' = [wl EXCEPT !.r = {}]
            ELSE /\ TRUE
                 /\ wl' = wl
      /\ pc' = [pc EXCEPT ![1] = "Done"]
      /\ UNCHANGED << prog, buf, done, err, waker, flag, res, ready, stack, me, 
                      d, got >>

Src == s1 \/ s2 \/ s3 \/ s4 \/ s5 \/ s6 \/ s7

e1 == /\ pc[2] = "e1"
      /\ /\ me' = [me EXCEPT ![2] = 2]
         /\ stack' = [stack EXCEPT ![2] = << [ procedure |->  "poll",
                                               pc        |->  "e2",
                                               d         |->  d[2],
                                               me        |->  me[2] ] >>
                                           \o stack[2]]
      /\ d' = [d EXCEPT ![2] = FALSE]
      /\ pc' = [pc EXCEPT ![2] = "p1"]
      /\ UNCHANGED << prog, buf, done, err, waker, wl, flag, res, ready, got >>

e2 == /\ pc[2] = "e2"
      /\ IF prog.use = "again"
            THEN /\ /\ me' = [me EXCEPT ![2] = 2]
                    /\ stack' = [stack EXCEPT ![2] = << [ procedure |->  "poll",
                                                          pc        |->  "e3",
                                                          d         |->  d[2],
                                                          me        |->  me[2] ] >>
                                                      \o stack[2]]
                 /\ d' = [d EXCEPT ![2] = FALSE]
                 /\ pc' = [pc EXCEPT ![2] = "p1"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "e3"]
                 /\ UNCHANGED << stack, me, d >>
      /\ UNCHANGED << prog, buf, done, err, waker, wl, flag, res, ready, got >>

e3 == /\ pc[2] = "e3"
      /\ IF ~ready[2] /\ prog.use # "hand"
            THEN /\ flag[2] \/ (prog.use = "inline" /\ ready[2])
                 /\ pc' = [pc EXCEPT ![2] = "e4"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "Done"]
      /\ UNCHANGED << prog, buf, done, err, waker, wl, flag, res, ready, stack, 
                      me, d, got >>

e4 == /\ pc[2] = "e4"
      /\ IF ~ready[2]
            THEN /\ /\ me' = [me EXCEPT ![2] = 2]
                    /\ stack' = [stack EXCEPT ![2] = << [ procedure |->  "poll",
                                                          pc        |->  "Done",
                                                          d         |->  d[2],
                                                          me        |->  me[2] ] >>
                                                      \o stack[2]]
                 /\ d' = [d EXCEPT ![2] = FALSE]
                 /\ pc' = [pc EXCEPT ![2] = "p1"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "Done"]
                 /\ UNCHANGED << stack, me, d >>
      /\ UNCHANGED << prog, buf, done, err, waker, wl, flag, res, ready, got >>

Exec == e1 \/ e2 \/ e3 \/ e4

o1 == /\ pc[3] = "o1"
      /\ IF prog.use = "hand"
            THEN /\ pc[2] = "Done"
                 /\ pc' = [pc EXCEPT ![3] = "o2"]
            ELSE /\ pc' = [pc EXCEPT ![3] = "Done"]
      /\ UNCHANGED << prog, buf, done, err, waker, wl, flag, res, ready, stack, 
                      me, d, got >>

o2 == /\ pc[3] = "o2"
      /\ IF ~ready[2]
            THEN /\ /\ me' = [me EXCEPT ![3] = 3]
                    /\ stack' = [stack EXCEPT ![3] = << [ procedure |->  "poll",
                                                          pc        |->  "o3",
                                                          d         |->  d[3],
                                                          me        |->  me[3] ] >>
                                                      \o stack[3]]
                 /\ d' = [d EXCEPT ![3] = FALSE]
                 /\ pc' = [pc EXCEPT ![3] = "p1"]
            ELSE /\ pc' = [pc EXCEPT ![3] = "Done"]
                 /\ UNCHANGED << stack, me, d >>
      /\ UNCHANGED << prog, buf, done, err, waker, wl, flag, res, ready, got >>

o3 == /\ pc[3] = "o3"
      /\ IF ~ready[3]
            THEN /\ flag[3]
                 /\ pc' = [pc EXCEPT ![3] = "o4"]
            ELSE /\ pc' = [pc EXCEPT ![3] = "Done"]
      /\ UNCHANGED << prog, buf, done, err, waker, wl, flag, res, ready, stack, 
                      me, d, got >>

o4 == /\ pc[3] = "o4"
      /\ /\ me' = [me EXCEPT ![3] = 3]
         /\ stack' = [stack EXCEPT ![3] = << [ procedure |->  "poll",
                                               pc        |->  "Done",
                                               d         |->  d[3],
                                               me        |->  me[3] ] >>
                                           \o stack[3]]
      /\ d' = [d EXCEPT ![3] = FALSE]
      /\ pc' = [pc EXCEPT ![3] = "p1"]
      /\ UNCHANGED << prog, buf, done, err, waker, wl, flag, res, ready, got >>

Other == o1 \/ o2 \/ o3 \/ o4

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == Src \/ Exec \/ Other
           \/ (\E self \in ProcSet: poll(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Src) /\ WF_vars(poll(1))
        /\ WF_vars(Exec) /\ WF_vars(poll(2))
        /\ WF_vars(Other) /\ WF_vars(poll(3))

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

\* the answer is the whole truth
Right == res # <<>> => res = <<prog.e, prog.n>>
Answered == (\A t \in ProcSet : pc[t] = "Done") => res # <<>>
Ends == Termination
=============================================================================
