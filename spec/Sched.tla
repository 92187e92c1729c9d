------------------------------- MODULE Sched --------------------------------
(* Task queues (C08).  A queue is FIFO, has one worker that takes one task at a time, and an abort that discards
   what is waiting and makes the worker leave.  A post or an abort takes effect at one moment between its call
   and its return; a task is taken (invisibly) before it starts.  The actions are operators giving the set of
   successor states, so that the same definitions serve TraceConc (bound to recorded runs) and MC_Sched.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Queue0(kind) == [kind |-> kind, q |-> <<>>, aborted |-> FALSE, taken |-> 0, run |-> 0, worker |-> -1, left |-> FALSE,
                 done |-> {}]

\* a post takes effect: the task joins the queue (nobody will take it from an aborted one)
Post(s, i) == {[s EXCEPT !.q = Append(@, i)]}
\* an abort takes effect: what waits is discarded
Abort(s) == {[s EXCEPT !.q = <<>>, !.aborted = TRUE]}
\* the worker takes the oldest waiting task
Take(s) == IF s.kind = "new" /\ ~s.aborted /\ ~s.left /\ s.taken = 0 /\ s.run = 0 /\ s.q # <<>>
           THEN {[s EXCEPT !.taken = Head(s.q), !.q = Tail(@)]} ELSE {}
\* the task that was taken starts, always on the same thread
Start(s, i, th) == IF s.taken = i /\ s.run = 0 /\ s.worker \in {-1, th}
                   THEN {[s EXCEPT !.taken = 0, !.run = i, !.worker = th]} ELSE {}
Finish(s, i, th) == IF s.run = i /\ s.worker = th THEN {[s EXCEPT !.run = 0, !.done = @ \cup {i}]} ELSE {}
\* the worker leaves: only after an abort, never in the middle of a task
Leave(s) == IF s.aborted /\ s.taken = 0 /\ s.run = 0 /\ ~s.left THEN {[s EXCEPT !.left = TRUE]} ELSE {}
\* nothing more will happen by itself
Quiet(s) == IF s.kind = "def" THEN s.run = 0
            ELSE s.taken = 0 /\ s.run = 0 /\ (IF s.aborted THEN s.left ELSE s.q = <<>>)
=============================================================================
