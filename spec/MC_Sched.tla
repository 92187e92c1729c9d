------------------------------- MODULE MC_Sched ------------------------------
(* The task queue as the code is written (async_function_queue.rs): a mutex, a condition variable, an abort flag
   behind a lock of its own, posters, aborters and one worker, one atomic step per operation that another thread
   can see.  TLC checks that it refines the abstract queue of Sched, the safety part of C08 directly, and, under
   weak fairness of the threads, that nothing is forgotten: a task posted and never aborted runs, an aborted
   worker leaves, every call returns.  Plans[p] is what client thread p does.                                  *)
EXTENDS Sched, IOUtils

\* "code", or a mistake that this model must notice: "nolock" "nonotify" "ifwait" "late" "unlockedpush"
Variant == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "code"
Big == "DEEP" \in DOMAIN IOEnv
Small == "SMALL" \in DOMAIN IOEnv

\* programs: what each client does, and what each task does from inside
Posts(p, n) == [x \in 1..n |-> <<"post", 10 * p + x>>]
Ab == <<<<"abort">>>>
Scripts(p) == {Posts(p, 1), Posts(p, 2), Ab, Posts(p, 1) \o Ab, Ab \o Posts(p, 1)}
              \cup (IF Big THEN {Posts(p, 3), Posts(p, 1) \o Ab \o <<<<"post", 10 * p + 2>>>>, Ab \o Ab, Posts(p, 2) \o Ab} ELSE {})
Nested == {<<>>, Ab, <<<<"post", 51>>>>, <<<<"post", 51>>, <<"abort">>>>, <<<<"post", 51>>, <<"post", 52>>>>}
AllPrograms == {[plans |-> <<a, b>>, in |-> n] : a \in Scripts(1), b \in Scripts(2), n \in Nested}
            \cup {[plans |-> <<a, b, c>>, in |-> n] : a \in {Posts(1, 1), Posts(1, 2)}, b \in {Posts(2, 1), Ab}, c \in {Posts(3, 1), Ab}, n \in {<<>>, Ab, <<<<"post", 51>>>>}}

Programs == IF Small THEN {p \in AllPrograms : \A x \in DOMAIN p.plans : Len(p.plans[x]) <= 2 /\ Len(p.plans) = 2 /\ Len(p.in) <= 1} ELSE AllPrograms

VARIABLE prog
Plans == prog.plans
\* the first task of the first client is the one that makes calls
InTask(i) == IF i = 11 THEN prog.in ELSE <<>>

P == DOMAIN Plans
W == 0
Threads == P \cup {W}

VARIABLES pc,       \* thread |-> where it stands
          todo,     \* thread |-> the calls it still has to make
          spur,     \* how often the worker was woken for no reason
          lock,     \* owner of the mutex (-1: free)
          que, flag,\* the library's data
          waiting,  \* the worker sleeps on the condition variable
          hold,     \* the task the worker has taken out
          abs       \* the abstract queue
vars == <<prog, pc, todo, spur, lock, que, flag, waiting, hold, abs>>

Tasks == {10 * p + x : p \in 1..3, x \in 1..3} \cup {51, 52}
Free == lock = -1
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Same(v) == UNCHANGED v

Init == /\ prog \in Programs
        /\ pc = [t \in Threads |-> IF t = W THEN "top" ELSE "call"]
        /\ todo = [t \in Threads |-> IF t = W THEN <<>> ELSE Plans[t]]
        /\ spur = 0
        /\ lock = -1 /\ que = <<>> /\ flag = FALSE /\ waiting = FALSE /\ hold = 0
        /\ abs = Queue0("new")

\* --- calls, made by clients and from inside tasks
Begin(t) == /\ pc[t] = "call" /\ todo[t] # <<>>
            /\ IF <<Head(todo[t])[1], Variant>> \in {<<"abort", "nolock">>, <<"post", "unlockedpush">>}
               THEN Go(t, IF Head(todo[t])[1] = "post" THEN "p.push" ELSE "a.clear") /\ Same(lock)
               ELSE Free /\ lock' = t /\ Go(t, IF Head(todo[t])[1] = "post" THEN "p.push" ELSE "a.clear")
            /\ Same(<<todo, spur, que, flag, waiting, hold, abs>>)
PPush(t) == /\ pc[t] = "p.push"
            /\ que' = Append(que, Head(todo[t])[2])
            /\ abs' \in Post(abs, Head(todo[t])[2])
            /\ Go(t, "notify") /\ Same(<<todo, spur, lock, flag, waiting, hold>>)
AClear(t) == /\ pc[t] = "a.clear"
             /\ que' = <<>>
             /\ IF Variant = "late" THEN lock' = -1 ELSE Same(lock)
             /\ Go(t, "a.flag") /\ Same(<<todo, spur, flag, waiting, hold, abs>>)
\* the abort takes effect: nothing is taken after this
AFlag(t) == /\ pc[t] = "a.flag"
            /\ flag' = TRUE
            /\ abs' \in Abort(abs)
            /\ Go(t, IF Variant = "nonotify" THEN "unlock" ELSE "notify") /\ Same(<<todo, spur, lock, que, waiting, hold>>)
Notify(t) == /\ pc[t] = "notify"
             /\ waiting' = FALSE
             /\ Go(t, "unlock") /\ Same(<<todo, spur, lock, que, flag, hold, abs>>)
Unlock(t) == /\ pc[t] = "unlock"
             /\ lock' = IF lock = t THEN -1 ELSE lock
             /\ todo' = [todo EXCEPT ![t] = Tail(@)]
             /\ Go(t, "call") /\ Same(<<spur, que, flag, waiting, hold, abs>>)
Calls(t) == Begin(t) \/ PPush(t) \/ AClear(t) \/ AFlag(t) \/ Notify(t) \/ Unlock(t)

\* --- the worker
Top == /\ pc[W] = "top" /\ Free
       /\ lock' = W /\ Go(W, "test")
       /\ Same(<<todo, spur, que, flag, waiting, hold, abs>>)
Test == /\ pc[W] = "test"
        /\ Go(W, IF ~flag /\ que = <<>> THEN "wait" ELSE "pick")
        /\ Same(<<todo, spur, lock, que, flag, waiting, hold, abs>>)
Wait == /\ pc[W] = "wait"
        /\ waiting' = TRUE /\ lock' = -1 /\ Go(W, "asleep")
        /\ Same(<<todo, spur, que, flag, hold, abs>>)
\* woken, or spuriously
Wake == /\ pc[W] = "asleep" /\ ~waiting /\ Free
        /\ lock' = W /\ Go(W, IF Variant = "ifwait" THEN "pick" ELSE "test")
        /\ Same(<<todo, spur, que, flag, waiting, hold, abs>>)
Spurious == /\ pc[W] = "asleep" /\ waiting /\ spur < 2
            /\ waiting' = FALSE /\ spur' = spur + 1
            /\ Same(<<pc, todo, lock, que, flag, hold, abs>>)
\* Take and Leave of the abstract queue happen here
Pick == /\ pc[W] = "pick"
        /\ lock' = -1
        /\ IF flag \/ que = <<>>
           THEN /\ Go(W, "gone") /\ abs' \in Leave(abs) /\ Same(<<que, hold, todo>>)
           ELSE /\ hold' = Head(que) /\ que' = Tail(que) /\ Go(W, "run")
                /\ abs' \in Take(abs) /\ Same(todo)
        /\ Same(<<spur, flag, waiting>>)
RunTask == /\ pc[W] = "run"
           /\ abs' \in Start(abs, hold, W)
           /\ todo' = [todo EXCEPT ![W] = InTask(hold)]
           /\ Go(W, "call") /\ Same(<<spur, lock, que, flag, waiting, hold>>)
EndTask == /\ pc[W] = "call" /\ todo[W] = <<>>
           /\ abs' \in Finish(abs, hold, W)
           /\ hold' = 0
           /\ Go(W, "top") /\ Same(<<todo, spur, lock, que, flag, waiting>>)
Worker == Top \/ Test \/ Wait \/ Wake \/ Pick \/ RunTask \/ EndTask \/ Calls(W)

Next == ((\E t \in P : Calls(t)) \/ Worker \/ Spurious) /\ UNCHANGED prog
Client(t) == t \in P /\ Calls(t) /\ UNCHANGED prog
A1 == Client(1)
A2 == Client(2)
A3 == Client(3)
AW == Worker /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars /\ WF_vars(A1) /\ WF_vars(A2) /\ WF_vars(A3) /\ WF_vars(AW)

\* --- the queue of the code is the abstract one (until an abort empties it)
Refines == /\ (~flag /\ ~(\E t \in Threads : pc[t] = "a.flag") => abs.q = que)
           /\ abs.aborted = flag
           /\ abs.left = (pc[W] = "gone")
\* the abstract queue can follow every step
Follows == /\ pc[W] = "pick" /\ ~flag /\ que # <<>> => Take(abs) # {}
           /\ pc[W] = "pick" /\ (flag \/ que = <<>>) => Leave(abs) # {}
           /\ pc[W] = "run" => Start(abs, hold, W) # {}
\* at most once, nobody holds the lock for ever, never two owners
OneOwner == lock = -1 \/ pc[lock] \in {"p.push", "a.clear", "a.flag", "notify", "unlock", "test", "wait", "pick"}
\* every call returns; posted and never aborted: run; aborted: the worker leaves
CallsReturn == \A p \in 1..3 : <>(p \in P => pc[p] = "call" /\ todo[p] = <<>>)
EventuallyRun == \A i \in Tasks : [](i \in {que[x] : x \in DOMAIN que} => <>(i \in abs.done \/ flag))
WorkerLeaves == [](flag => <>(pc[W] = "gone"))
=============================================================================
