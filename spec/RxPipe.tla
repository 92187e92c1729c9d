------------------------------- MODULE RxPipe -------------------------------
(***************************************************************************)
(* Operational semantics of another-rxrust pipelines, one call at a time.  *)
(*                                                                         *)
(* A pipeline is a graph of nodes; every subscribe() makes a fresh tree of *)
(* instances.  A call into the library (subscribe, an emission of a        *)
(* source, unsubscribe, a subject call, connect) is executed depth first:  *)
(* H.ag is the stack of actions still to be performed, Exec performs the   *)
(* top one.  Choices(H) is not empty where the properties leave the        *)
(* outcome open (a named convention, or the order in which a subject calls *)
(* its observers).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(************************** values ****************************************)
\* <<tag, n, kids>> : 0 int, 1 list, 2 Material::Next, 3 Material::Error, 4 Material::Complete, 5 bool, 9 unit,
\* 10.. error payloads, 20 inner observable (n is the subject it comes from)
VInt(n)  == <<0, n, <<>>>>
VList(s) == <<1, 0, s>>
VBool(b) == <<5, IF b THEN 1 ELSE 0, <<>>>>
VNext(v) == <<2, 0, <<v>>>>
VErr(e)  == <<3, 0, <<e>>>>
VComp    == <<4, 0, <<>>>>
VUnit    == <<9, 0, <<>>>>
VObs(j)  == <<20, j, <<>>>>
IsObs(v) == v[1] = 20

RECURSIVE Num(_), SumNum(_)
SumNum(s) == IF s = <<>> THEN 0 ELSE Num(Head(s)) + SumNum(Tail(s))
Num(v) == CASE v[1] = 0  -> v[2]
            [] v[1] = 1  -> Len(v[3]) + SumNum(v[3])
            [] v[1] = 2  -> 1 + Num(v[3][1])
            [] v[1] = 3  -> 100 + v[3][1][2]
            [] v[1] = 4  -> 200
            [] v[1] = 5  -> v[2]
            [] v[1] = 20 -> 3
            [] OTHER     -> 7

Pred(p, v) == CASE p = 0 -> TRUE
                [] p = 1 -> Num(v) % 2 = 0
                [] p = 2 -> Num(v) < 3
                [] p = 3 -> FALSE
                [] p = 4 -> Num(v) % 3 # 0
                [] OTHER -> Num(v) < p
Fold(x, y) == VInt((2 * Num(x) + Num(y)) % 1000)
\* retry_when predicate on the error payload
RPred(p, e) == CASE p = 0 -> FALSE [] p = 1 -> e[2] < 5 [] OTHER -> TRUE

NoEv == <<"", VUnit>>
Max2(x, y) == IF x >= y THEN x ELSE y
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Ints(s) == [i \in 1..Len(s) |-> VInt(s[i])]
Emit(s) == [i \in 1..Len(s) |-> <<"n", s[i]>>]

(******************** single-source operators *****************************)
Unary == { "map", "filter", "take", "skip", "take_last", "skip_last", "take_while", "skip_while", "first", "last",
           "element_at", "distinct", "scan", "reduce", "count", "sum", "sum_count", "min", "max", "all", "contains",
           "default", "ignore", "start_with", "buffer", "mat", "demat", "tap", "map_any", "something", "obs_def",
           "sub_def", "defer", "rsg", "delay0", "window", "group" }

UInit(op) == CASE op \in {"take", "first", "skip", "count", "element_at"} -> 0
               [] op \in {"skip_while", "default"} -> FALSE
               [] op \in {"window"} -> <<0, 0>>
               [] OTHER -> <<>>

\* U(node, state, kind, value) = <<state', outputs>>
U(nd, st, k, v) ==
  LET op == nd.op
      p == nd.p
      pass == <<st, <<<<k, v>>>>>>
      none == <<st, <<>>>>
      c == <<"c", VUnit>>
  IN
  CASE op \in {"obs_def", "sub_def", "defer", "rsg", "tap", "map_any", "start_with", "delay0"} -> pass
    [] op = "map" -> IF k = "n" THEN <<st, <<<<"n", VInt(Num(v) + p)>>>>>> ELSE pass
    [] op = "filter" -> IF k = "n" /\ ~Pred(p, v) THEN none ELSE pass
    [] op \in {"take", "first"} ->
         LET q == IF op = "first" THEN 1 ELSE p IN
         IF k # "n" THEN pass
         ELSE IF st + 1 < q THEN <<st + 1, <<<<"n", v>>>>>>
         ELSE IF q = 0 THEN <<st + 1, <<c>>>> ELSE <<st + 1, <<<<"n", v>>, c>>>>
    [] op = "element_at" ->
         IF k # "n" THEN pass
         ELSE IF st + 1 = p THEN <<st + 1, <<<<"n", v>>, c>>>> ELSE <<st + 1, <<>>>>
    [] op = "skip" -> IF k = "n" /\ st < p THEN <<st + 1, <<>>>> ELSE pass
    [] op \in {"take_last", "last"} ->
         LET q == IF op = "last" THEN 1 ELSE p IN
         CASE k = "n" -> <<LastN(Append(st, v), q), <<>>>>
           [] k = "c" -> <<st, Emit(st) \o <<c>>>>
           [] OTHER -> pass
    [] op = "skip_last" ->
         IF k # "n" THEN pass
         ELSE IF Len(st) = p THEN <<Tail(Append(st, v)), <<<<"n", Append(st, v)[1]>>>>>>
         ELSE <<Append(st, v), <<>>>>
    [] op = "take_while" -> IF k = "n" /\ ~Pred(p, v) THEN <<st, <<c>>>> ELSE pass
    [] op = "skip_while" ->
         IF k # "n" \/ st THEN pass
         ELSE IF Pred(p, v) THEN none ELSE <<TRUE, <<<<"n", v>>>>>>
    [] op = "distinct" ->
         IF k # "n" THEN pass ELSE IF st = <<v>> THEN none ELSE <<<<v>>, <<<<"n", v>>>>>>
    [] op = "scan" ->
         IF k # "n" THEN pass
         ELSE LET w == IF st = <<>> THEN v ELSE Fold(st[1], v) IN <<<<w>>, <<<<"n", w>>>>>>
    [] op \in {"reduce", "sum", "min", "max"} ->
         CASE k = "n" ->
                <<IF st = <<>> THEN <<v>>
                  ELSE CASE op = "reduce" -> <<Fold(st[1], v)>>
                         [] op = "sum" -> <<VInt(Num(st[1]) + Num(v))>>
                         [] op = "min" -> IF Num(v) < Num(st[1]) THEN <<v>> ELSE st
                         [] op = "max" -> IF Num(v) > Num(st[1]) THEN <<v>> ELSE st,
                  <<>>>>
           [] k = "c" -> <<st, Emit(st) \o <<c>>>>
           [] OTHER -> pass
    [] op = "count" ->
         CASE k = "n" -> <<st + 1, <<>>>> [] k = "c" -> <<st, <<<<"n", VInt(st)>>, c>>>> [] OTHER -> pass
    [] op = "sum_count" ->
         CASE k = "n" ->
                <<IF st = <<>> THEN <<v, VInt(1)>> ELSE <<VInt(Num(st[1]) + Num(v)), VInt(st[2][2] + 1)>>, <<>>>>
           [] k = "c" -> <<st, IF st = <<>> THEN <<c>> ELSE <<<<"n", VList(st)>>, c>>>>
           [] OTHER -> pass
    [] op = "all" ->
         CASE k = "n" -> IF Pred(p, v) THEN none ELSE <<st, <<<<"n", VBool(FALSE)>>, c>>>>
           [] k = "c" -> <<st, <<<<"n", VBool(TRUE)>>, c>>>>
           [] OTHER -> pass
    [] op = "contains" ->
         CASE k = "n" -> IF v = VInt(p) THEN <<st, <<<<"n", VBool(TRUE)>>, c>>>> ELSE none
           [] OTHER -> <<st, <<<<"n", VBool(FALSE)>>, c>>>>      \* pinned by the crate's test for errors
    [] op = "default" ->
         CASE k = "n" -> <<TRUE, <<<<"n", v>>>>>>
           [] k = "c" -> <<st, IF st THEN <<c>> ELSE <<<<"n", VInt(p)>>, c>>>>
           [] OTHER -> pass
    [] op = "ignore" -> IF k = "n" THEN none ELSE pass
    [] op = "buffer" ->
         CASE k = "n" -> IF Len(st) + 1 = p THEN <<<<>>, <<<<"n", VList(Append(st, v))>>>>>>
                         ELSE <<Append(st, v), <<>>>>
           [] k = "c" -> <<st, IF st = <<>> THEN <<c>> ELSE <<<<"n", VList(st)>>, c>>>>
           [] OTHER -> pass
    [] op = "mat" ->
         CASE k = "n" -> <<st, <<<<"n", VNext(v)>>>>>>
           [] k = "e" -> <<st, <<<<"n", VErr(v)>>, c>>>>
           [] OTHER -> <<st, <<<<"n", VComp>>, c>>>>
    [] op = "demat" ->
         IF k # "n" THEN pass
         ELSE CASE v[1] = 2 -> <<st, <<<<"n", v[3][1]>>>>>>
                [] v[1] = 3 -> <<st, <<<<"e", v[3][1]>>>>>>
                [] v[1] = 4 -> <<st, <<c>>>>
                [] OTHER -> pass
    [] op = "something" ->
         IF k = "n" /\ ~Pred(p, v) THEN <<st, <<<<"e", <<10, Num(v), <<>>>>>>>>>> ELSE pass

(************************** the heap **************************************)
ConvNames == { "take0", "ambLate", "zipc", "clc", "tue", "tuc", "sue", "sme", "smc", "sml", "sqe", "swe", "swc",
               "sjp", "rcr", "sut", "sjq" }

NewHeap(nodes, srcs, sjs, cns, reacts) ==
  [ nodes |-> nodes,
    srcs |-> srcs,
    inst |-> <<>>,
    ag |-> <<>>,
    out |-> <<>>,
    cf |-> <<>>,
    k |-> [i \in 1..Len(srcs) |-> 0],
    sj |-> [j \in 1..Len(sjs) |->
              [k |-> sjs[j].k, obs |-> <<>>, term |-> NoEv,
               items |-> IF sjs[j].k = "behavior" THEN <<sjs[j].v>> ELSE <<>>]],
    cn |-> [c \in 1..Len(cns) |-> [k |-> cns[c].k, in |-> cns[c].in, sj |-> cns[c].sj, conn |-> 0, hd |-> 0]],
    root |-> <<>>,          \* r -> instance
    win |-> <<>>,           \* r -> number of inner observables seen
    cnt |-> <<>>,           \* r -> number of events delivered
    held |-> {},            \* roots whose Subscription the user has (subscribe() has returned)
    guards |-> {},          \* ... and those guarded by a utils::Using
    re |-> reacts,
    endless |-> FALSE,
    cv |-> [c \in ConvNames |-> 0] ]

Alive(H, i) == H.inst[i].a
AddInst(H, rec) == [H EXCEPT !.inst = Append(@, rec)]
Push(H, acts) == [H EXCEPT !.ag = acts \o @]
SetSt(H, i, st) == [H EXCEPT !.inst[i].st = st]
Of(f, x) == IF x \in DOMAIN f THEN f[x] ELSE <<>>
\* what the channels (subscribers, tap callbacks) received during the current call
Out(H, ch, k, v) == [H EXCEPT !.out = (ch :> Append(Of(@, ch), <<ch, k, IF IsObs(v) THEN VObs(0) ELSE v>>)) @@ @]

\* all live instances below (and including) those in S
RECURSIVE Below(_, _, _)
Below(H, S, from) ==
  IF from > Len(H.inst) THEN S
  ELSE Below(H, IF H.inst[from].a /\ H.inst[from].p \in S THEN S \cup {from} ELSE S, from + 1)

SjLive(H, j) == SelectSeq(H.sj[j].obs, LAMBDA o : H.inst[o].a)

RECURSIVE Kill(_, _)
Kill(H, S0) ==
  LET S == { i \in S0 : H.inst[i].a } IN
  IF S = {} THEN H
  ELSE
    LET lo == CHOOSE i \in S : \A j \in S : i <= j
        D == Below(H, S, lo + 1)
        H1 == [H EXCEPT !.inst = [i \in DOMAIN @ |-> IF i \in D THEN [@[i] EXCEPT !.a = FALSE] ELSE @[i]]]
        \* last observer gone: a reference-counted connection is closed
        C == { H.cn[c].conn : c \in { c \in DOMAIN H.cn :
                 /\ H.cn[c].k # "pub"
                 /\ H.cn[c].conn # 0
                 /\ H.inst[H.cn[c].conn].a
                 /\ SjLive(H, H.cn[c].sj) # <<>>
                 /\ SjLive(H1, H.cn[c].sj) = <<>> } }
    IN IF C = {} THEN H1 ELSE Kill(H1, C)

\* children of instance i attached at slots in SS
Kids(H, i, SS) == { j \in DOMAIN H.inst : H.inst[j].a /\ H.inst[j].p = i /\ H.inst[j].s \in SS }
\* allowed but not required to be closed (amb losers, a used-up trigger)
Maybe(H, i, SS) ==
  LET D == UNION { Below(H, {j}, j + 1) : j \in Kids(H, i, SS) } IN
  [H EXCEPT !.inst = [j \in DOMAIN @ |-> IF j \in D THEN [@[j] EXCEPT !.m = TRUE] ELSE @[j]]]

Dn(i, s) == [x \in 1..Len(s) |-> <<"dn", i, s[x][1], s[x][2]>>]

NewRoot(H, r) ==
  LET H1 == AddInst(H, [n |-> 0, o |-> "root", p |-> 0, s |-> r, st |-> <<>>, a |-> TRUE, m |-> FALSE, i |-> 0, k |-> 0, f |-> FALSE])
      id == Len(H1.inst)
  IN [H1 EXCEPT !.root = (r :> id) @@ @, !.win = (r :> 0) @@ @, !.cnt = (r :> 0) @@ @]

(************************** subscribing ***********************************)
Nary == {"merge", "zip", "combine", "amb", "seq_eq"}
Gate == {"take_until", "skip_until", "sample", "switch"}

NaryInit(nd) == CASE nd.op = "merge" -> {x \in 1..Len(nd.in) : TRUE}
                  [] nd.op \in {"zip", "seq_eq"} -> [q |-> [x \in 1..Len(nd.in) |-> <<>>], done |-> {}]
                  [] nd.op = "combine" -> [q |-> [x \in 1..Len(nd.in) |-> <<>>], done |-> {}]
                  [] nd.op = "amb" -> 0
                  [] nd.op \in {"flat_map", "wflat"} -> [live |-> {1}, next |-> 2]
                  [] nd.op = "sample" -> <<>>
                  [] nd.op \in {"skip_until", "switch"} -> FALSE
                  [] nd.op \in {"retry", "retry_when", "concat", "resume"} -> 1
                  [] OTHER -> <<>>

LeafScript(H, nd) ==
  CASE nd.op = "just" -> <<<<"n", nd.a[1]>>, <<"c", VUnit>>>>
    [] nd.op = "start" -> <<<<"n", nd.a[1]>>, <<"c", VUnit>>>>
    [] nd.op = "from_iter" -> Emit(nd.a) \o <<<<"c", VUnit>>>>
    [] nd.op = "range" -> [x \in 1..nd.a[2][2] |-> <<"n", VInt(nd.a[1][2] + x - 1)>>] \o <<<<"c", VUnit>>>>
    [] nd.op = "empty" -> <<<<"c", VUnit>>>>
    [] nd.op = "never" -> <<>>
    [] nd.op = "error" -> <<<<"e", nd.a[1]>>>>
    [] nd.op = "from_ok" -> <<<<"n", nd.a[1]>>, <<"c", VUnit>>>>
    [] nd.op = "from_err" -> <<<<"e", nd.a[1]>>>>
Leaf == {"just", "start", "from_iter", "range", "empty", "never", "error", "from_ok", "from_err"}

SjSub(H, id, j) ==
  LET S == H.sj[j] IN
  CASE S.k = "plain" -> [H EXCEPT !.sj[j].obs = Append(@, id)]
    [] S.k = "behavior" ->
         IF S.term # NoEv THEN Push(H, <<<<"dn", id, S.term[1], S.term[2]>>>>)
         ELSE Push([H EXCEPT !.sj[j].obs = Append(@, id), !.inst[id].st = <<"idle">>], <<<<"dq", id, "n", S.items[1]>>>>)
    [] S.k = "replay" -> Push([H EXCEPT !.sj[j].obs = Append(@, id), !.inst[id].st = <<"pl", 1, FALSE, j>>], <<<<"pl", id>>>>)
    [] S.k = "async" ->
         IF S.term = NoEv THEN [H EXCEPT !.sj[j].obs = Append(@, id)]
         ELSE IF S.term[1] = "c" THEN Push(H, Dn(id, Emit(S.items) \o <<S.term>>))
         ELSE Push(H, Dn(id, <<S.term>>))

\* connecting a connectable: its connection is an instance of its own
Connect(H, c) ==
  LET H1 == AddInst(H, [n |-> 0, o |-> "conn", p |-> 0, s |-> c, st |-> <<>>, a |-> TRUE, m |-> FALSE, i |-> 0, k |-> 0, f |-> FALSE])
      id == Len(H1.inst)
  IN Push([H1 EXCEPT !.cn[c].conn = id], <<<<"sub", H.cn[c].in, id, 1>>>>)

\* a subscriber of a reference-counted connectable arrives: does it (re)connect?
RcWants(H, c) ==
  LET C == H.cn[c] IN
  CASE C.k = "pub" -> "no"
    [] C.conn = 0 -> "yes"
    [] H.inst[C.conn].a -> "no"
    [] OTHER -> "maybe"

ExecSub(H, nx, p, s) ==
  IF ~H.inst[p].a THEN H
  ELSE
  LET nd == H.nodes[nx]
      op == nd.op
      id == Len(H.inst) + 1
      base == [n |-> nx, o |-> op, p |-> p, s |-> s, st |-> <<>>, a |-> TRUE, m |-> H.inst[p].m, i |-> 0, k |-> 0, f |-> FALSE]
      H1(st) == AddInst(H, [base EXCEPT !.st = st])
      subs(S) == [x \in 1..Len(S) |-> <<"sub", nd.in[S[x]], id, S[x]>>]
  IN
  CASE op = "src" ->
         LET i == nd.p
             kk == H.k[i] + 1
             sc == H.srcs[i]
             H2 == [AddInst(H, [base EXCEPT !.i = i, !.k = kk]) EXCEPT !.k[i] = kk]
         IN IF sc.hot = 1 THEN H2
            ELSE Push(H2, <<<<"cold", id, sc.s[IF kk <= Len(sc.s) THEN kk ELSE Len(sc.s)], 1>>>>)
    [] op \in Leaf -> Push(H1(<<>>), Dn(id, LeafScript(H, nd)))
    [] op = "repeat" -> Push(H1(<<>>), <<<<"rep", id, nd.a[1], 0>>>>)
    [] op \in {"iterate", "start_iter"} -> Push(H1(<<>>), <<<<"rep", id, VInt(nd.p), 1>>>>)
    [] op = "subj" -> SjSub(H1(<<>>), id, nd.p)
    [] op = "conn" ->
         LET c == nd.p
             w == RcWants(H, c)
             j == H.cn[c].sj
             go == w = "yes" \/ (w = "maybe" /\ H.cv["rcr"] = 2)
             Ha == H1(<<>>)
             \* a reconnecting replay starts its history afresh
             Hb == IF w = "maybe" /\ go THEN [Ha EXCEPT !.sj[j].items = <<>>, !.sj[j].term = NoEv] ELSE Ha
         IN IF ~go THEN SjSub(Hb, id, j)
            ELSE LET Hc == SjSub(Hb, id, j) IN
                 \* the source is subscribed once the observer is registered (history is empty here)
                 [Hc EXCEPT !.ag = Append(SubSeq(Hc.ag, 1, Len(Hc.ag) - Len(Hb.ag)), <<"connect", c>>) \o Hb.ag]
    [] op = "start_with" -> Push(H1(<<>>), Dn(id, Emit(nd.a)) \o subs(<<1>>))
    [] op = "take" /\ nd.p = 0 /\ H.cv["take0"] = 2 -> Push(H1(0), Dn(id, <<<<"c", VUnit>>>>))
    [] op = "rsg" -> Push(H1(<<>>), subs(<<1>>) \o
                       [x \in 1..Len(nd.a) |-> <<"sjc", nd.p, "n", nd.a[x]>>])
    [] op \in Unary -> Push(H1(UInit(op)), subs(<<1>>))
    [] op \in Nary -> Push(H1(NaryInit(nd)), subs([x \in 1..Len(nd.in) |-> x]))
    [] op \in Gate -> Push(H1(NaryInit(nd)), IF op = "switch" THEN subs(<<1, 2>>) ELSE subs(<<2, 1>>))
    [] OTHER -> Push(H1(NaryInit(nd)), subs(<<1>>))   \* concat, flat_map, wflat, retry, retry_when, resume

(************************** events ****************************************)
Down(H, id, outs) == Push(H, Dn(id, outs))

\* events of one operator that combines several inputs
ZipRow(q) == \A x \in DOMAIN q : q[x] # <<>>
Heads(q) == [x \in DOMAIN q |-> Head(q[x])]
Tails(q) == [x \in DOMAIN q |-> Tail(q[x])]
Drained(st) == \E x \in st.done : st.q[x] = <<>>

\* state of a zip after an event, before any output
ZipAfter(st, s, k, v) == IF k = "n" THEN [st EXCEPT !.q[s] = Append(@, v)] ELSE [st EXCEPT !.done = @ \cup {s}]

\* sequence_equal compares options: an item or "ended"
EqOpt(st, x) == IF st.q[x] # <<>> THEN <<"i", Head(st.q[x])>> ELSE <<"end", VUnit>>
EqKnown(st) == { x \in DOMAIN st.q : st.q[x] # <<>> \/ x \in st.done }
EqDiff(st) == \E x, y \in EqKnown(st) : EqOpt(st, x) # EqOpt(st, y)
EqFull(st) == EqKnown(st) = DOMAIN st.q

ExecNary(H, id, s, k, v) ==
  LET I == H.inst[id]
      nd == H.nodes[I.n]
      op == nd.op
      st == I.st
      fwd == Down(H, id, <<<<k, v>>>>)
      end == <<"c", VUnit>>
  IN
  CASE op = "merge" ->
         IF k # "c" THEN fwd
         ELSE LET l == st \ {s} IN IF l = {} THEN Down(SetSt(H, id, l), id, <<end>>) ELSE SetSt(H, id, l)
    [] op \in {"flat_map", "wflat"} ->
         IF k = "e" THEN fwd
         ELSE IF k = "c" THEN
           LET l == st.live \ {s}
               H1 == SetSt(H, id, [st EXCEPT !.live = l])
           IN IF l = {} THEN Down(H1, id, <<end>>) ELSE H1
         ELSE IF s > 1 THEN fwd
         ELSE
           LET sl == st.next
               H1 == SetSt(H, id, [live |-> st.live \cup {sl}, next |-> sl + 1])
           IN IF op = "flat_map" THEN
                Push(H1, <<<<"sub", nd.in[2 + (Num(v) % (Len(nd.in) - 1))], id, sl>>>>)
              ELSE
                \* subscribe to the inner observable, through the operator chosen by p
                LET leaf == [op |-> "subj", p |-> v[2], a |-> <<>>, in |-> <<>>]
                    H2 == [H1 EXCEPT !.nodes = Append(@, leaf)]
                    lx == Len(H2.nodes)
                    wrap == CASE nd.p = 1 -> [op |-> "count", p |-> 0, a |-> <<>>, in |-> <<lx>>]
                              [] nd.p = 2 -> [op |-> "take", p |-> 1, a |-> <<>>, in |-> <<lx>>]
                              [] nd.p = 3 -> [op |-> "buffer", p |-> 100, a |-> <<>>, in |-> <<lx>>]
                              [] OTHER -> leaf
                IN IF nd.p \in {1, 2, 3} THEN
                     Push([H2 EXCEPT !.nodes = Append(@, wrap)], <<<<"sub", lx + 1, id, sl>>>>)
                   ELSE Push(H2, <<<<"sub", lx, id, sl>>>>)
    [] op = "concat" ->
         IF k # "c" THEN fwd
         ELSE IF s = Len(nd.in) THEN Down(H, id, <<end>>)
         ELSE Push(H, <<<<"sub", nd.in[s + 1], id, s + 1>>>>)
    [] op = "zip" ->
         IF k = "e" THEN fwd
         ELSE
           LET t == ZipAfter(st, s, k, v)
               row == ZipRow(t.q)
               t2 == IF row THEN [t EXCEPT !.q = Tails(@)] ELSE t
               fin == t2.done = DOMAIN t2.q \/ (Drained(t2) /\ H.cv["zipc"] = 2)
           IN Down(SetSt(H, id, t2), id,
                (IF row THEN <<<<"n", VList(Heads(t.q))>>>> ELSE <<>>) \o (IF fin THEN <<end>> ELSE <<>>))
    [] op = "combine" ->
         IF k = "e" THEN fwd
         ELSE IF k = "n" THEN
           LET t == [st EXCEPT !.q[s] = <<v>>] IN
           Down(SetSt(H, id, t), id, IF ZipRow(t.q) THEN <<<<"n", VList(Heads(t.q))>>>> ELSE <<>>)
         ELSE
           LET t == [st EXCEPT !.done = @ \cup {s}]
               fin == t.done = DOMAIN t.q \/ (st.q[s] = <<>> /\ H.cv["clc"] = 2)
           IN Down(SetSt(H, id, t), id, IF fin THEN <<end>> ELSE <<>>)
    [] op = "seq_eq" ->
         IF k = "e" THEN fwd
         ELSE
           LET t == ZipAfter(st, s, k, v)
               no == EqDiff(t) /\ (EqFull(t) \/ H.cv["sqe"] = 2)
               row == ZipRow(t.q)
               t2 == IF row THEN [t EXCEPT !.q = Tails(@)] ELSE t
               yes == ~no /\ t2.done = DOMAIN t2.q /\ \A x \in DOMAIN t2.q : t2.q[x] = <<>>
               H1 == SetSt(H, id, t2)
           \* the inputs are let go before the single answer is delivered
           IN Down(IF no THEN Kill(H1, Kids(H1, id, DOMAIN st.q)) ELSE H1, id,
                IF no THEN <<<<"n", VBool(FALSE)>>, end>>
                ELSE IF yes THEN <<<<"n", VBool(TRUE)>>, end>> ELSE <<>>)
    [] op = "amb" ->
         IF st = 0 THEN
           Down(Maybe(SetSt(H, id, s), id, (1..Len(nd.in)) \ {s}), id, <<<<k, v>>>>)
         ELSE IF st = s THEN fwd
         ELSE Kill(H, Kids(H, id, {s}))
    [] op = "take_until" ->
         IF s = 1 THEN fwd
         ELSE CASE k = "n" -> Down(H, id, <<end>>)
                [] k = "e" -> IF H.cv["tue"] = 2 THEN fwd ELSE H
                [] OTHER -> IF H.cv["tuc"] = 2 THEN Down(H, id, <<end>>) ELSE H
    [] op = "skip_until" ->
         IF s = 1 THEN (IF k = "n" /\ ~st THEN H ELSE fwd)
         ELSE CASE k = "n" ->
                       IF st THEN H
                       ELSE IF H.cv["sut"] = 2 THEN Kill(SetSt(H, id, TRUE), Kids(H, id, {2})) ELSE SetSt(H, id, TRUE)
                [] k = "e" -> IF H.cv["sue"] = 2 /\ ~st THEN fwd ELSE H
                [] OTHER -> H
    [] op = "sample" ->
         IF s = 1 THEN
           CASE k = "n" -> SetSt(H, id, <<v>>)
             [] k = "e" -> fwd
             [] OTHER -> Down(H, id, (IF st # <<>> /\ H.cv["sml"] = 2 THEN <<<<"n", st[1]>>>> ELSE <<>>) \o <<end>>)
         ELSE
           CASE k = "n" -> Down(SetSt(H, id, <<>>), id, Emit(st))
             [] k = "e" -> IF H.cv["sme"] = 2 THEN fwd ELSE H
             [] OTHER -> IF H.cv["smc"] = 2 THEN Down(H, id, <<end>>) ELSE H
    [] op = "switch" ->
         IF s = 2 THEN
           CASE k = "n" -> Down(Maybe(SetSt(H, id, TRUE), id, {1}), id, <<<<k, v>>>>)
             [] k = "e" -> fwd
             [] OTHER -> IF st \/ H.cv["swc"] # 2 THEN Down(H, id, <<end>>) ELSE H
         ELSE
           CASE k = "n" -> IF st THEN Kill(H, Kids(H, id, {1})) ELSE fwd
             [] k = "e" -> IF st /\ H.cv["swe"] = 2 THEN H ELSE fwd
             [] OTHER -> H
    [] op \in {"retry", "retry_when"} ->
         IF k # "e" THEN fwd
         ELSE IF (IF op = "retry" THEN nd.p = 0 \/ st < nd.p ELSE RPred(nd.p, v))
              THEN Push(SetSt(H, id, st + 1), <<<<"sub", nd.in[1], id, st + 1>>>>)
              ELSE fwd
    [] op = "resume" ->
         IF k = "e" /\ s = 1 THEN
           Push(H, <<<<"sub", nd.in[2 + (v[2] % (Len(nd.in) - 1))], id, 2>>>>)
         ELSE fwd

ExecWindow(H, id, k, v) ==
  LET I == H.inst[id]
      nd == H.nodes[I.n]
      cur == I.st[1]
      new == Len(H.sj) + 1
      plain == [k |-> "plain", obs |-> <<>>, term |-> NoEv, items |-> <<>>]
  IN
  IF nd.op = "window" THEN
    IF k = "n" THEN
      LET fresh == cur = 0
          j == IF fresh THEN new ELSE cur
          n == IF fresh THEN 1 ELSE I.st[2] + 1
          full == n >= nd.p
          H1 == IF fresh THEN [H EXCEPT !.sj = Append(@, plain)] ELSE H
          H2 == SetSt(H1, id, IF full THEN <<0, 0>> ELSE <<j, n>>)
      IN Push(H2, (IF fresh THEN <<<<"dn", id, "n", VObs(j)>>>> ELSE <<>>) \o <<<<"sjc", j, "n", v>>>>
                  \o (IF full THEN <<<<"sjc", j, "c", VUnit>>>> ELSE <<>>))
    ELSE Push(H, (IF cur = 0 THEN <<>> ELSE <<<<"sjc", cur, k, v>>>>) \o <<<<"dn", id, k, v>>>>)
  ELSE \* group: state is a sequence of <<key, subject>>
    IF k = "n" THEN
      LET key == Num(v) % nd.p
          hit == SelectSeq(I.st, LAMBDA e : e[1] = key)
          fresh == hit = <<>>
          j == IF fresh THEN new ELSE hit[1][2]
          H1 == IF fresh THEN SetSt([H EXCEPT !.sj = Append(@, plain)], id, Append(I.st, <<key, new>>)) ELSE H
      IN Push(H1, (IF fresh THEN <<<<"dn", id, "n", VObs(j)>>>> ELSE <<>>) \o <<<<"sjc", j, "n", v>>>>)
    ELSE Push(H, [x \in 1..Len(I.st) |-> <<"sjc", I.st[x][2], k, v>>] \o <<<<"dn", id, k, v>>>>)

RootCh(H, r) == r

ExecEv(H, id, s, k, v) ==
  LET I == H.inst[id] IN
  IF ~I.a THEN H
  ELSE IF I.o = "root" THEN
    LET r == I.s
        H1 == Out(IF k = "n" THEN H ELSE Kill(H, {id}), r, k, v)
        n == H1.cnt[r] + 1
        H2 == [H1 EXCEPT !.cnt[r] = n]
        acts == SelectSeq(H.re, LAMBDA x : x.r = r /\ x.m = n)
        H3 == Push(H2, [x \in 1..Len(acts) |-> <<"act", acts[x].act>>])
    IN IF k = "n" /\ IsObs(v) THEN
         LET w == H3.win[r] + 1
             ch == r * 100 + w
             H4 == NewRoot([H3 EXCEPT !.win[r] = w, !.nodes = Append(@, [op |-> "subj", p |-> v[2], a |-> <<>>, in |-> <<>>])], ch)
         IN Push(H4, <<<<"sub", Len(H4.nodes), H4.root[ch], 1>>>>)
       ELSE H3
  ELSE IF I.o = "conn" /\ I.n = 0 THEN
    Push(IF k = "n" THEN H ELSE Kill(H, {id}), <<<<"sjc", H.cn[I.s].sj, k, v>>>>)
  ELSE IF I.o \in {"window", "group"} THEN ExecWindow(H, id, k, v)
  ELSE IF I.o \in Unary THEN
    \* f: the operator has already decided to end (an event arriving while it hands over its last item is ignored)
    IF I.f THEN H
    ELSE
    LET r == U(H.nodes[I.n], I.st, k, v)
        H1 == IF I.o = "tap" THEN Out(H, 100000 + I.n, k, v) ELSE H
        H2 == [SetSt(H1, id, r[1]) EXCEPT !.inst[id].f = \E x \in 1..Len(r[2]) : r[2][x][1] # "n"]
    IN Down(H2, id, r[2])
  ELSE ExecNary(H, id, s, k, v)

(************************** subjects **************************************)
SjCall(H, j, k, v) ==
  LET S == H.sj[j]
      dead == S.term # NoEv /\ S.k # "plain"
  IN
  IF dead /\ H.cv["sjp"] = 2 THEN H       \* a call after the terminal changes nothing
  ELSE
  CASE S.k = "plain" ->
         IF k = "n" THEN Push(H, <<<<"bc", SjLive(H, j), <<<<k, v>>>>>>>>)
         ELSE Push([H EXCEPT !.sj[j].obs = <<>>], <<<<"bc", SjLive(H, j), <<<<k, v>>>>>>>>)
    [] S.k = "behavior" ->
         IF k = "n" THEN
           \* as implemented, a value after complete() revives the subject for later subscribers
           Push([H EXCEPT !.sj[j].items = <<v>>, !.sj[j].term = IF @[1] = "c" THEN NoEv ELSE @],
                <<<<"bc", SjLive(H, j), <<<<k, v>>>>>>>>)
         ELSE
           Push([H EXCEPT !.sj[j].obs = <<>>, !.sj[j].term = IF @[1] = "e" /\ k = "c" THEN @ ELSE <<k, v>>],
                <<<<"bc", SjLive(H, j), <<<<k, v>>>>>>>>)
    [] S.k = "replay" ->
         LET H1 == IF k = "n" THEN [H EXCEPT !.sj[j].items = Append(@, v)]
                   ELSE [H EXCEPT !.sj[j].obs = <<>>, !.sj[j].term = IF @[1] = "e" /\ k = "c" THEN @ ELSE <<k, v>>]
         IN Push(H1, <<<<"bc", SjLive(H, j), <<<<k, v>>>>>>>>)
    [] S.k = "async" ->
         IF k = "n" THEN [H EXCEPT !.sj[j].items = <<v>>]
         ELSE
           LET o == SjLive(H, j) IN
           Push([H EXCEPT !.sj[j].obs = <<>>, !.sj[j].term = <<k, v>>],
                <<<<"bc", o, IF k = "c" THEN Emit(S.items) \o <<<<k, v>>>> ELSE <<<<k, v>>>>>>>>)

(************************** one step **************************************)
\* calls a user makes: <<"sub", r, node>> <<"unsub", r>> <<"emit", i, k, kind, v>> <<"sj", j, kind, v>>
\* <<"conn", c>> <<"disc", c>>
ExecAct(H, a) ==
  CASE a[1] \in {"sub", "subu"} ->
         LET H1 == NewRoot(H, a[2]) IN
         Push(H1, <<<<"sub", a[3], H1.root[a[2]], 1>>, <<"held", a[2], a[1] = "subu">>>>)
    [] a[1] = "unsub" -> IF a[2] \in H.held THEN Kill(H, {H.root[a[2]]}) ELSE H
    [] a[1] = "drop" -> IF a[2] \in H.guards THEN Kill([H EXCEPT !.guards = @ \ {a[2]}], {H.root[a[2]]}) ELSE H
    [] a[1] = "emit" ->
         LET T == { i \in DOMAIN H.inst : H.inst[i].i = a[2] /\ H.inst[i].k = a[3] } IN
         IF T = {} THEN H ELSE Push(H, <<<<"dn", CHOOSE i \in T : TRUE, a[4], a[5]>>>>)
    [] a[1] = "sj" -> Push(H, <<<<"sjc", a[2], a[3], a[4]>>>>)
    [] a[1] = "conn" ->
         LET H1 == Connect(H, a[2]) IN
         [H1 EXCEPT !.ag = <<Head(@), <<"heldc", a[2], H1.cn[a[2]].conn>>>> \o Tail(@)]
    [] a[1] = "disc" -> IF H.cn[a[2]].hd = 0 THEN H ELSE Kill(H, {H.cn[a[2]].hd})
    [] OTHER -> H

SjKind(st) == IF st = <<>> THEN "dn" ELSE IF st[1] = "pl" THEN "pl" ELSE "dq"

Exec(H0) ==
  LET a == Head(H0.ag)
      H == [H0 EXCEPT !.ag = Tail(@)]
  IN
  CASE a[1] = "dn" ->
         LET id == a[2] IN
         IF ~H.inst[id].a THEN H
         ELSE Push(IF a[3] = "n" THEN H ELSE Kill(H, {id}),
                   <<<<"ev", H.inst[id].p, H.inst[id].s, a[3], a[4]>>>>)
    [] a[1] = "ev" -> ExecEv(H, a[2], a[3], a[4], a[5])
    [] a[1] = "sub" -> ExecSub(H, a[2], a[3], a[4])
    [] a[1] = "cold" ->
         LET id == a[2]
             I == H.inst[id]
             sc == a[3]
             x == a[4]
             flag == IF I.m THEN 2 ELSE IF I.a THEN 1 ELSE 0
         IN IF x > Len(sc) THEN H
            ELSE
              LET H1 == [H EXCEPT !.cf = Append(@, <<I.i, I.k, x, IF I.a THEN flag ELSE IF I.m THEN 2 ELSE 0>>)] IN
              IF H.srcs[I.i].pol = 1 /\ ~I.a THEN H1
              ELSE Push(H1, <<<<"dn", id, sc[x][1], sc[x][2]>>, <<"cold", id, sc, x + 1>>>>)
    [] a[1] = "rep" ->
         IF H.inst[a[2]].a THEN
           Push(H, <<<<"dn", a[2], "n", a[3]>>, <<"rep", a[2], VInt(Num(a[3]) + a[4]), a[4]>>>>)
         ELSE H
    \* an observer of a replay subject is played the history from its own position, each item once, then the terminal;
    \* whatever arrives from within its own callback is played when that callback has returned
    [] a[1] = "pl" ->
         LET id == a[2]
             st == H.inst[id].st
             S == H.sj[st[4]]
         IN IF ~H.inst[id].a \/ st[3] THEN H
            ELSE IF st[2] <= Len(S.items) THEN
              Push(SetSt(H, id, <<"pl", st[2] + 1, TRUE, st[4]>>), <<<<"dn", id, "n", S.items[st[2]]>>, <<"plx", id>>>>)
            ELSE IF S.term # NoEv THEN
              Push([H EXCEPT !.sj[st[4]].obs = SelectSeq(@, LAMBDA o : o # id)], <<<<"dn", id, S.term[1], S.term[2]>>>>)
            ELSE H
    [] a[1] = "plx" -> Push([H EXCEPT !.inst[a[2]].st[3] = FALSE], <<<<"pl", a[2]>>>>)
    \* an observer of a behavior subject: a call made from within its own callback is delivered at once (nested)
    \* or when that callback has returned (convention sjq)
    [] a[1] = "dq" ->
         LET st == H.inst[a[2]].st IN
         IF ~H.inst[a[2]].a THEN H
         ELSE IF st[1] = "busy" /\ H.cv["sjq"] = 2 THEN SetSt(H, a[2], Append(st, <<a[3], a[4]>>))
         ELSE IF st[1] = "busy" THEN Push(H, <<<<"dn", a[2], a[3], a[4]>>>>)
         ELSE Push(SetSt(H, a[2], <<"busy">>), <<<<"dn", a[2], a[3], a[4]>>, <<"dqe", a[2]>>>>)
    [] a[1] = "dqe" ->
         LET st == H.inst[a[2]].st IN
         IF Len(st) = 1 THEN SetSt(H, a[2], <<"idle">>)
         ELSE Push(SetSt(H, a[2], <<st[1]>> \o SubSeq(st, 3, Len(st))), <<<<"dn", a[2], st[2][1], st[2][2]>>, <<"dqe", a[2]>>>>)
    [] a[1] = "sjc" -> SjCall(H, a[2], a[3], a[4])
    [] a[1] = "bc" ->
         Push(H, [x \in 1..(Len(a[2]) * Len(a[3])) |->
                    LET o == a[2][((x - 1) \div Len(a[3])) + 1]
                        e == a[3][((x - 1) % Len(a[3])) + 1]
                    IN <<SjKind(H.inst[o].st), o, e[1], e[2]>>])
    [] a[1] = "connect" ->
         LET C == H.cn[a[2]] IN
         IF C.k # "pub" /\ (SjLive(H, C.sj) = <<>> \/ (C.conn # 0 /\ H.inst[C.conn].a)) THEN H ELSE Connect(H, a[2])
    [] a[1] = "act" -> ExecAct(H, a[2])
    [] a[1] = "held" -> [H EXCEPT !.held = @ \cup {a[2]}, !.guards = IF a[3] THEN @ \cup {a[2]} ELSE @]
    [] a[1] = "heldc" -> [H EXCEPT !.cn[a[2]].hd = a[3]]

(************************** open points ***********************************)
\* the convention that decides what the top action does, if it is still undecided
Need(H) ==
  LET a == Head(H.ag)
      und(c, b) == IF b /\ H.cv[c] = 0 THEN c ELSE ""
  IN
  CASE a[1] = "sub" /\ H.inst[a[3]].a ->
         LET nd == H.nodes[a[2]]
             P == H.inst[a[3]]
         IN CASE nd.op = "take" -> und("take0", nd.p = 0)
              [] nd.op = "conn" -> und("rcr", RcWants(H, nd.p) = "maybe")
              [] OTHER -> ""
    [] a[1] = "dq" -> und("sjq", H.inst[a[2]].a /\ H.inst[a[2]].st[1] = "busy")
    [] a[1] = "sjc" -> und("sjp", H.sj[a[2]].k # "plain" /\ H.sj[a[2]].term # NoEv)
    [] a[1] = "ev" /\ H.inst[a[2]].a ->
         LET I == H.inst[a[2]]
             s == a[3]
             k == a[4]
         IN CASE I.o = "zip" /\ k # "e" ->
                   LET t == ZipAfter(I.st, s, k, a[5])
                       t2 == IF ZipRow(t.q) THEN [t EXCEPT !.q = Tails(@)] ELSE t
                   IN und("zipc", Drained(t2) /\ t2.done # DOMAIN t2.q)
              [] I.o = "combine" /\ k = "c" ->
                   und("clc", I.st.q[s] = <<>> /\ I.st.done \cup {s} # DOMAIN I.st.q)
              [] I.o = "seq_eq" /\ k # "e" ->
                   LET t == ZipAfter(I.st, s, k, a[5]) IN und("sqe", EqDiff(t) /\ ~EqFull(t))
              [] I.o = "take_until" /\ s = 2 -> IF k = "e" THEN und("tue", TRUE) ELSE und("tuc", k = "c")
              [] I.o = "skip_until" /\ s = 2 -> IF k = "n" THEN und("sut", ~I.st) ELSE und("sue", k = "e" /\ ~I.st)
              [] I.o = "sample" /\ s = 2 -> IF k = "e" THEN und("sme", TRUE) ELSE und("smc", k = "c")
              [] I.o = "sample" /\ s = 1 -> und("sml", k = "c" /\ I.st # <<>>)
              [] I.o = "switch" /\ s = 2 -> und("swc", k = "c" /\ ~I.st)
              [] I.o = "switch" /\ s = 1 -> und("swe", k = "e" /\ I.st)
              [] OTHER -> ""
    [] OTHER -> ""

\* an amb that has its winner may or may not subscribe to the remaining inputs
AmbLate(H) ==
  LET a == Head(H.ag) IN
  a[1] = "sub" /\ H.inst[a[3]].a /\ H.inst[a[3]].o = "amb" /\ H.inst[a[3]].st # 0

BcLive(H, a) == { a[2][x] : x \in { x \in 1..Len(a[2]) : H.inst[a[2][x]].a } }

Choices(H) ==
  IF H.ag = <<>> THEN {}
  ELSE
    LET a == Head(H.ag) IN
    IF a[1] = "bc" /\ Cardinality(BcLive(H, a)) > 1 THEN
      \* in any order
      { [H EXCEPT !.ag = <<<<"bc", <<o>>, a[3]>>, <<"bc", SelectSeq(a[2], LAMBDA x : x # o), a[3]>>>> \o Tail(@)] : o \in BcLive(H, a) }
    ELSE IF AmbLate(H) /\ H.cv["ambLate"] = 0 THEN
      { [H EXCEPT !.cv["ambLate"] = c] : c \in {1, 2} }
    ELSE
      LET n == Need(H) IN
      IF n = "" THEN {} ELSE { [H EXCEPT !.cv[n] = c] : c \in {1, 2} }

Exec1(H) ==
  IF AmbLate(H) THEN
    IF H.cv["ambLate"] = 2 THEN [H EXCEPT !.ag = Tail(@)]
    ELSE \* subscribed as a loser
      LET a == Head(H.ag)
          n == Len(H.inst)
          H1 == Exec(H)
      IN IF Len(H1.inst) > n THEN [H1 EXCEPT !.inst[n + 1].m = TRUE] ELSE H1
  ELSE Exec(H)

\* A pipeline may be endless by itself (unlimited attempts at something that always fails, say): not judged.
Endless(H) == [H EXCEPT !.ag = <<>>, !.endless = TRUE]
RECURSIVE RunFor(_, _)
RunFor(H, fuel) ==
  IF H.ag = <<>> THEN H
  ELSE IF fuel = 0 \/ Len(H.inst) > 500 THEN Endless(H)
  ELSE IF Choices(H) # {} THEN H
  ELSE RunFor(Exec1(H), fuel - 1)
Run(H) == RunFor(H, 5000)

Start(H, act) == [H EXCEPT !.ag = <<<<"act", act>>>>, !.out = <<>>, !.cf = <<>>]

(************************** observations **********************************)
Subscribed(H, r) == r \in DOMAIN H.root /\ H.inst[H.root[r]].a
MustOpen(H) == { <<H.inst[i].i, H.inst[i].k>> : i \in { i \in DOMAIN H.inst : H.inst[i].o = "src" /\ H.inst[i].a /\ ~H.inst[i].m } }
MayOpen(H)  == { <<H.inst[i].i, H.inst[i].k>> : i \in { i \in DOMAIN H.inst : H.inst[i].o = "src" /\ H.inst[i].a } }
Chan(out, ch) == SelectSeq(out, LAMBDA e : e[1] = ch)       \* out as recorded: one sequence

(************************** properties ************************************)
RECURSIVE WellFormed(_)
\* next* then at most one terminal, nothing after
WellFormed(s) == IF s = <<>> THEN TRUE
                 ELSE IF Head(s)[2] = "n" THEN WellFormed(Tail(s)) ELSE Tail(s) = <<>>
\* every live instance hangs below a live one: nothing upstream outlives what it was subscribed for
NoOrphans(H) == \A i \in DOMAIN H.inst : H.inst[i].a /\ H.inst[i].p # 0 => H.inst[H.inst[i].p].a
\* a subject only delivers to registered live observers; nothing is registered with two subjects
OneConnection(H) == \A c \in DOMAIN H.cn : H.cn[c].k # "pub" =>
   Cardinality({ i \in DOMAIN H.inst : H.inst[i].o = "conn" /\ H.inst[i].n = 0 /\ H.inst[i].s = c /\ H.inst[i].a }) <= 1
=============================================================================
