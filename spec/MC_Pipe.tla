------------------------------- MODULE MC_Pipe -------------------------------
(***************************************************************************)
(* The operational specification RxPipe against the definitions.           *)
(*                                                                         *)
(* RxPipe says step by step what a pipeline does; recorded runs of the     *)
(* real library are checked against it (TracePipe).  Here TLC drives it    *)
(* with every sequence of calls up to a bound and compares what the        *)
(* subscribers receive with the operators' definitions written as          *)
(* functions of the whole history - independently of RxPipe - and checks   *)
(* the properties that must hold of every pipeline: the observer contract  *)
(* (C01), error transparency (C04), silence after unsubscribe (C05),       *)
(* teardown (C06), one connection (C13), independence (C14).               *)
(* Where the properties leave the outcome open (a convention of RxPipe is  *)
(* reached) only the general properties are checked from there on.         *)
(***************************************************************************)
EXTENDS RxPipe, IOUtils

Group == IF "GROUP" \in DOMAIN IOEnv THEN IOEnv.GROUP ELSE "unary"
Deep == "DEEP" \in DOMAIN IOEnv
Bound == (CASE Group = "unary" -> 5 [] Group = "combine" -> 6 [] Group = "chain" -> 4 [] Group = "error" -> 5 [] Group = "subj" -> 5
            [] Group = "conn" -> 6 [] Group = "resub" -> 3) + (IF Deep THEN 1 ELSE 0)

----------------------------------------------------------------------------
(* pipelines *)
N(op, p, in) == [op |-> op, p |-> p, a |-> <<>>, in |-> in]
Hot == [hot |-> 1, pol |-> 0, s |-> <<>>]
Pipe(nodes, ns) == [nodes |-> nodes, srcs |-> [x \in 1..ns |-> Hot], sjs |-> <<>>, cns |-> <<>>, top |-> Len(nodes)]
Src(i) == N("src", i, <<>>)
Chain1 == {<<"map", 1>>, <<"filter", 1>>, <<"take", 1>>, <<"take", 2>>, <<"skip", 1>>, <<"take_last", 1>>, <<"take_last", 2>>, <<"skip_last", 1>>,
           <<"take_while", 2>>, <<"skip_while", 2>>, <<"first", 0>>, <<"last", 0>>, <<"element_at", 1>>, <<"element_at", 2>>, <<"distinct", 0>>,
           <<"scan", 0>>, <<"reduce", 0>>, <<"count", 0>>, <<"sum", 0>>, <<"sum_count", 0>>, <<"min", 0>>, <<"max", 0>>, <<"all", 1>>,
           <<"contains", 1>>, <<"default", 7>>, <<"ignore", 0>>, <<"buffer", 1>>, <<"buffer", 2>>, <<"mat", 0>>, <<"tap", 0>>,
           <<"start_with", 0>>}
Mk(c, in) == IF c[1] = "start_with" THEN [N(c[1], c[2], in) EXCEPT !.a = <<VInt(8)>>] ELSE N(c[1], c[2], in)
Nary2 == {"merge", "zip", "combine", "amb", "concat", "seq_eq", "take_until", "skip_until", "sample"}

Pipes ==
  CASE Group = "unary" -> {Pipe(<<Src(1), Mk(c, <<1>>)>>, 1) : c \in Chain1}
                          \cup {Pipe(<<Src(1), N("mat", 0, <<1>>), N("demat", 0, <<2>>)>>, 1)}
    [] Group = "chain" -> {Pipe(<<Src(1), Mk(c, <<1>>), Mk(d, <<2>>)>>, 1) : c \in Chain1, d \in Chain1}
    [] Group = "combine" -> {Pipe(<<Src(1), Src(2), N(op, 0, <<1, 2>>)>>, 2) : op \in Nary2}
    [] Group = "error" -> {Pipe(<<Src(1), N("retry", n, <<1>>)>>, 1) : n \in 0..3}
                          \cup {Pipe(<<Src(1), N("retry_when", n, <<1>>)>>, 1) : n \in 0..2}
                          \cup {Pipe(<<Src(1), Src(2), N("resume", 0, <<1, 2>>)>>, 2)}
                          \cup {Pipe(<<Src(1), Src(2), N("merge", 0, <<1, 2>>), N("retry", n, <<3>>)>>, 2) : n \in 1..2}
    [] Group = "subj" -> {[Pipe(<<N("subj", 1, <<>>)>>, 0) EXCEPT !.sjs = <<[k |-> k, v |-> VInt(9)]>>] : k \in {"plain", "behavior", "replay", "async"}}
    [] Group = "conn" -> {[Pipe(<<Src(1), N("conn", 1, <<>>)>>, 1) EXCEPT !.sjs = <<[k |-> IF k = "rep" THEN "replay" ELSE "plain", v |-> VInt(0)]>>,
                                                                   !.cns = <<[k |-> k, in |-> 1, sj |-> 1]>>] : k \in {"pub", "ref", "rep"}}
    [] Group = "resub" -> {[Pipe(<<Src(1), Mk(c, <<1>>), Mk(d, <<2>>)>>, 1) EXCEPT !.srcs = <<[hot |-> 0, pol |-> 0, s |-> <<s>>]>>] :
                             c \in Chain1, d \in {<<"tap", 0>>, <<"take", 2>>, <<"scan", 0>>, <<"buffer", 2>>, <<"retry", 2>>, <<"skip", 1>>},
                             s \in {<<<<"n", VInt(1)>>, <<"n", VInt(2)>>, <<"c", VUnit>>>>, <<<<"n", VInt(2)>>, <<"e", <<10, 1, <<>>>>>>>>}}

Values == CASE Group = "unary" -> {VInt(0), VInt(1), VInt(2)}
            [] OTHER -> {VInt(1), VInt(2)}
Errs == {<<10, 1, <<>>>>}

----------------------------------------------------------------------------
VARIABLES pipe, H, hist, got, cut
vars == <<pipe, H, hist, got, cut>>

Node == pipe.nodes[pipe.top]
Events == {<<"n", v>> : v \in Values} \cup {<<"c", VUnit>>} \cup {<<"e", e>> : e \in Errs}
\* the calls that may be made next
Acts ==
  CASE Group \in {"unary", "combine", "chain"} ->
         {<<"emit", i, H.k[i], e[1], e[2]>> : i \in {i \in DOMAIN H.k : H.k[i] > 0}, e \in Events} \cup {<<"unsub", 1>>}
    [] Group = "error" ->
         {<<"emit", i, H.k[i], e[1], e[2]>> : i \in {i \in DOMAIN H.k : H.k[i] > 0}, e \in Events} \cup {<<"unsub", 1>>}
    [] Group = "subj" -> {<<"sj", 1, e[1], e[2]>> : e \in Events} \cup {<<"sub", r, 1>> : r \in {1, 2} \ DOMAIN H.root}
                         \cup {<<"unsub", r>> : r \in H.held}
    [] Group = "conn" -> {<<"emit", 1, H.k[1], e[1], e[2]>> : e \in IF H.k[1] > 0 THEN Events ELSE {}}
                         \cup {<<"sub", r, 2>> : r \in {1, 2} \ DOMAIN H.root} \cup {<<"unsub", r>> : r \in H.held}
                         \cup (IF pipe.cns[1].k = "pub" THEN (IF H.cn[1].conn = 0 THEN {<<"conn", 1>>} ELSE {<<"disc", 1>>}) ELSE {})
    [] Group = "resub" -> {<<"sub", r, pipe.top>> : r \in {1, 2, 3} \ DOMAIN H.root} \cup {<<"unsub", r>> : r \in H.held}

Heap0(p) == NewHeap(p.nodes, p.srcs, p.sjs, p.cns, <<>>)
First(p) == IF Group \in {"subj", "conn", "resub"} THEN Heap0(p) ELSE Run(Start(Heap0(p), <<"sub", 1, p.top>>))
Chs == {1, 2, 3}
Init == /\ pipe \in Pipes
        /\ H = First(pipe)
        /\ hist = <<>>
        /\ got = [r \in Chs |-> Of(H.out, r)]
        /\ cut = [r \in Chs |-> 1000000]     \* what r had received when it was unsubscribed

Next ==
  \/ /\ H.ag = <<>> /\ Len(hist) < Bound
     /\ \E a \in Acts : /\ H' = Run(Start(H, a))
                        /\ hist' = Append(hist, a)
                        /\ cut' = IF a[1] = "unsub" /\ cut[a[2]] = 1000000 THEN [cut EXCEPT ![a[2]] = Len(got[a[2]])] ELSE cut
                        /\ got' = IF H'.ag = <<>> THEN [r \in Chs |-> got[r] \o Of(H'.out, r)] ELSE got
     /\ UNCHANGED pipe
  \/ /\ H.ag # <<>>
     /\ \E G \in Choices(H) : H' = Run(G)
     /\ got' = IF H'.ag = <<>> THEN [r \in Chs |-> got[r] \o Of(H'.out, r)] ELSE got
     /\ UNCHANGED <<pipe, hist, cut>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* general properties *)
Calm == H.ag = <<>>
Strip(s) == [x \in 1..Len(s) |-> <<s[x][2], s[x][3]>>]
C01Contract == Calm => \A r \in Chs : WellFormed(got[r])
C05Silence == Calm => \A r \in Chs : cut[r] # 1000000 => Len(got[r]) = cut[r]
C05IsSub == Calm => \A r \in DOMAIN H.root \cap Chs :
              Subscribed(H, r) <=> cut[r] = 1000000 /\ (got[r] = <<>> \/ got[r][Len(got[r])][2] = "n")
C06Teardown == /\ NoOrphans(H)
               /\ Calm /\ Group \notin {"conn"} => ((\A r \in DOMAIN H.root : ~Subscribed(H, r)) => MayOpen(H) = {})
               /\ Calm /\ Group = "conn" => (pipe.cns[1].k # "pub" /\ (\A r \in DOMAIN H.root : ~Subscribed(H, r)) => MayOpen(H) = {})
               /\ \A j \in DOMAIN H.sj : Calm => \A x \in DOMAIN SjLive(H, j) : H.inst[SjLive(H, j)[x]].a
C04Payload == \A r \in Chs : \A x \in DOMAIN got[r] : got[r][x][2] = "e" => got[r][x][3] \in Errs
C13One == OneConnection(H) /\ (Group = "conn" => Cardinality(MayOpen(H)) <= 1)
Decided == Calm /\ \A c \in ConvNames : H.cv[c] = 0

----------------------------------------------------------------------------
(* definitions: what one subscriber must have received, as a function of what the sources emitted *)
\* emissions of source i up to its first terminal or the unsubscription
RECURSIVE UptoTerm(_)
UptoTerm(s) == IF s = <<>> THEN <<>> ELSE IF Head(s)[1] # "n" THEN <<Head(s)>> ELSE <<Head(s)>> \o UptoTerm(Tail(s))
RECURSIVE BeforeUnsub(_)
BeforeUnsub(h) == IF h = <<>> THEN <<>> ELSE IF Head(h)[1] = "unsub" THEN <<>> ELSE <<Head(h)>> \o BeforeUnsub(Tail(h))
Ems(h) == [x \in 1..Len(h) |-> <<h[x][4], h[x][5]>>]
OfSrc(i) == UptoTerm(Ems(SelectSeq(BeforeUnsub(hist), LAMBDA a : a[1] = "emit" /\ a[2] = i)))
Items(s) == SelectSeq(s, LAMBDA e : e[1] = "n")
Vals(s) == LET q == Items(s) IN [x \in 1..Len(q) |-> q[x][2]]
Term(s) == IF s # <<>> /\ s[Len(s)][1] # "n" THEN <<s[Len(s)]>> ELSE <<>>
Done(s) == <<"c", VUnit>>
Ns(v) == [x \in 1..Len(v) |-> <<"n", v[x]>>]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Pre(v, n) == SubSeq(v, 1, IF n > Len(v) THEN Len(v) ELSE n)
Sum(v) == LET RECURSIVE F(_) F(n) == IF n = 0 THEN 0 ELSE F(n - 1) + Num(v[n]) IN F(Len(v))
FoldN(v, n) == LET RECURSIVE F(_) F(m) == IF m = 1 THEN v[1] ELSE Fold(F(m - 1), v[m]) IN F(n)
Com == <<<<"c", VUnit>>>>
\* an operator that answers when its source completes
AtEnd(T, out) == IF T = Com THEN Ns(out) \o Com ELSE T
DefU(nd, s) ==
  LET v == Vals(s)
      T == Term(s)
      L == Len(v)
      p == nd.p
      op == nd.op
      Bad == {x \in 1..L : ~Pred(p, v[x])}
      stopAt(n) == IF L >= n THEN Ns(Pre(v, n)) \o Com ELSE Ns(v) \o T
  IN CASE op \in {"tap", "map_any"} -> s
       [] op = "start_with" -> <<<<"n", VInt(8)>>>> \o s
       [] op = "map" -> Ns([x \in 1..L |-> VInt(Num(v[x]) + p)]) \o T
       [] op = "filter" -> Ns(SelectSeq(v, LAMBDA y : Pred(p, y))) \o T
       [] op = "take" -> stopAt(p)
       [] op = "first" -> stopAt(1)
       [] op = "element_at" -> IF L >= p THEN <<<<"n", v[p]>>>> \o Com ELSE T
       [] op = "skip" -> Ns(SubSeq(v, p + 1, L)) \o T
       [] op \in {"take_last", "last"} -> LET q == IF op = "last" THEN 1 ELSE p IN AtEnd(T, IF L <= q THEN v ELSE SubSeq(v, L - q + 1, L))
       [] op = "skip_last" -> Ns(Pre(v, IF L > p THEN L - p ELSE 0)) \o T
       [] op = "take_while" -> IF Bad = {} THEN s ELSE Ns(Pre(v, Least(Bad) - 1)) \o Com
       [] op = "skip_while" -> (IF Bad = {} THEN <<>> ELSE Ns(SubSeq(v, Least(Bad), L))) \o T
       [] op = "distinct" -> LET K == {x \in 1..L : x = 1 \/ v[x] # v[x - 1]}
                                 RECURSIVE F(_) F(n) == IF n = 0 THEN <<>> ELSE F(n - 1) \o (IF n \in K THEN <<v[n]>> ELSE <<>>)
                             IN Ns(F(L)) \o T
       [] op = "scan" -> Ns([x \in 1..L |-> FoldN(v, x)]) \o T
       [] op = "reduce" -> AtEnd(T, IF L = 0 THEN <<>> ELSE <<FoldN(v, L)>>)
       [] op = "count" -> AtEnd(T, <<VInt(L)>>)
       [] op = "sum" -> AtEnd(T, IF L = 0 THEN <<>> ELSE <<VInt(Sum(v))>>)
       [] op = "sum_count" -> AtEnd(T, IF L = 0 THEN <<>> ELSE <<VList(<<VInt(Sum(v)), VInt(L)>>)>>)
       [] op \in {"min", "max"} -> AtEnd(T, IF L = 0 THEN <<>> ELSE
            <<VInt(CHOOSE m \in {Num(v[x]) : x \in 1..L} : \A x \in 1..L : IF op = "min" THEN m <= Num(v[x]) ELSE m >= Num(v[x]))>>)
       [] op = "all" -> IF Bad # {} THEN <<<<"n", VBool(FALSE)>>>> \o Com ELSE AtEnd(T, <<VBool(TRUE)>>)
       [] op = "contains" -> IF \E x \in 1..L : v[x] = VInt(p) THEN <<<<"n", VBool(TRUE)>>>> \o Com
                             ELSE IF T = <<>> THEN <<>> ELSE <<<<"n", VBool(FALSE)>>>> \o Com
       [] op = "default" -> IF L = 0 /\ T = Com THEN <<<<"n", VInt(p)>>>> \o Com ELSE s
       [] op = "ignore" -> T
       [] op = "buffer" -> LET full == L \div p
                               rest == SubSeq(v, full * p + 1, L)
                           IN Ns([x \in 1..full |-> VList(SubSeq(v, (x - 1) * p + 1, x * p))])
                              \o (IF T = Com /\ rest # <<>> THEN <<<<"n", VList(rest)>>>> ELSE <<>>) \o T
       [] op = "mat" -> Ns([x \in 1..L |-> VNext(v[x])])
                        \o (IF T = <<>> THEN <<>> ELSE IF T = Com THEN <<<<"n", VComp>>>> \o Com ELSE <<<<"n", VErr(T[1][2])>>>> \o Com)
       [] op = "demat" -> \* the inverse of mat
            LET k == {x \in 1..L : v[x][1] # 2}
                n == IF k = {} THEN L ELSE Least(k) - 1
            IN Ns([x \in 1..n |-> v[x][3][1]]) \o (IF k = {} THEN T ELSE IF v[n + 1][1] = 3 THEN <<<<"e", v[n + 1][3][1]>>>> ELSE Com)

\* a chain of single-source operators is the composition of their definitions
RECURSIVE DefChain(_, _)
DefChain(nx, s) == IF pipe.nodes[nx].op = "src" THEN s ELSE DefU(pipe.nodes[nx], DefChain(pipe.nodes[nx].in[1], s))

\* combining operators: the merged history, in order, each source up to its terminal
Both == LET h == SelectSeq(BeforeUnsub(hist), LAMBDA a : a[1] = "emit")
            ok(x) == ~ \E y \in 1..(x - 1) : h[y][2] = h[x][2] /\ h[y][4] # "n"
            RECURSIVE F(_) F(n) == IF n = 0 THEN <<>> ELSE F(n - 1) \o (IF ok(n) THEN <<<<h[n][2], h[n][4], h[n][5]>>>> ELSE <<>>)
        IN F(Len(h))
\* cut off behind the first event for which P holds
Till(s, P(_)) == LET S == {x \in DOMAIN s : P(s[x])} IN IF S = {} THEN s ELSE SubSeq(s, 1, Least(S))
AllC(s) == \A i \in {1, 2} : \E x \in DOMAIN s : s[x][1] = i /\ s[x][2] = "c"
ErrOf(s) == LET q == SelectSeq(s, LAMBDA e : e[2] = "e") IN IF q = <<>> THEN <<>> ELSE <<<<"e", q[1][3]>>>>
DefN(op) ==
  LET B == Till(Both, LAMBDA e : e[2] = "e")          \* the first error ends it
      nn(s) == LET q == SelectSeq(s, LAMBDA e : e[2] = "n") IN [x \in 1..Len(q) |-> <<"n", q[x][3]>>]
      side(i) == SelectSeq(B, LAMBDA e : e[1] = i)
      v(i) == LET q == SelectSeq(side(i), LAMBDA e : e[2] = "n") IN [x \in 1..Len(q) |-> q[x][3]]
      term == IF ErrOf(B) # <<>> THEN ErrOf(B) ELSE IF AllC(B) THEN Com ELSE <<>>
  IN CASE op = "merge" -> nn(B) \o term
       [] op = "zip" -> LET n == IF Len(v(1)) < Len(v(2)) THEN Len(v(1)) ELSE Len(v(2))
                        IN Ns([x \in 1..n |-> VList(<<v(1)[x], v(2)[x]>>)]) \o term
       [] op = "combine" ->
            LET lat(n, i) == LET q == SelectSeq(SubSeq(B, 1, n), LAMBDA e : e[1] = i /\ e[2] = "n") IN q[Len(q)][3]
                has(n, i) == \E x \in 1..n : B[x][1] = i /\ B[x][2] = "n"
                RECURSIVE F(_) F(n) == IF n = 0 THEN <<>> ELSE F(n - 1) \o
                   (IF B[n][2] = "n" /\ has(n, 1) /\ has(n, 2) THEN <<<<"n", VList(<<lat(n, 1), lat(n, 2)>>)>>>> ELSE <<>>)
            IN F(Len(B)) \o term
       [] op = "amb" -> IF Both = <<>> THEN <<>> ELSE
            LET w == Both[1][1] q == SelectSeq(Both, LAMBDA e : e[1] = w) IN [x \in 1..Len(q) |-> <<q[x][2], q[x][3]>>]
       [] op = "concat" ->
            \* source 2 counts from the moment source 1 has completed
            LET h == Both
                c == {x \in DOMAIN h : h[x][1] = 1 /\ h[x][2] = "c"}
                q == IF c = {} THEN SelectSeq(h, LAMBDA e : e[1] = 1)
                     ELSE SelectSeq(SubSeq(h, 1, Least(c) - 1), LAMBDA e : e[1] = 1)
            IN [x \in 1..Len(q) |-> <<q[x][2], q[x][3]>>] \o
               (IF c = {} THEN <<>>
                ELSE LET g == SelectSeq(hist, LAMBDA a : a[1] = "emit")
                         cc == {x \in DOMAIN g : g[x][2] = 1 /\ g[x][4] = "c"}
                         late == SelectSeq(SubSeq(BeforeUnsub(hist), Least(cc) + 1, Len(BeforeUnsub(hist))), LAMBDA a : a[1] = "emit" /\ a[2] = 2)
                     IN UptoTerm(Ems(late)))
       [] op = "seq_eq" ->
            LET a == v(1) b == v(2)
                m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                ended(i) == \E x \in DOMAIN B : B[x][1] = i /\ B[x][2] = "c"
                diff == (\E x \in 1..m : a[x] # b[x]) \/ (Len(a) > Len(b) /\ ended(2)) \/ (Len(b) > Len(a) /\ ended(1))
            IN IF ErrOf(B) # <<>> /\ ~diff THEN ErrOf(B)
               ELSE IF diff THEN <<<<"n", VBool(FALSE)>>>> \o Com
               ELSE IF ended(1) /\ ended(2) THEN <<<<"n", VBool(TRUE)>>>> \o Com ELSE <<>>
       [] op = "take_until" ->
            LET q == Till(Both, LAMBDA e : (e[1] = 2 /\ e[2] = "n") \/ (e[1] = 1 /\ e[2] # "n"))
                s == SelectSeq(q, LAMBDA e : e[1] = 1)
            IN [x \in 1..Len(s) |-> <<s[x][2], s[x][3]>>] \o (IF q # <<>> /\ q[Len(q)][1] = 2 /\ q[Len(q)][2] = "n" THEN Com ELSE <<>>)
       [] op = "skip_until" ->
            LET t == {x \in DOMAIN Both : Both[x][1] = 2 /\ Both[x][2] = "n"}
                on(x) == \E y \in t : y < x
                RECURSIVE F(_) F(n) == IF n = 0 THEN <<>> ELSE F(n - 1) \o
                   (IF Both[n][1] = 1 /\ (Both[n][2] # "n" \/ on(n)) THEN <<<<Both[n][2], Both[n][3]>>>> ELSE <<>>)
            IN F(Len(Both))
       [] op = "sample" ->
            LET q == Till(Both, LAMBDA e : e[1] = 1 /\ e[2] # "n")
                \* a trigger hands on the item that came since the last one
                last(n) == {x \in 1..(n - 1) : q[x][2] = "n" /\ \A y \in (x + 1)..(n - 1) : q[y][2] # "n"}
                RECURSIVE F(_) F(n) == IF n = 0 THEN <<>> ELSE F(n - 1) \o
                   (IF q[n][1] = 2 /\ q[n][2] = "n" /\ \E x \in last(n) : q[x][1] = 1
                    THEN <<<<"n", q[CHOOSE x \in last(n) : TRUE][3]>>>>
                    ELSE IF q[n][1] = 1 /\ q[n][2] # "n" THEN <<<<q[n][2], q[n][3]>>>> ELSE <<>>)
            IN F(Len(q))

\* retry(n): the items of every attempt; the n-th error is final (0: none is)
DefRetry(p) ==
  LET q == Ems(SelectSeq(BeforeUnsub(hist), LAMBDA a : a[1] = "emit"))
      errs(n) == Cardinality({x \in 1..n : q[x][1] = "e"})
      stop == {x \in DOMAIN q : q[x][1] = "c" \/ (q[x][1] = "e" /\ p > 0 /\ errs(x) = p)}
      r == IF stop = {} THEN q ELSE SubSeq(q, 1, Least(stop))
      fin == stop # {} /\ r[Len(r)][1] = "e"
  IN Items(r) \o (IF stop = {} THEN <<>> ELSE <<r[Len(r)]>>)

\* what observer r of a subject must have received
DefSubj(r) ==
  LET k == pipe.sjs[1].k
      at == {x \in DOMAIN hist : hist[x][1] = "sub" /\ hist[x][2] = r}
  IN IF at = {} THEN <<>> ELSE
  LET b == Least(at)
      un == {x \in DOMAIN hist : hist[x] = <<"unsub", r>> /\ x > b}
      e == IF un = {} THEN Len(hist) ELSE Least(un) - 1
      calls(x, y) == LET q == SelectSeq(SubSeq(hist, x, y), LAMBDA a : a[1] = "sj") IN [n \in 1..Len(q) |-> <<q[n][3], q[n][4]>>]
      past == UptoTerm(calls(1, b))
      fut == UptoTerm(calls(b + 1, e))
      pv == Vals(past)
      lastv(v) == IF v = <<>> THEN <<>> ELSE <<v[Len(v)]>>
  IN CASE k = "plain" -> fut
       [] k = "behavior" -> IF Term(past) # <<>> THEN Term(past)
                            ELSE Ns(IF pv = <<>> THEN <<VInt(9)>> ELSE lastv(pv)) \o fut
       [] k = "replay" -> IF Term(past) # <<>> THEN past ELSE past \o fut
       [] k = "async" -> IF Term(past) # <<>> THEN (IF Term(past) = Com THEN Ns(lastv(pv)) \o Com ELSE Term(past))
                         ELSE IF Term(fut) = Com THEN Ns(lastv(pv \o Vals(fut))) \o Com ELSE Term(fut)

\* what subscriber r of a connectable must have received: the shared source's items while both were there
DefConn(r) ==
  LET k == pipe.cns[1].k
      at == {x \in DOMAIN hist : hist[x][1] = "sub" /\ hist[x][2] = r}
  IN IF at = {} THEN <<>> ELSE
  LET b == Least(at)
      un == {x \in DOMAIN hist : hist[x] = <<"unsub", r>> /\ x > b}
      e == IF un = {} THEN Len(hist) ELSE Least(un) - 1
      on == IF k = "pub" THEN {x \in DOMAIN hist : hist[x][1] = "conn"} ELSE {x \in DOMAIN hist : hist[x][1] = "sub"}
      off == {x \in DOMAIN hist : hist[x][1] = "disc"}
      from == IF k = "rep" THEN 1 ELSE b
      lo == IF on = {} THEN Len(hist) + 1 ELSE IF Least(on) > from THEN Least(on) ELSE from
      hi == IF off = {} \/ Least(off) > e THEN e ELSE Least(off) - 1
      term == {x \in DOMAIN hist : hist[x][1] = "emit" /\ hist[x][4] # "n"}
      q == SelectSeq(SubSeq(hist, lo, hi), LAMBDA a : a[1] = "emit")
      none == k # "rep" /\ term # {} /\ Least(term) < b     \* it came after the end
  IN IF none THEN <<>> ELSE UptoTerm(Ems(q))

Alone == LET G == Run(Start(Heap0(pipe), <<"sub", 1, pipe.top>>)) IN Of(G.out, 1)
Definition ==
  Decided =>
    CASE Group \in {"unary", "chain"} -> Strip(got[1]) = DefChain(pipe.top, OfSrc(1))
      [] Group = "combine" -> Strip(got[1]) = DefN(Node.op)
      [] Group = "error" -> Node.op = "retry" /\ Len(pipe.srcs) = 1 => Strip(got[1]) = DefRetry(Node.p)
      [] Group = "subj" -> \A r \in {1, 2} : Strip(got[r]) = DefSubj(r)
      [] Group = "conn" -> \A r \in {1, 2} : Strip(got[r]) = DefConn(r)
      [] Group = "resub" -> \A r \in DOMAIN H.root \cap Chs : Strip(got[r]) = Strip(Alone)
=============================================================================
