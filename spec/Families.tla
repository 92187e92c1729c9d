------------------------------ MODULE Families ------------------------------
(* The threaded properties, each as a state machine over histories: X0(T) is the initial state, XStep(T, s, h, e)
   the set of states it may be in after event e (h: the history including e); the empty set means that no
   behaviour of the specification has this history.  T.x lists what a scenario claims to be about.           *)
EXTENDS Hist, Sched

Desc(T, f) == SelectSeq(T.x, LAMBDA d : d.f = f)
Range(s) == {s[x] : x \in DOMAIN s}
Num(v) == v[2]

----------------------------------------------------------------------------
(* PROG (C07): when nothing can move any more every call has returned and whoever is left of the library's threads
   is waiting for work or for time, not for a lock. *)
Prog0(T) == 0
ProgStep(T, s, h, e) ==
  IF Kind(e) = "end" /\ ~((\A c \in DOMAIN h.calls : Done(h.calls[c]))
                          /\ (\A c \in DOMAIN h.cbs : Done(h.cbs[c]))
                          /\ \A x \in Range(Val(e)) : x[2] \in {"cond", "sleep"} /\ IsLib(h, x[1]))
  THEN {} ELSE {s}

----------------------------------------------------------------------------
(* CONT (C01/C05/C19): one terminal; nothing for an event whose delivery began after a terminal callback, or an
   unsubscribe, returned; is_subscribed falls once and for good.  s: subscribers seen to be unsubscribed |-> when.
   Descriptor []: items reach the subscribers as they were emitted, on the thread that emits them; then an item
   whose emission was over before that of the terminal began is not delivered after the terminal, whoever does it *)
Cont0(T) == <<>>
EmKind(a) == IF a[1] = "emit" THEN a[4] ELSE a[3]
EmVal(a) == IF a[1] = "emit" THEN a[5] ELSE a[4]
Stale(h, c, x) ==
  LET I == {y \in DOMAIN h.calls : Emits(h.calls[y].a) /\ EmKind(h.calls[y].a) = "n" /\ EmVal(h.calls[y].a) = c.v}
  IN /\ c.k = "n" /\ c.em # 0 /\ h.cbs[x].em # 0 /\ Last(h.open[c.th]) = c.em
     /\ Cardinality(I) = 1
     /\ \A y \in I : Before(h.calls[y], h.calls[h.cbs[x].em])
ContStep(T, s, h, e) ==
  CASE Kind(e) = "cb" ->
         LET c == h.cbs[Len(h.cbs)]
             r == c.r
             done == {x \in Terms(h, r) : h.cbs[x].e # 0 /\ h.cbs[x].b < c.b}
         IN IF /\ Cardinality(Terms(h, r)) <= 1
               /\ c.em # 0 => /\ \A x \in done : h.cbs[x].e > h.calls[c.em].b
                              /\ ~Left(h, r, h.calls[c.em].b)
               /\ Desc(T, "CONT") # <<>> => \A x \in done : ~Stale(h, c, x)
            THEN {s} ELSE {}
    [] Kind(e) = "ret" ->
         LET c == h.calls[Arg(e)[1]]
             r == c.a[2]
         IN IF c.a[1] # "is" THEN {s}
            ELSE IF c.r = 1
            THEN IF \/ Left(h, r, c.b)
                    \/ \E x \in Terms(h, r) : h.cbs[x].e # 0 /\ h.cbs[x].e < c.b
                    \/ r \in DOMAIN s /\ s[r] < c.b
                 THEN {} ELSE {s}
            ELSE IF /\ ~Leaving(h, r) /\ Terms(h, r) = {}
                    /\ \A x \in DOMAIN h.calls : ~(h.calls[x].e = 0 \/ h.calls[x].e > c.b) \/ x = Arg(e)[1] \/ h.calls[x].a[1] = "is"
                 THEN {} ELSE {IF r \in DOMAIN s THEN s ELSE (r :> c.e) @@ s}
    [] OTHER -> {s}

----------------------------------------------------------------------------
(* SCHED (C08) *)
Schd0(T) == [q |-> [x \in {} |-> 0], lin |-> {}]

\* hidden moves: a pending post or abort takes effect, a worker takes a task, a worker leaves
SchHidden(s, h) ==
  LET Pend == {c \in DOMAIN h.calls : h.calls[c].e \in {0, h.i} /\ h.calls[c].a[1] \in {"post", "abort"} /\ c \notin s.lin
                                      /\ h.calls[c].a[2] \in DOMAIN s.q /\ s.q[h.calls[c].a[2]].kind = "new"}
  IN (UNION {LET a == h.calls[c].a IN
             {[s EXCEPT !.q[a[2]] = n, !.lin = @ \cup {c}] : n \in IF a[1] = "post" THEN Post(s.q[a[2]], a[3]) ELSE Abort(s.q[a[2]])}
             : c \in Pend})
     \cup (UNION {{[s EXCEPT !.q[x] = n] : n \in Take(s.q[x])} : x \in DOMAIN s.q})
RECURSIVE SchClose(_, _)
SchClose(S, h) == LET N == S \cup UNION {SchHidden(s, h) : s \in S} IN IF N = S THEN S ELSE SchClose(N, h)

SchVisible(T, s, h, e) ==
  LET x == Arg(e) IN
  CASE Kind(e) = "ret" ->
         LET c == h.calls[x[1]] a == c.a IN
         CASE a[1] = "qnew" -> {[s EXCEPT !.q = (a[2] :> Queue0(a[3])) @@ @]}
           [] a[1] \in {"post", "abort"} ->
                IF s.q[a[2]].kind = "new" THEN (IF x[1] \in s.lin THEN {s} ELSE {})
                ELSE IF a[1] = "post" THEN (IF a[3] \in s.q[a[2]].done THEN {s} ELSE {}) ELSE {s}
           [] OTHER -> {s}
    [] Kind(e) = "task" ->
         LET q == s.q[x[1]] IN
         IF q.kind = "new"
         THEN IF IsLib(h, Thr(e)) /\ \A y \in DOMAIN s.q : y # x[1] => s.q[y].worker # Thr(e)
              THEN {[s EXCEPT !.q[x[1]] = n] : n \in Start(q, x[2], Thr(e))} ELSE {}
         ELSE \* the default scheduler: inside the post, on the poster's thread, once
              LET o == h.open[Thr(e)] IN
              IF o # <<>> /\ h.calls[Last(o)].a[1] = "post" /\ h.calls[Last(o)].a[2] = x[1] /\ h.calls[Last(o)].a[3] = x[2]
                 /\ x[2] \notin q.done
              THEN {s} ELSE {}
    [] Kind(e) = "taske" ->
         LET q == s.q[x[1]] IN
         IF q.kind = "new" THEN {[s EXCEPT !.q[x[1]] = n] : n \in Finish(q, x[2], Thr(e))}
         ELSE {[s EXCEPT !.q[x[1]].done = @ \cup {x[2]}]}
    [] Kind(e) = "th-" /\ IsLib(h, x[1]) ->
         \* a worker nobody has seen working can be that of any queue
         UNION {{[s EXCEPT !.q[y] = [n EXCEPT !.worker = x[1]]] : n \in Leave(s.q[y])} :
                y \in {y \in DOMAIN s.q : s.q[y].kind = "new" /\ s.q[y].worker \in {-1, x[1]}}}
    [] Kind(e) = "end" -> IF \A y \in DOMAIN s.q : Quiet(s.q[y]) THEN {s} ELSE {}
    [] OTHER -> {s}
SchdStep(T, s, h, e) ==
  LET S == IF Kind(e) \in {"ret", "task", "th-", "end", "taske"} THEN SchClose({s}, h) ELSE {s}
  IN UNION {SchVisible(T, z, h, e) : z \in S}

----------------------------------------------------------------------------
(* HAND (C09): per descriptor [r, n, k, ops, dl, sw]: subscriber r sees what source n (its k-th subscription) emits
   through the pure operators ops; dl = 1: on one library thread that emits nothing of it; sw = 1: the source is
   subscribed on a library thread.  State: what has been emitted (in the order it took effect), how much of it
   has been delivered, on which thread. *)
Pd(p, n) == CASE p = 1 -> n % 2 = 0 [] p = 2 -> n < 3 [] p = 4 -> n % 3 # 0 [] OTHER -> TRUE
RECURSIVE Cut(_, _), Drop(_, _), Thru(_, _)
Cut(E, n) == IF E = <<>> THEN <<>>
             ELSE IF Head(E)[1] # "n" THEN <<Head(E)>>
             ELSE IF n = 1 THEN <<Head(E), <<"c", <<9, 0, <<>>>>>>>>
             ELSE <<Head(E)>> \o Cut(Tail(E), n - 1)
Drop(E, n) == IF n = 0 \/ E = <<>> \/ Head(E)[1] # "n" THEN E ELSE Drop(Tail(E), n - 1)
Thru(E, ops) ==
  IF ops = <<>> THEN E
  ELSE LET o == Head(ops)
           p == o[2]
       IN Thru(CASE o[1] = "map" -> [x \in DOMAIN E |-> IF E[x][1] = "n" THEN <<"n", <<0, Num(E[x][2]) + p, <<>>>>>> ELSE E[x]]
                 [] o[1] = "filter" -> SelectSeq(E, LAMBDA y : y[1] # "n" \/ Pd(p, Num(y[2])))
                 [] o[1] = "take" -> Cut(E, p)
                 [] o[1] = "skip" -> Drop(E, p)
                 [] OTHER -> E, Tail(ops))
Closed(E) == E # <<>> /\ Last(E)[1] # "n"

Hand0(T) == [x \in DOMAIN Desc(T, "HAND") |-> [E |-> <<>>, lin |-> {}, d |-> 0, w |-> -1]]
HandOne(d, s, h, e) ==
  LET Mine(c) == h.calls[c].a[1] = "emit" /\ h.calls[c].a[2] = d.n /\ h.calls[c].a[3] = d.k
      Gone(c) == Left(h, d.r, h.calls[c].b)
      Pend(z) == {c \in DOMAIN h.calls : Mine(c) /\ ~Done(h.calls[c]) /\ c \notin z.lin /\ ~Gone(c)}
      Lin(z) == IF Closed(z.E) THEN {}
                ELSE {[z EXCEPT !.E = Append(@, <<h.calls[c].a[4], h.calls[c].a[5]>>), !.lin = @ \cup {c}] : c \in Pend(z)}
      Close1(S) == S \cup UNION {Lin(z) : z \in S}
  IN CASE Kind(e) = "cb" /\ Arg(e)[1] = d.r ->
            LET c == h.cbs[Len(h.cbs)]
                Fits(z) == LET O == Thru(z.E, d.ops) IN z.d < Len(O) /\ O[z.d + 1] = <<c.k, c.v>>
                Where(z) == d.dl = 0 \/ /\ IsLib(h, c.th)
                                        /\ z.w \in {-1, c.th}
                                        /\ \A x \in DOMAIN h.calls : Mine(x) => h.calls[x].th # c.th
            IN IF Cardinality(OpenCb(h, d.r)) > 1 THEN {}
               ELSE {[z EXCEPT !.d = @ + 1, !.w = c.th] : z \in {y \in Close1(Close1({s})) : Fits(y) /\ Where(y)}}
       [] Kind(e) = "ret" /\ Mine(Arg(e)[1]) ->
            LET c == Arg(e)[1]
                \* the call is over: put it where it was still pending
                Put(z) == IF c \in z.lin \/ Gone(c) \/ h.calls[c].r = -1 \/ Closed(z.E) THEN {z}
                          ELSE {[z EXCEPT !.E = Append(@, <<h.calls[c].a[4], h.calls[c].a[5]>>), !.lin = @ \cup {c}]}
                               \cup (IF Leaving(h, d.r) \/ Closed(Thru(z.E, d.ops)) THEN {z} ELSE {})
                others(z) == UNION {Put(y) : y \in Close1({z})}
            IN others(s)
       [] Kind(e) = "src" /\ Arg(e)[1] = d.n /\ Arg(e)[2] = d.k -> IF d.sw = 0 \/ IsLib(h, Thr(e)) THEN {s} ELSE {}
       [] Kind(e) = "end" -> IF Leaving(h, d.r) \/ (s.d = Len(Thru(s.E, d.ops)) /\ SrcIx(h, d.n, d.k) # {}) THEN {s} ELSE {}
       [] OTHER -> {s}
RECURSIVE HandAll(_, _, _, _)
HandAll(D, s, h, e) ==
  IF D = <<>> THEN {<<>>}
  ELSE LET A == HandOne(Head(D), Head(s), h, e) IN
       IF A = {} THEN {} ELSE {<<a>> \o b : a \in A, b \in HandAll(Tail(D), Tail(s), h, e)}
HandStep(T, s, h, e) == HandAll(Desc(T, "HAND"), s, h, e)

----------------------------------------------------------------------------
(* COMB (C11): descriptor [r, kind, lim, err, sh, grp]: r is fed by the sources of grp (a sequence of groups)
   through a combining operator; items are numbered so that no two are equal; sh is added to each on its way;
   lim > 0: a take(lim) below; err = 1: some source fails; k > 0: the sources' k-th subscriptions only.  State: which emissions have been delivered. *)
Comb0(T) == [x \in DOMAIN Desc(T, "COMB") |-> [del |-> {}, g |-> DOMAIN Desc(T, "COMB")[x].grp, tup |-> {}]]
CombOne(d, s, h, e) ==
  LET Srcs == UNION {Range(d.grp[x]) : x \in DOMAIN d.grp}
      Em(c) == h.calls[c].a[1] = "emit" /\ h.calls[c].a[2] \in Srcs /\ d.k \in {0, h.calls[c].a[3]}
      Items == {c \in DOMAIN h.calls : Em(c) /\ h.calls[c].a[4] = "n"}
      Same(c, x) == h.calls[c].a[2] = h.calls[x].a[2] /\ h.calls[c].a[3] = h.calls[x].a[3]
      Of(v) == {c \in Items : Num(h.calls[c].a[5]) + d.sh = v}
      GrpItems(g) == {c \in Items : h.calls[c].a[2] \in Range(d.grp[g])}
      \* c comes next among the items of its own source
      InTurn(c) == c \notin s.del /\ \A x \in Items : Same(c, x) /\ x < c => x \in s.del
      Nth(n, i) == {c \in Items : h.calls[c].a[2] = n /\ Cardinality({x \in Items : h.calls[x].a[2] = n /\ x < c}) = i - 1}
      Cnt(n) == Cardinality({c \in Items : h.calls[c].a[2] = n})
      MinCnt == CHOOSE m \in {Cnt(d.grp[g][1]) : g \in DOMAIN d.grp} : \A g \in DOMAIN d.grp : m <= Cnt(d.grp[g][1])
      AllIn == IF d.kind = "zip" THEN s.tup = 1..MinCnt ELSE s.del = Items
      T1 == Terms(h, d.r)
  IN CASE Kind(e) = "cb" /\ Arg(e)[1] = d.r ->
            LET c == h.cbs[Len(h.cbs)]
            IN IF c.k = "n"
               THEN IF d.lim > 0 /\ Cardinality({x \in CbsOf(h, d.r) : h.cbs[x].k = "n"}) > d.lim THEN {}
                    ELSE IF d.kind = "zip"
                    THEN LET I == {i \in 1..MinCnt : i \notin s.tup
                                       /\ \A g \in DOMAIN d.grp : \A x \in Nth(d.grp[g][1], i) : Num(h.calls[x].a[5]) = Num(c.v[3][g])}
                         IN IF Len(c.v[3]) = Len(d.grp) /\ I # {} THEN {[s EXCEPT !.tup = @ \cup I]} ELSE {}
                    ELSE LET X == {x \in Of(Num(c.v)) : InTurn(x)}
                             G == IF d.kind # "amb" THEN s.g ELSE {g \in s.g : X \subseteq GrpItems(g)}
                         IN IF X # {} /\ G # {} THEN {[s EXCEPT !.del = @ \cup X, !.g = G]} ELSE {}
               ELSE IF Cardinality(T1) > 1 THEN {}
               ELSE IF d.kind = "amb" /\ d.lim = 0
               THEN LET G == {g \in s.g : /\ \/ GrpItems(g) = s.del
                                             \* a merge that fails may drop what another input was just emitting
                                             \/ c.k = "e" /\ Len(d.grp[g]) > 1 /\ s.del \subseteq GrpItems(g)
                                          /\ \E x \in DOMAIN h.calls : Em(x) /\ h.calls[x].a[2] \in Range(d.grp[g])
                                                                         /\ h.calls[x].a[4] = c.k}
                    IN IF G = {} THEN {} ELSE {[s EXCEPT !.g = G]}
               ELSE IF d.lim > 0 \/ d.err = 1 THEN {s}
               ELSE IF c.k = "c" /\ AllIn /\ Cardinality(OpenCb(h, d.r)) = 1 THEN {s} ELSE {}
       [] Kind(e) = "end" ->
            IF Leaving(h, d.r) THEN {s}
            ELSE IF Cardinality(T1) # 1 THEN {}
            ELSE IF d.kind = "amb" \/ d.lim > 0 \/ d.err = 1 THEN {s}
            ELSE IF AllIn /\ \A x \in T1 : h.cbs[x].k = "c" THEN {s} ELSE {}
       [] OTHER -> {s}
CombStep(T, s, h, e) ==
  LET D == Desc(T, "COMB") IN
  IF \E x \in DOMAIN D : CombOne(D[x], s[x], h, e) = {} THEN {}
  ELSE {[x \in DOMAIN D |-> CHOOSE z \in CombOne(D[x], s[x], h, e) : TRUE]}

----------------------------------------------------------------------------
(* MSUB (C12): descriptor [j, kind, init, rs]: subject j of kind plain / behavior / replay with initial value init
   is observed directly by rs; values pushed are distinct.  State: per observer the pushes delivered so far (0: the
   initial value), and the common order in which late subscribers of a replay subject see the pushes. *)
Msub0(T) == [x \in DOMAIN Desc(T, "MSUB") |-> [del |-> [r \in Range(Desc(T, "MSUB")[x].rs) |-> <<>>], ord |-> <<>>]]
MsubOne(d, s, h, e) ==
  LET Push == {c \in DOMAIN h.calls : h.calls[c].a[1] = "sj" /\ h.calls[c].a[2] = d.j /\ h.calls[c].a[3] = "n"}
      Shut == {c \in DOMAIN h.calls : h.calls[c].a[1] = "sj" /\ h.calls[c].a[2] = d.j /\ h.calls[c].a[3] # "n"}
      B(x, y) == Before(h.calls[x], h.calls[y])
      Sub(r) == {c \in DOMAIN h.calls : h.calls[c].a[1] \in {"sub", "subu"} /\ h.calls[c].a[2] = r}
      TheSub(r) == CHOOSE c \in Sub(r) : TRUE
      Late(r) == \E c \in Push : c < TheSub(r)
      Fst(r) == s.del[r][1]
      \* a push that r must not miss
      Must(r, c) == /\ \A x \in Shut : B(c, x)
                    /\ CASE d.kind = "replay" -> TRUE
                         [] d.kind = "behavior" /\ s.del[r] # <<>> /\ Fst(r) = 0 -> TRUE
                         [] d.kind = "behavior" /\ s.del[r] # <<>> -> Fst(r) = c \/ B(Fst(r), c) \/ B(TheSub(r), c)
                         [] OTHER -> B(TheSub(r), c)
      Prod(c) == h.calls[c].th
      InTurn(r, c) ==
        LET P == {x \in Push : Prod(x) = Prod(c)}
            D == {x \in Range(s.del[r]) : x # 0 /\ Prod(x) = Prod(c)}
            Prev == {x \in P : x < c}
        IN IF D = {} THEN \A x \in Prev : ~Must(r, x)
           ELSE (CHOOSE x \in D : \A y \in D : y <= x) = (CHOOSE x \in Prev \cup {-1} : \A y \in Prev : y <= x)
  IN CASE Kind(e) = "cb" /\ Arg(e)[1] \in Range(d.rs) /\ Val(e)[1] = "n" ->
            LET r == Arg(e)[1]
                v == Num(Val(e)[2])
                C == {x \in Push : Num(h.calls[x].a[4]) = v}
            IN IF d.kind = "behavior" /\ C = {} /\ v = d.init /\ s.del[r] = <<>>
               THEN {[s EXCEPT !.del[r] = <<0>>]}
               ELSE IF C = {} THEN {}
               ELSE LET c == CHOOSE x \in C : TRUE
                        n == Len(s.del[r]) + 1
                    IN IF \/ c \in Range(s.del[r])
                          \/ Left(h, r, h.calls[c].b)
                          \/ d.kind = "plain" /\ B(c, TheSub(r))
                          \/ d.kind = "behavior" /\ n > 1 /\ Fst(r) # 0 /\ B(c, Fst(r))
                          \/ ~(d.kind = "behavior" /\ n = 1) /\ ~InTurn(r, c)
                       THEN {}
                       ELSE IF d.kind = "replay" /\ Late(r)
                       THEN IF n <= Len(s.ord)
                            THEN IF s.ord[n] = c THEN {[s EXCEPT !.del[r] = Append(@, c)]} ELSE {}
                            ELSE IF \E x \in Push : x \notin Range(s.ord) /\ B(x, c) THEN {}
                                 ELSE {[s EXCEPT !.del[r] = Append(@, c), !.ord = Append(@, c)]}
                       ELSE {[s EXCEPT !.del[r] = Append(@, c)]}
       [] Kind(e) = "end" ->
            IF \A r \in Range(d.rs) :
                 \/ Sub(r) = {} \/ Leaving(h, r)
                 \/ /\ \A c \in Push : Must(r, c) => c \in Range(s.del[r])
                    /\ d.kind = "behavior" /\ (\A x \in Shut : B(TheSub(r), x)) => s.del[r] # <<>>
                    \* the terminal, too, reaches everybody who was there, and a latecomer of those that remember it
                    /\ Shut # {} /\ (CASE d.kind = "plain" -> \A x \in Shut : B(TheSub(r), x)
                                      [] d.kind = "behavior" -> \A x \in Shut : \A c \in Push : B(c, x)
                                      [] OTHER -> TRUE)
                       => Cardinality(Terms(h, r)) = 1
            THEN {s} ELSE {}
       [] OTHER -> {s}
MsubStep(T, s, h, e) ==
  LET D == Desc(T, "MSUB") IN
  IF \E x \in DOMAIN D : MsubOne(D[x], s[x], h, e) = {} THEN {}
  ELSE {[x \in DOMAIN D |-> CHOOSE z \in MsubOne(D[x], s[x], h, e) : TRUE]}

----------------------------------------------------------------------------
(* WORK (C15): descriptor [p]: p is the longest period of a timer in the scenario.  A library thread is gone at
   most p milliseconds after all the subscriptions it works for have ended. *)
Work0(T) == 0
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
EndTimes(h, r) == {h.cbs[x].me : x \in {y \in Terms(h, r) : Done(h.cbs[y])}}
                  \cup {h.calls[c].me : c \in {c \in Unsubs(h, r) : Done(h.calls[c]) /\ h.calls[c].r = 0}}
Subscribers(h) == {h.calls[c].a[2] : c \in {x \in DOMAIN h.calls : h.calls[x].a[1] \in {"sub", "subu"}}}
WorkStep(T, s, h, e) ==
  LET D == Desc(T, "WORK") IN
  IF D = <<>> THEN {s}
  ELSE LET p == D[1].p
           Own(l) == IF l.own = {} THEN Subscribers(h) ELSE l.own
           Over(l) == \A r \in Own(l) : EndTimes(h, r) # {}
           Since(l) == Max({l.ms} \cup {Min(EndTimes(h, r)) : r \in Own(l)})
           Late(l) == Over(l) /\ (Kind(e) = "end" \/ Ms(e) > Since(l) + p)
       IN IF \E x \in DOMAIN h.libs : h.libs[x].dead = -1 /\ Late(h.libs[x]) THEN {}
          ELSE IF Kind(e) = "th-" /\ \E x \in DOMAIN h.libs : h.libs[x].t = Arg(e)[1] /\ Late(h.libs[x]) THEN {}
          ELSE {s}

----------------------------------------------------------------------------
(* CLCK (C16): descriptor [op, r, d, n, k, lim]: what subscriber r sees, and when, of operator op with duration d
   over source n (its k-th subscription); lim > 0: a take(lim) below.  s: per descriptor [cnt: items delivered,
   ix: call delivered last, last, prev: when the last item and the one before came (-1: none),
   le, pe: when the subscriber was done with them (-1: not yet; time counts from anywhere between the two)]. *)
Clck0(T) == [x \in DOMAIN Desc(T, "CLCK") |-> [cnt |-> 0, ix |-> 0, last |-> -1, prev |-> -1, le |-> -1, pe |-> -1, got |-> {}]]
ClckOne(d, s, h, e) ==
  LET Sub == CHOOSE c \in DOMAIN h.calls : h.calls[c].a[1] \in {"sub", "subu"} /\ h.calls[c].a[2] = d.r
      t0 == h.calls[Sub].ms
      Mine(c) == h.calls[c].a[1] = "emit" /\ h.calls[c].a[2] = d.n /\ h.calls[c].a[3] = d.k
      Ems == {c \in DOMAIN h.calls : Mine(c)}
      Items == {c \in Ems : h.calls[c].a[4] = "n"}
      Nth(i) == CHOOSE c \in Items : Cardinality({x \in Items : x <= c}) = i
      Find(v) == {c \in Items : Num(h.calls[c].a[5]) = Num(v)}
      LeftMs == Min({h.calls[c].ms : c \in Unsubs(h, d.r)})
      isCb == Kind(e) = "cb" /\ Arg(e)[1] = d.r
      k == Val(e)[1]
      v == Val(e)[2]
      now == Ms(e)
      Source(q) == \E c \in Ems : h.calls[c].a[4] = q /\ (q = "e" => h.calls[c].a[5] = v)
      Full == d.lim > 0 /\ s.cnt = d.lim
      InOrder == {c \in Find(v) : c > s.ix}
      \* items that came and were neither delivered nor cut off
      Pass(c) == [s EXCEPT !.cnt = @ + 1, !.ix = c, !.last = h.calls[c].ms, !.prev = s.last, !.le = -1, !.pe = s.le]
      \* the time of the last item, or of the one before it, may be up at this very moment
      Due(a, b) == a # -1 /\ now >= a + d.d /\ (b = -1 \/ now <= b + d.d)
  IN CASE d.op = "interval" ->
            IF isCb THEN IF k = "n" THEN (IF Num(v) = s.cnt /\ now = t0 + (s.cnt + 1) * d.d /\ ~Full
                                             /\ (Leaving(h, d.r) => now <= LeftMs)
                                          THEN {[s EXCEPT !.cnt = @ + 1]} ELSE {})
                         ELSE IF k = "c" /\ Full THEN {s} ELSE {}
            ELSE IF Kind(e) = "end"
            THEN LET until == IF Leaving(h, d.r) THEN LeftMs ELSE now
                     least == (until - t0 - 1) \div d.d
                 IN IF s.cnt >= (IF d.lim > 0 /\ least > d.lim THEN d.lim ELSE least) /\ (Full => Terms(h, d.r) # {} \/ (Leaving(h, d.r) /\ LeftMs <= t0 + d.lim * d.d))
                    THEN {s} ELSE {}
            ELSE {s}
       [] d.op = "timer" ->
            IF isCb THEN IF /\ now = t0 + d.d
                            /\ IF k = "n" THEN s.cnt = 0 ELSE k = "c" /\ s.cnt = 1
                         THEN {[s EXCEPT !.cnt = @ + 1]} ELSE {}
            ELSE IF Kind(e) = "end" THEN IF s.cnt = 2 \/ Leaving(h, d.r) \/ now <= t0 + d.d THEN {s} ELSE {}
            ELSE {s}
       [] d.op = "delay" ->
            IF isCb THEN IF k = "n"
                         THEN LET X == {c \in Find(v) : /\ c \notin s.got /\ h.calls[c].ms + d.d = now
                                                        /\ \A x \in Items : x < c /\ h.calls[x].th = h.calls[c].th => x \in s.got}
                              IN IF X = {} THEN {} ELSE {[s EXCEPT !.got = @ \cup X]}
                         ELSE IF Source(k) /\ \A c \in Items : \E x \in Ems : h.calls[x].a[4] = k /\ (x < c \/ c \in s.got)
                         THEN {s} ELSE {}
            ELSE IF Kind(e) = "end" THEN IF Leaving(h, d.r) \/ Items \ s.got = {}
                                            \/ \A c \in Items \ s.got : \E x \in Ems : x < c /\ h.calls[x].a[4] # "n"
                                         THEN {s} ELSE {}
            ELSE {s}
       [] d.op = "timeout" ->
            LET over == Terms(h, d.r) # {} \/ Leaving(h, d.r) IN
            IF isCb THEN CASE k = "n" -> {Pass(c) : c \in {c \in InOrder : h.calls[c].ms = now
                                                                /\ ~ \E x \in Items : s.ix < x /\ x < c
                                                                /\ (s.le # -1 => now <= s.le + d.d)}}
                           [] k = "e" /\ v = <<14, 1, <<>>>> -> IF Due(s.last, s.le)
                                                          \* a tie: the item came at the very moment its predecessor's time was up
                                                          \/ (s.last = now /\ Due(s.prev, s.pe))
                                                       THEN {s} ELSE {}
                           [] OTHER -> IF Source(k) THEN {s} ELSE {}
            ELSE IF ~over /\ s.le # -1 /\ now > s.le + d.d THEN {}
            ELSE IF Kind(e) = "cbe" /\ Arg(e)[1] = d.r THEN {[s EXCEPT !.le = now]}
            ELSE IF Kind(e) = "ret" /\ Mine(Arg(e)[1]) /\ h.calls[Arg(e)[1]].r # -1
            THEN LET c == Arg(e)[1]
                     at == h.calls[c].ms
                     shut == \E x \in Ems : x < c /\ h.calls[x].a[4] # "n"
                 IN IF over \/ shut \/ (s.last # -1 /\ at >= s.last + d.d /\ (s.le = -1 \/ at <= s.le + d.d)) THEN {s}
                    ELSE IF h.calls[c].a[4] = "n" /\ s.ix >= c THEN {s} ELSE {}
            ELSE {s}
       [] d.op = "sub" -> \* sample, debounce: only what was emitted, in that order, none twice
            IF isCb THEN IF k = "n" THEN {Pass(c) : c \in InOrder} ELSE {s} ELSE {s}
       [] d.op = "subp" -> \* the same for a sample whose trigger fires on several threads: its deliveries may overlap
            IF isCb /\ k = "n"
            THEN LET me == h.cbs[Len(h.cbs)]
                     Later(c) == {x \in CbsOf(h, d.r) : h.cbs[x].k = "n" /\ x < Len(h.cbs) /\ \E y \in Find(h.cbs[x].v) : y > c}
                 IN {[s EXCEPT !.got = @ \cup {c}] :
                        c \in {c \in Find(v) \ s.got : \A x \in Later(c) :
                                  me.em # 0 /\ h.cbs[x].em # 0 /\ ~Before(h.calls[h.cbs[x].em], h.calls[me.em])}}
            ELSE {s}
       [] d.op = "tint" -> \* time_interval: the time between consecutive items
            IF isCb THEN IF k # "n" THEN {s}
                         ELSE LET n == s.cnt + 1 IN
                              IF \/ Cardinality(Items) >= n + 1 /\ Num(v) = h.calls[Nth(n + 1)].ms - h.calls[Nth(n)].ms
                                 \/ Cardinality(Items) = n /\ Source("c") /\ Num(v) = now - h.calls[Nth(n)].ms
                              THEN {[s EXCEPT !.cnt = @ + 1]} ELSE {}
            ELSE {s}
       [] d.op = "stamp" ->
            IF isCb THEN IF k # "n" THEN {s}
                         ELSE IF v[3][1] = <<0, now, <<>>>> /\ \E c \in Items : h.calls[c].ms = now /\ h.calls[c].a[5] = v[3][2]
                         THEN {[s EXCEPT !.cnt = @ + 1]} ELSE {}
            ELSE IF Kind(e) = "end" THEN IF s.cnt = Cardinality(Items) \/ Leaving(h, d.r) THEN {s} ELSE {} ELSE {s}
ClckStep(T, s, h, e) ==
  LET D == Desc(T, "CLCK")
      R == [x \in DOMAIN D |-> ClckOne(D[x], s[x], h, e)] IN
  IF \E x \in DOMAIN D : R[x] = {} THEN {} ELSE {[x \in DOMAIN D |-> CHOOSE z \in R[x] : TRUE]}

----------------------------------------------------------------------------
(* FUTR (C18): descriptor [fu, n, k, ops]: future fu collects what source n (its k-th subscription) emits through
   ops.  s: per descriptor [poll: begin of the last poll, w: its waker, st: 0 none / 1 pending / 2 ready, woke]. *)
Futr0(T) == [x \in DOMAIN Desc(T, "FUTR") |-> [b |-> 0, w |-> 0, st |-> 0, woke |-> {}]]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == Min(S) IN <<x>> \o SeqOf(S \ {x})
RECURSIVE Upto1(_)
Upto1(E) == IF E = <<>> THEN <<>> ELSE IF Head(E)[1] # "n" THEN <<Head(E)>> ELSE <<Head(E)>> \o Upto1(Tail(E))
FutrOne(d, s, h, e) ==
  LET Ems(P(_)) == LET Q == SeqOf({c \in DOMAIN h.calls : h.calls[c].a[1] = "emit" /\ h.calls[c].a[2] = d.n
                                                           /\ h.calls[c].a[3] = d.k /\ P(h.calls[c])})
                   IN Thru(Upto1([x \in DOMAIN Q |-> <<h.calls[Q[x]].a[4], h.calls[Q[x]].a[5]>>]), d.ops)
      Begun == Ems(LAMBDA c : TRUE)
      DoneBy(b) == Ems(LAMBDA c : c.e # 0 /\ c.e < b)
      Vals(E) == [x \in 1..(Len(E) - 1) |-> E[x][2]]
      mine == Arg(e)[1] = d.fu
  IN CASE Kind(e) = "poll" /\ mine -> {[s EXCEPT !.b = h.i, !.w = Arg(e)[2]]}
       [] Kind(e) = "wake" /\ mine -> {[s EXCEPT !.woke = @ \cup {Arg(e)[2]}]}
       [] Kind(e) = "polle" /\ mine ->
            IF Arg(e)[3] = 0
            THEN IF Closed(DoneBy(s.b)) THEN {} ELSE {[s EXCEPT !.st = 1]}
            ELSE IF /\ Closed(Begun)
                    /\ IF Last(Begun)[1] = "c" THEN Val(e) = <<"c", Vals(Begun)>> ELSE Val(e) = <<"e", Last(Begun)[2]>>
                 THEN {[s EXCEPT !.st = 2]} ELSE {}
       [] Kind(e) = "end" -> IF s.st = 1 /\ Closed(DoneBy(h.i)) /\ s.w \notin s.woke THEN {} ELSE {s}
       [] OTHER -> {s}
FutrStep(T, s, h, e) ==
  LET D == Desc(T, "FUTR")
      R == [x \in DOMAIN D |-> FutrOne(D[x], s[x], h, e)] IN
  IF \E x \in DOMAIN D : R[x] = {} THEN {} ELSE {[x \in DOMAIN D |-> CHOOSE z \in R[x] : TRUE]}

----------------------------------------------------------------------------
(* OWNS (C17): when every subscription has ended, no library thread is left and the program has dropped what it held,
   the library owns nothing of the program's. *)
Owns0(T) == FALSE
OwnsStep(T, s, h, e) ==
  CASE Kind(e) = "end" -> {Val(e) = <<>> /\ \A r \in Subscribers(h) : EndTimes(h, r) # {}}
    [] Kind(e) = "lv" -> IF s /\ Arg(e) # <<0, 0, 0>> THEN {} ELSE {s}
    [] OTHER -> {s}

----------------------------------------------------------------------------
(* TEAR (C06): a probe (made when nothing moves) tells which source subscriptions still see is_subscribed: one made
   on behalf of subscribers that have all ended must not. *)
Tear0(T) == 0
TearStep(T, s, h, e) ==
  IF Kind(e) = "probe"
     /\ \E x \in Range(Val(e)) : /\ x[3] = 1
                                /\ \A y \in SrcIx(h, x[1], x[2]) :
                                     LET own == h.srcs[y].own
                                     IN \A r \in (IF own = {} THEN Subscribers(h) ELSE own) : Ended(h, r)
  THEN {} ELSE {s}

----------------------------------------------------------------------------
(* CONN (C13): descriptor [kind, n, rs, anchor]: rs subscribe to a publish / ref_count / replay of source n, which emits
   on one thread; anchor = 1: somebody stays from before the first emission to the end.  Nothing is demanded of items
   of a later connection (n's second subscription), only that there was a reason to make it. *)
Conn0(T) == [x \in DOMAIN Desc(T, "CONN") |-> [r \in Range(Desc(T, "CONN")[x].rs) |-> <<>>]]
ConnOne(d, s, h, e) ==
  LET B(x, y) == Before(h.calls[x], h.calls[y])
      Em(k) == {c \in DOMAIN h.calls : h.calls[c].a[1] = "emit" /\ h.calls[c].a[2] = d.n /\ h.calls[c].a[3] = k}
      Push == {c \in Em(1) : h.calls[c].a[4] = "n"}
      Shut == {c \in Em(1) : h.calls[c].a[4] # "n"}
      Nr(c) == Cardinality({x \in Push : x <= c})
      Sub(r) == {c \in DOMAIN h.calls : h.calls[c].a[1] \in {"sub", "subu"} /\ h.calls[c].a[2] = r}
      Calls(q) == {c \in DOMAIN h.calls : h.calls[c].a[1] = q}
      Src(k) == h.srcs[CHOOSE x \in SrcIx(h, d.n, k) : TRUE]
      Starter(r, k) == SrcIx(h, d.n, k) # {} /\ r \in Src(k).own
      \* r was there when the k-th subscription of the source was made and has been ever since
      Present(r, k) == /\ Terms(h, r) = {} /\ ~Leaving(h, r)
                       /\ Starter(r, k) \/ \E c \in Sub(r) : Done(h.calls[c]) /\ h.calls[c].e < Src(k).b
      Stable == d.anchor = 1 \/ \A r \in Range(d.rs) : ~Leaving(h, r)
      Must(r, c) == /\ Stable /\ h.calls[c].r # -1
                    /\ \A x \in Calls("disc") : B(c, x)
                    /\ \/ d.kind = "rep"
                       \/ d.kind = "ref" /\ Starter(r, 1)
                       \/ \E x \in Sub(r) : B(x, c)
  IN CASE Kind(e) = "src" /\ Arg(e)[1] = d.n ->
            LET k == Arg(e)[2] IN
            IF d.kind = "pub" THEN IF k <= Cardinality(Calls("conn")) THEN {s} ELSE {}
            ELSE IF k > 1 /\ Shut = {} /\ \E r \in Range(d.rs) : Present(r, k - 1) THEN {} ELSE {s}
       [] Kind(e) = "cb" /\ Arg(e)[1] \in Range(d.rs) /\ Val(e)[1] = "n" ->
            LET r == Arg(e)[1]
                C == {x \in Push : Num(h.calls[x].a[5]) = Num(Val(e)[2])}
            IN IF C = {} THEN IF SrcIx(h, d.n, 2) # {} THEN {s} ELSE {}
               ELSE LET c == CHOOSE x \in C : TRUE IN
                    IF \/ Left(h, r, h.calls[c].b)
                       \/ s[r] # <<>> /\ Nr(c) # Nr(Last(s[r])) + 1
                       \/ s[r] = <<>> /\ d.kind = "rep" /\ Nr(c) # 1
                       \/ s[r] = <<>> /\ \E x \in Push : x < c /\ Must(r, x)
                       \/ d.kind # "rep" /\ \A x \in Sub(r) : B(c, x)
                    THEN {} ELSE {[s EXCEPT ![r] = Append(@, c)]}
       [] Kind(e) = "probe" ->
            LET open == \E x \in Range(Val(e)) : x[1] = d.n /\ x[3] = 1
                over == IF d.kind = "pub" THEN \E x \in Calls("disc") : Done(h.calls[x]) /\ h.calls[x].r = 0
                        ELSE \A r \in Subscribers(h) : Ended(h, r)
                going == /\ d.anchor = 1 /\ Shut = {} /\ SrcIx(h, d.n, 1) # {} /\ Calls("disc") = {}
                         /\ \E r \in Range(d.rs) : Present(r, 1)
            IN IF (over /\ open) \/ (going /\ ~open) THEN {} ELSE {s}
       [] Kind(e) = "end" ->
            IF \A r \in Range(d.rs) :
                 \/ Sub(r) = {} \/ Leaving(h, r)
                 \/ /\ \A c \in Push : Must(r, c) => c \in Range(s[r])
                    /\ (\E c \in Shut : Must(r, c)) => Cardinality(Terms(h, r)) = 1
            THEN {s} ELSE {}
       [] OTHER -> {s}
ConnStep(T, s, h, e) ==
  LET D == Desc(T, "CONN")
      R == [x \in DOMAIN D |-> ConnOne(D[x], s[x], h, e)] IN
  IF \E x \in DOMAIN D : R[x] = {} THEN {} ELSE {[x \in DOMAIN D |-> CHOOSE z \in R[x] : TRUE]}

----------------------------------------------------------------------------
FamilyNames == {"PROG", "CONT", "SCHD", "HAND", "COMB", "MSUB", "WORK", "CLCK", "FUTR", "OWNS", "TEAR", "CONN"}
FamInit(f, T) == CASE f = "PROG" -> Prog0(T) [] f = "CONT" -> Cont0(T) [] f = "SCHD" -> Schd0(T) [] f = "HAND" -> Hand0(T)
                   [] f = "COMB" -> Comb0(T) [] f = "MSUB" -> Msub0(T) [] f = "WORK" -> Work0(T)
                   [] f = "CLCK" -> Clck0(T) [] f = "FUTR" -> Futr0(T) [] f = "OWNS" -> Owns0(T) [] f = "TEAR" -> Tear0(T)
                   [] f = "CONN" -> Conn0(T)
FamStep(f, T, s, h, e) ==
  CASE f = "PROG" -> ProgStep(T, s, h, e) [] f = "CONT" -> ContStep(T, s, h, e) [] f = "SCHD" -> SchdStep(T, s, h, e)
    [] f = "HAND" -> HandStep(T, s, h, e) [] f = "COMB" -> CombStep(T, s, h, e) [] f = "MSUB" -> MsubStep(T, s, h, e)
    [] f = "WORK" -> WorkStep(T, s, h, e) [] f = "CLCK" -> ClckStep(T, s, h, e) [] f = "FUTR" -> FutrStep(T, s, h, e)
    [] f = "OWNS" -> OwnsStep(T, s, h, e) [] f = "TEAR" -> TearStep(T, s, h, e)
    [] f = "CONN" -> ConnStep(T, s, h, e)
=============================================================================
