------------------------------ MODULE TracePipe ------------------------------
(***************************************************************************)
(* Accepts a recorded run of the real library iff RxPipe has a behaviour   *)
(* with the same calls and the same observations after every call.         *)
(***************************************************************************)
EXTENDS RxPipe, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

VARIABLES t, l, H

Step(tt, ll) == Trace[tt].steps[ll]

Chans(o) == { o[i][1] : i \in 1..Len(o) }
OutOk(G, s) == \A ch \in DOMAIN G.out \cup Chans(s.out) : Of(G.out, ch) = Chan(s.out, ch)
\* (prunes the search) what has been delivered so far in this call is a prefix of what was recorded
OutPrefix(G, s) == \A ch \in DOMAIN G.out :
   LET r == Chan(s.out, ch) IN Len(G.out[ch]) <= Len(r) /\ SubSeq(r, 1, Len(G.out[ch])) = G.out[ch]
IsOk(G, s) == \A i \in 1..Len(s.is) : (s.is[i][2] = 1) = Subscribed(G, s.is[i][1])
PrOk(G, s) == LET P == { <<s.pr[i][1], s.pr[i][2]>> : i \in 1..Len(s.pr) } IN
              MustOpen(G) \subseteq P /\ P \subseteq MayOpen(G)
CfOk(G, s) == /\ Len(G.cf) = Len(s.cf)
              /\ \A i \in 1..Len(s.cf) :
                   /\ \A x \in 1..3 : G.cf[i][x] = s.cf[i][x]
                   /\ G.cf[i][4] \in {2, s.cf[i][4]}
AllEnded(G) == \A i \in DOMAIN G.inst : ~G.inst[i].a
\* what the library still owns after the user dropped everything: items, operator closures, callbacks
LvOk(G, s) == s.act[1] = "end" /\ AllEnded(G) => s.lv = <<0, 0, 0>>
\* measurements carrying the same label are equal
LkOk(tt, ll) == LET s == Step(tt, ll) IN
  s.act[1] = "lk" => (\A x \in 1..ll : Step(tt, x).act = s.act => (Step(tt, x).lk = s.lk))

RECURSIVE Upto(_, _, _), EvCount(_, _, _)
\* what channel ch received in steps 1..ll
Upto(tt, ll, ch) == IF ll = 0 THEN <<>> ELSE Upto(tt, ll - 1, ch) \o Chan(Step(tt, ll).out, ch)
EvCount(tt, ll, ch) == Len(Upto(tt, ll, ch))
\* every subscriber's whole history is next* followed by at most one terminal
WfOk(tt, ll) == \A ch \in { c \in Chans(Step(tt, ll).out) : c < 100000 } : WellFormed(Upto(tt, ll, ch))
\* nothing arrives once unsubscribe() has returned
SubStep(tt, r) == { x \in DOMAIN Trace[tt].steps : Step(tt, x).act[1] \in {"sub", "subu"} /\ Step(tt, x).act[2] = r }
SilOk(tt, ll) ==
  /\ \A ch \in Chans(Step(tt, ll).out) :
        ~ \E x \in 1..(ll - 1) : /\ Step(tt, x).act[1] \in {"unsub", "drop"}
                                /\ Step(tt, x).act[2] = ch
                                /\ \E y \in SubStep(tt, ch) : y < x /\ (Step(tt, x).act[1] = "drop" => Step(tt, y).act[1] = "subu")
  /\ \A i \in 1..Len(Trace[tt].reacts) :
        LET q == Trace[tt].reacts[i] IN
        (q.act = <<"unsub", q.r>> /\ \A j \in 1..(i - 1) : ~(Trace[tt].reacts[j].r = q.r /\ Trace[tt].reacts[j].m = q.m)) =>
          (\A y \in SubStep(tt, q.r) : y <= ll /\ EvCount(tt, y, q.r) < q.m => EvCount(tt, ll, q.r) <= q.m)

\* which observations are compared (an environment variable each; all of them if ALL is set)
On(m) == m \in DOMAIN IOEnv
Match(G, tt, ll) ==
  LET s == Step(tt, ll) IN
  /\ s.bad = ""
  /\ On("M_OUT") => OutOk(G, s)
  /\ On("M_IS") => IsOk(G, s)
  /\ On("M_PR") => (s.act[1] # "end" => PrOk(G, s))
  /\ On("M_CF") => CfOk(G, s)
  /\ On("M_LV") => LvOk(G, s)
  /\ On("M_LK") => LkOk(tt, ll)
  /\ On("M_WF") => WfOk(tt, ll)
  /\ On("M_SIL") => SilOk(tt, ll)

Begin(G, tt, ll) == Run(Start(G, Step(tt, ll).act))

Init == /\ t \in DOMAIN Trace
        /\ l = 1
        /\ H = LET x == Trace[t] IN Begin(NewHeap(x.nodes, x.srcs, x.sjs, x.cns, x.reacts), t, 1)

Explain(G, s) ==
  PrintT(<<"MIS", Trace[t].id, l, s.act, s.bad,
           IF OutOk(G, s) THEN <<>> ELSE <<"out: spec", G.out, "code", s.out>>,
           IF IsOk(G, s) THEN <<>> ELSE <<"is_subscribed: code", s.is>>,
           IF s.act[1] = "end" \/ PrOk(G, s) THEN <<>> ELSE <<"open observers: spec must", MustOpen(G), "may", MayOpen(G), "code", s.pr>>,
           IF CfOk(G, s) THEN <<>> ELSE <<"source saw is_subscribed: spec", G.cf, "code", s.cf>>,
           IF LvOk(G, s) THEN <<>> ELSE <<"still owned (items, closures, callbacks)", s.lv>>,
           IF WfOk(t, l) THEN <<>> ELSE <<"not well formed", s.out>>,
           IF SilOk(t, l) THEN <<>> ELSE <<"delivered after unsubscribe", s.out>>,
           IF LkOk(t, l) THEN <<>> ELSE <<"registrations left behind", s.lk>> >>)

Next ==
  \/ /\ H.ag # <<>>
     /\ On("M_OUT") /\ ~Diag => OutPrefix(H, Step(t, l))
     /\ \E G \in Choices(H) : H' = Run(G)
     /\ UNCHANGED <<t, l>>
  \/ /\ H.endless
     /\ l <= Len(Trace[t].steps)
     /\ PrintT(<<"ACC", Trace[t].id>>)
     /\ PrintT(<<"ENDLESS", Trace[t].id>>)
     /\ l' = Len(Trace[t].steps) + 1
     /\ UNCHANGED <<t, H>>
  \/ /\ H.ag = <<>>
     /\ ~H.endless
     /\ l <= Len(Trace[t].steps)
     /\ Match(H, t, l)
     /\ l' = l + 1
     /\ IF l = Len(Trace[t].steps)
        THEN PrintT(<<"ACC", Trace[t].id>>) /\ UNCHANGED H
        ELSE H' = Begin(H, t, l + 1)
     /\ UNCHANGED t
  \/ /\ Diag
     /\ ~H.endless
     /\ H.ag = <<>>
     /\ l <= Len(Trace[t].steps)
     /\ ~Match(H, t, l)
     /\ Explain(H, Step(t, l))
     /\ FALSE
     /\ UNCHANGED <<t, l, H>>

\* the specification's own properties hold along every accepted behaviour
Sound == NoOrphans(H) /\ OneConnection(H)

Spec == Init /\ [][Next]_<<t, l, H>>
=============================================================================
