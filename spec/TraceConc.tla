----------------------------- MODULE TraceConc ------------------------------
(* Accepts a recorded threaded run of the real library iff every specification selected by the environment
   (F_SCHD, F_HAND, ...) has a behaviour with this history.                                                 *)
EXTENDS Families, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

VARIABLES t, h, s

Selected == {g \in FamilyNames : ("F_" \o g) \in DOMAIN IOEnv}
RECURSIVE Product(_, _)
Product(F, N) == IF N = {} THEN {<<>>}
                 ELSE LET f == CHOOSE x \in N : TRUE IN {(f :> a) @@ b : a \in F[f], b \in Product(F, N \ {f})}

Init == /\ t \in DOMAIN Trace
        /\ h = H0(Trace[t].nt)
        /\ s = [f \in Selected |-> FamInit(f, Trace[t])]

Next == /\ h.i < Len(Trace[t].ev)
        /\ t' = t
        /\ LET e == Trace[t].ev[h.i + 1]
               g == TLCEval(Hstep(h, e))
               F == TLCEval([f \in Selected |-> FamStep(f, Trace[t], s[f], g, e)])
           IN /\ h' = g
              /\ Diag => \A f \in Selected : F[f] = {} => PrintT(<<"MIS", f, g.i, e, s[f]>>)
              /\ s' \in Product(F, Selected)
              /\ (g.i = Len(Trace[t].ev) => PrintT(<<"ACC", Trace[t].id>>))
Spec == Init /\ [][Next]_<<t, h, s>>
=============================================================================
