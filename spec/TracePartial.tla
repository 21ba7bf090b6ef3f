---------------------------- MODULE TracePartial ----------------------------
(* Partial failure: table values [t |-> "e"] are fields whose resolution failed. *)
EXTENDS GqlSemantics, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
DataConforms == l = 0 \/ Same(Run(Trace[l]), Trace[l].data)
\* what was lost is reported, and nothing is reported unless something failed
NotSilent == l = 0 \/ (/\ Errs(Trace[l]) => Trace[l].nerr > 0
                       /\ Trace[l].nerr >= Trace[l].nfail
                       /\ Trace[l].nerr > 0 => Errs(Trace[l]) \/ Trace[l].failed)
\* a reported path leads, in the client's response shape, to a field that really failed
PathsTrue == l = 0 \/ \A i \in 1..Len(Trace[l].errs) : Len(Trace[l].errs[i]) = 0 \/ PathOK(Trace[l], Trace[l].errs[i])
=============================================================================
