----------------------------- MODULE TraceExec -----------------------------
(* Conformance of recorded executions: the client response recorded from the router equals Run(case). *)
EXTENDS GqlSemantics, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
DataConforms == l = 0 \/ Same(Run(Trace[l]), Trace[l].data)
NoErrors == l = 0 \/ Trace[l].nerr = 0
=============================================================================
