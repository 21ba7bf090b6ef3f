----------------------------- MODULE TraceBase -----------------------------
(* Shared by the trace specifications: Trace is the recorded history, l the next event to explain. TLC's register 1 keeps the
   furthest l reached; the history is accepted iff some behaviour explains every event. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ASSUME TLCSet(1, 0)
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Report == PrintT(<<"VFMAX", TLCGet(1)>>)
E == Trace[l]
More == l <= Len(Trace)
Step == l' = l + 1
InS(x, s) == \E i \in 1..Len(s) : s[i] = x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* evaluates p as a value: TLC would take the quantifiers of a guard as choices of the action, and multiply them
Is(p) == IF p THEN TRUE ELSE FALSE
=============================================================================
