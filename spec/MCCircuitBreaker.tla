-------------------------- MODULE MCCircuitBreaker --------------------------
(* the design explored: one breaker, up to K concurrent callers, outcomes decided by a subgraph that may recover for good, a clock *)
EXTENDS CircuitBreaker
CONSTANTS K, Vol, Half, Num, Den, Reset, MaxT
VARIABLES now, healed, sentOpen
mcvars == <<cbvars, now, healed, sentOpen>>
C == 1..K
Cf == [on |-> TRUE, num |-> Num, den |-> Den, vol |-> Vol, half |-> Half, reset |-> Reset]
Init == /\ cfg = [g \in {"g"} |-> Cf] /\ br = [g \in {"g"} |-> Fresh] /\ call = <<>> /\ now = 0 /\ healed = FALSE /\ sentOpen = FALSE
b == br["g"]
\* the clock is kept relative: it runs only while the breaker is open, 0 = just opened
Start(c) == Call(c, "g") /\ UNCHANGED <<now, healed, sentOpen>>
Decide(c) == /\ c \in DOMAIN call
             /\ \/ Permit(c, now, now) /\ sentOpen' = (sentOpen \/ (b.mode = "open" /\ now <= Reset))
                \/ Reject(c, now, now) /\ UNCHANGED sentOpen
             /\ UNCHANGED <<now, healed>>
Send(c) == c \in DOMAIN call /\ Sent(c) /\ UNCHANGED <<now, healed, sentOpen>>
Out(c) == c \in DOMAIN call /\ \E f \in BOOLEAN : (healed => ~f) /\ Outcome(c, f) /\ UNCHANGED <<now, healed, sentOpen>>
Cnt(c) == c \in DOMAIN call /\ Count(c, 0, 0) /\ now' = (IF br'["g"].mode = "open" /\ b.mode # "open" THEN 0 ELSE now) /\ UNCHANGED <<healed, sentOpen>>
Forget(c) == /\ c \in DOMAIN call /\ call[c].st \in {"counted", "rejected"}
             /\ call' = [x \in DOMAIN call \ {c} |-> call[x]] /\ UNCHANGED <<cfg, br, now, healed, sentOpen>>
Tick == b.mode = "open" /\ now < MaxT /\ now' = now + 1 /\ UNCHANGED <<cbvars, healed, sentOpen>>
Heal == ~healed /\ healed' = TRUE /\ UNCHANGED <<cbvars, now, sentOpen>>
Next == Tick \/ Heal \/ \E c \in C : Start(c) \/ Decide(c) \/ Send(c) \/ Out(c) \/ Cnt(c) \/ Forget(c)
Spec == /\ Init /\ [][Next]_mcvars /\ WF_mcvars(Tick)
        /\ \A c \in C : WF_mcvars(Start(c)) /\ WF_mcvars(Decide(c)) /\ WF_mcvars(Send(c)) /\ WF_mcvars(Out(c)) /\ WF_mcvars(Cnt(c)) /\ WF_mcvars(Forget(c))
\* nothing is let through while the breaker is open and the pause is not over
Containment == ~sentOpen
RingBounded == Len(b.ring) <= IF b.mode = "half" THEN Half ELSE Vol
\* opening needs enough failures
OpensForAReason == [][b.mode = "closed" /\ br'["g"].mode = "open" => Len(b.ring) = Vol]_mcvars
\* a subgraph that has recovered is eventually served again, and stays served
Recovers == healed ~> []<>(b.mode = "closed")
=============================================================================
