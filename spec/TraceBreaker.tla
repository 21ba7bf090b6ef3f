---------------------------- MODULE TraceBreaker ----------------------------
(* events: reset(cfg) call(c,g,t) sent(c,t) reply(c,fail,t) answer(cs: <<[c, rej]>>, t) leave(c) end; t in ms *)
EXTENDS CircuitBreaker, TraceBase
T0 == IF l = 1 THEN 0 ELSE Trace[l - 1].t
T1 == E.t + 1
TReset == E.ev = "reset" /\ cfg' = E.cfg /\ br' = [g \in DOMAIN E.cfg |-> Fresh] /\ call' = <<>>
TCall == E.ev = "call" /\ Call(E.c, E.g)
TSent == E.ev = "sent" /\ E.c \in DOMAIN call /\ call[E.c].g = E.g /\ Sent(E.c)
TReply == E.ev = "reply" /\ Outcome(E.c, E.fail)
TAnswer == /\ E.ev = "answer"
           /\ \A i \in 1..Len(E.cs) : call[E.cs[i].c].st = (IF E.cs[i].rej THEN "rejected" ELSE "counted")
           /\ LET done == {E.cs[i].c : i \in 1..Len(E.cs)} IN call' = [x \in DOMAIN call \ done |-> call[x]]
           /\ UNCHANGED <<cfg, br>>
TLeave == E.ev \in {"leave", "end"} /\ UNCHANGED cbvars
Hidden == /\ E.ev # "reset"
          /\ \E c \in DOMAIN call : Permit(c, T0, T1) \/ Reject(c, T0, T1) \/ Count(c, T0, T1)
          /\ UNCHANGED l
Next == More /\ (Hidden \/ (Step /\ (TReset \/ TCall \/ TSent \/ TReply \/ TAnswer \/ TLeave)))
Spec == l = 1 /\ cfg = <<>> /\ br = <<>> /\ call = <<>> /\ [][Next]_<<cbvars, l>>
=============================================================================
