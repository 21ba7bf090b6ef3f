---------------------------- MODULE TraceFlight ----------------------------
(* events: reset; arrive(c, key); start(e, v); finish(e, ok); answer(c, e) | answer(c, e = 0: failed answer); leave(c); abandon(e); end *)
EXTENDS SingleFlight, TraceBase
TReset == /\ E.ev = "reset"
          /\ wait' = <<>> /\ run' = <<>> /\ fin' = <<>> /\ got' = <<>> /\ stale' = <<>> /\ shaken' = {}
\* an error answer is explained by a failed execution of the same visible request
TFailed == /\ E.ev = "failed" /\ E.c \in DOMAIN wait
           /\ \E e \in DOMAIN fin : fin[e] = Vis(wait[E.c]) /\ fin[e] \in shaken
           /\ wait' = Cut(wait, E.c) /\ stale' = Cut(stale, E.c)
           /\ UNCHANGED <<run, fin, got, shaken>>
\* at rest: nobody is left waiting
TEnd == E.ev = "end" /\ DOMAIN wait = {} /\ UNCHANGED sfvars
Next == /\ More /\ Step
        /\ \/ TReset
           \/ E.ev = "arrive" /\ Arrive(E.c, E.key)
           \/ E.ev = "start" /\ Start(E.e, E.v)
           \/ E.ev = "finish" /\ Finish(E.e, E.ok)
           \/ E.ev = "answer" /\ Answer(E.c, E.e)
           \/ E.ev = "leave" /\ Leave(E.c)
           \/ E.ev = "abandon" /\ Abandon(E.e)
           \/ TFailed \/ TEnd
Spec == l = 1 /\ SFInit /\ [][Next]_<<sfvars, l>>
=============================================================================
