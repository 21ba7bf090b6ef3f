-------------------------- MODULE TraceMutations --------------------------
(* events: reset(plan, n) send(id, g, keys) reply(id) end(keys: response keys of data per client) *)
EXTENDS Mutations, TraceBase
TReset == E.ev = "reset" /\ MReset(E.plan, E.n)
TSend == /\ E.ev = "send"
         /\ \E c \in DOMAIN ex :
              /\ Dispatch(c, E.id, Len(E.keys))
              /\ \A j \in 1..Len(E.keys) : plan[ex[c].i + j].k = E.keys[j] /\ plan[ex[c].i + j].g = E.g
TReply == E.ev = "reply" /\ \E c \in DOMAIN ex : Reply(c, E.id)
\* every client got its answer: all root fields ran once and the answer has exactly their keys
TEnd == /\ E.ev = "end"
        /\ \A c \in DOMAIN ex : Complete(c)
        /\ \A r \in 1..Len(E.clients) : /\ Len(E.clients[r]) = Len(plan)
                                        /\ \A j \in 1..Len(plan) : InS(plan[j].k, E.clients[r])
        /\ Len(E.clients) = Cardinality(DOMAIN ex)
        /\ UNCHANGED mvars
Init == l = 1 /\ plan = <<>> /\ ex = <<>> /\ ran = <<>>
Next == More /\ Step /\ (TReset \/ TSend \/ TReply \/ TEnd)
Spec == Init /\ [][Next]_<<mvars, l>>
=============================================================================
