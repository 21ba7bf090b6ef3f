---------------------------- MODULE MCMutations ----------------------------
EXTENDS Mutations, FiniteSets, TLC
CONSTANT K
VARIABLE ids
P == <<[g |-> "A", k |-> "a"], [g |-> "A", k |-> "b"], [g |-> "P", k |-> "c"], [g |-> "A", k |-> "d"], [g |-> "R", k |-> "e"]>>
Init == plan = P /\ ex = [c \in 1..K |-> [i |-> 0, busy |-> 0]] /\ ran = [c \in 1..K |-> <<>>] /\ ids = 1
Fin == \A c \in 1..K : Complete(c)
Next == \/ \E c \in 1..K, n \in 1..Len(plan) : Dispatch(c, ids, n) /\ ids' = ids + 1
        \/ \E c \in 1..K : Reply(c, ex[c].busy) /\ UNCHANGED ids
        \/ Fin /\ UNCHANGED <<mvars, ids>>
Spec == Init /\ [][Next]_<<mvars, ids>> /\ WF_<<mvars, ids>>(Next)
ExactlyOnce == Fin => \A c \in 1..K : Len(ran[c]) = Len(plan)
Ends == <>Fin
=============================================================================
