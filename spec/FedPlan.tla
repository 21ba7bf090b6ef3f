------------------------------ MODULE FedPlan ------------------------------
(* Design of federated execution: a query plan is a DAG of fetches; fetches whose dependencies are over run concurrently and
   finish in any order, each either with data or as a failure. A fetch of entity fields sends one representation per entity it
   still knows; a representation is complete iff key (and @requires) fields are known.
   Properties: whatever the schedule, the final response is the reference result with exactly the failed parts null
   (Confluent), no fetch is sent before its representations are complete (ContractHeld), every fetch is sent at most once. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Fetches, Root, Ents, Unset
\* field provided by a fetch, fields needed in the representation, dependencies
Provides(f) == CASE f = "A" -> {"id", "kind"} [] f = "B" -> {"name"} [] f = "C" -> {"price"} [] f = "D" -> {"stock"} [] OTHER -> {}
Needs(f) == CASE f = "A" -> {} [] f = "B" -> {"id"} [] f = "C" -> {"id", "name"} [] f = "D" -> {"id"} [] OTHER -> {}
Deps(f) == CASE f = "A" -> {} [] f = "B" -> {"A"} [] f = "C" -> {"B"} [] f = "D" -> {"A"} [] OTHER -> {}
Fields == {"id", "kind", "name", "price", "stock"}
Value(e, fl) == <<e, fl>>      \* the data: one value per field of each identity, whichever subgraph is asked

VARIABLES store, st, reps, fails
vars == <<store, st, reps, fails>>
Init == /\ store = [e \in Ents |-> [fl \in Fields |-> Unset]]
        /\ st = [f \in Fetches |-> "waiting"]
        /\ reps = [f \in Fetches |-> {}]
        /\ fails = {}
\* a fetch starts when all it depends on is over; only entities with complete representations are asked for
Start(f) == /\ st[f] = "waiting"
            /\ \A d \in Deps(f) : st[d] \in {"done", "failed", "skipped"}
            /\ LET rs == IF f = Root THEN Ents ELSE {e \in Ents : \A n \in Needs(f) : store[e][n] # Unset}
               IN /\ reps' = [reps EXCEPT ![f] = rs]
                  /\ st' = [st EXCEPT ![f] = IF rs = {} THEN "skipped" ELSE "sent"]
            /\ UNCHANGED <<store, fails>>
Finish(f) == /\ st[f] = "sent"
             /\ store' = [e \in Ents |-> IF e \in reps[f] THEN [fl \in Fields |-> IF fl \in Provides(f) THEN Value(e, fl) ELSE store[e][fl]] ELSE store[e]]
             /\ st' = [st EXCEPT ![f] = "done"]
             /\ UNCHANGED <<reps, fails>>
Fail(f) == /\ st[f] = "sent"
           /\ st' = [st EXCEPT ![f] = "failed"]
           /\ fails' = fails \cup {f}
           /\ UNCHANGED <<store, reps>>
Over == \A f \in Fetches : st[f] \in {"done", "failed", "skipped"}
Next == (\E f \in Fetches : Start(f) \/ Finish(f) \/ Fail(f)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Lost(_)
Lost(f) == f \in fails \/ \E d \in Deps(f) : Lost(d)
\* what the client must get: every field except those of fetches that failed or depended on a failed one
Expected(e) == [fl \in Fields |-> IF \E f \in Fetches : fl \in Provides(f) /\ ~Lost(f) THEN Value(e, fl) ELSE Unset]
Confluent == Over => \A e \in Ents : store[e] = Expected(e)
ContractHeld == \A f \in Fetches : st[f] = "sent" => \A e \in reps[f] : \A n \in Needs(f) : store[e][n] # Unset
NoSilentLoss == Over => ((\E e \in Ents, fl \in Fields : store[e][fl] = Unset) <=> fails # {})
Terminates == <>Over
=============================================================================
