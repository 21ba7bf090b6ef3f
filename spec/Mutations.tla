----------------------------- MODULE Mutations -----------------------------
(* Serial execution of a mutation's root fields over subgraphs. Plan is the sequence of root fields left after
   @skip/@include, each [g, k]: resolving graph and response key. Every client execution dispatches its root fields
   strictly in order: the next ones only when no earlier one is outstanding; consecutive fields of one graph may share a
   request. Whatever happens to a request (data, errors, broken connection) it is dispatched once and the rest goes on. *)
EXTENDS Naturals, Sequences
VARIABLES plan, ex, ran
mvars == <<plan, ex, ran>>

MReset(p, n) == plan' = p /\ ex' = [c \in 1..n |-> [i |-> 0, busy |-> 0]] /\ ran' = [c \in 1..n |-> <<>>]
\* execution c dispatches request id with the next n fields
Dispatch(c, id, n) ==
  /\ ex[c].busy = 0
  /\ n >= 1 /\ ex[c].i + n <= Len(plan)
  /\ \A j \in 1..n : plan[ex[c].i + j].g = plan[ex[c].i + 1].g
  /\ ex' = [ex EXCEPT ![c] = [i |-> @.i + n, busy |-> id]]
  /\ ran' = [ran EXCEPT ![c] = @ \o [j \in 1..n |-> ex[c].i + j]]
  /\ UNCHANGED plan
Reply(c, id) == ex[c].busy = id /\ id # 0 /\ ex' = [ex EXCEPT ![c].busy = 0] /\ UNCHANGED <<plan, ran>>
Complete(c) == ex[c].i = Len(plan) /\ ex[c].busy = 0

\* safety: side effects happen in document order, each at most once, never two at a time per client
InOrder == \A c \in DOMAIN ran : \A j \in 1..Len(ran[c]) : ran[c][j] = j
=============================================================================
