--------------------------- MODULE MCSingleFlight ---------------------------
(* Exhaustive check of the in-flight map design itself (leader / joiner / takeover after a cancelled leader) refining the
   observable specification SingleFlight. *)
EXTENDS SingleFlight, TLC
CONSTANTS Clients, MaxExec, Keys
VARIABLES cell,     \* client -> cell it joined
          owner,    \* cell -> client executing it, or "none"
          cmap,     \* key -> cell registered in the map, or "none"
          exof,     \* execution -> [cell, key, c]
          n         \* executions and cells made so far
vars == <<sfvars, cell, owner, cmap, exof, n>>
None == 0
K == Keys
MCKeys2 == {[v |-> "q", h |-> "1", s |-> TRUE], [v |-> "m", h |-> "1", s |-> FALSE]}
MCKeys == {[v |-> "q", h |-> "1", s |-> TRUE], [v |-> "q", h |-> "2", s |-> TRUE], [v |-> "m", h |-> "1", s |-> FALSE]}
Init == SFInit /\ cell = <<>> /\ owner = <<>> /\ cmap = [k \in K |-> None] /\ exof = <<>> /\ n = 0
New(c, k) == /\ c \notin DOMAIN wait /\ n < MaxExec
             /\ Arrive(c, k)
             /\ IF k.s /\ cmap[k] # None
                THEN cell' = Ext(cell, c, cmap[k]) /\ UNCHANGED <<owner, cmap, n>>
                ELSE /\ n' = n + 1 /\ cell' = Ext(cell, c, n + 1) /\ owner' = Ext(owner, n + 1, None)
                     /\ cmap' = IF k.s THEN [cmap EXCEPT ![k] = n + 1] ELSE cmap
             /\ UNCHANGED exof
\* a joiner of an ownerless cell takes the permit and executes
Lead(c) == /\ c \in DOMAIN wait /\ owner[cell[c]] = None /\ n < MaxExec
           /\ ~\E e \in DOMAIN exof : exof[e].cell = cell[c] /\ e \in DOMAIN fin /\ exof[e].ok
           /\ n' = n + 1
           /\ Start(n + 1, Vis(wait[c]))
           /\ owner' = [owner EXCEPT ![cell[c]] = c]
           /\ exof' = Ext(exof, n + 1, [cell |-> cell[c], key |-> wait[c], c |-> c, ok |-> TRUE])
           /\ UNCHANGED <<cell, cmap>>
Done(e) == /\ e \in DOMAIN run
           /\ Finish(e, TRUE)
           \* the cleanup guard removes the key, whatever cell is registered under it by now
           /\ cmap' = IF exof[e].key.s THEN [cmap EXCEPT ![exof[e].key] = None] ELSE cmap
           /\ UNCHANGED <<cell, owner, exof, n>>
Ans(c) == /\ c \in DOMAIN wait
          /\ \E e \in DOMAIN fin : exof[e].cell = cell[c] /\ Answer(c, e)
          /\ cell' = Cut(cell, c)
          /\ UNCHANGED <<owner, cmap, exof, n>>
Cancel(c) == /\ c \in DOMAIN wait
             /\ IF owner[cell[c]] = c /\ \E e \in DOMAIN run : exof[e].c = c
                THEN LET e == CHOOSE e \in DOMAIN run : exof[e].c = c IN
                     /\ wait' = Cut(wait, c) /\ stale' = Cut(stale, c) /\ shaken' = shaken \cup {Vis(wait[c])}
                     /\ run' = Cut(run, e) /\ UNCHANGED <<fin, got>>
                     /\ owner' = [owner EXCEPT ![cell[c]] = None]
                     /\ cmap' = IF wait[c].s THEN [cmap EXCEPT ![wait[c]] = None] ELSE cmap
                ELSE Leave(c) /\ UNCHANGED <<owner, cmap>>
             /\ cell' = Cut(cell, c)
             /\ UNCHANGED <<exof, n>>
Next == \/ \E c \in Clients : (\E k \in K : New(c, k)) \/ Lead(c) \/ Ans(c) \/ Cancel(c)
        \/ \E e \in DOMAIN run : Done(e)
Spec == Init /\ [][Next]_vars
\* no client is stuck: its cell has a result, an owner at work, or the client itself can lead
NoStuck == \A c \in DOMAIN wait : \/ owner[cell[c]] # None \/ n >= MaxExec
                                  \/ ENABLED Lead(c) \/ ENABLED Ans(c)
=============================================================================
