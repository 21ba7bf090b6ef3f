---------------------------- MODULE SingleFlight ----------------------------
(* In-flight request sharing (inbound request deduplication, subgraph request deduplication).
   A client c asks with key k = everything that makes its request distinguishable. Requests with equal keys that overlap in
   time may share one execution. Each execution produces a fresh result (nonce).
   share[k] = FALSE: this kind of request is never shared (mutations, deduplication switched off).
   Only what is observable from outside is state: who waits, which executions run, which finished, who got which result. *)
EXTENDS Naturals, FiniteSets
VARIABLES
  wait,      \* client -> key, the clients waiting for an answer
  run,       \* execution -> visible key, running
  fin,       \* execution -> visible key, finished but not yet delivered to anyone / delivered
  got,       \* execution -> set of [c, key] served from it
  stale,     \* client -> executions already delivered to someone when the client arrived
  shaken     \* visible keys for which a client left or an execution failed while others wait (a new leader may overlap)
sfvars == <<wait, run, fin, got, stale, shaken>>

Vis(key) == key.v          \* the part of a key the executing side can see
SFInit == wait = <<>> /\ run = <<>> /\ fin = <<>> /\ got = <<>> /\ stale = <<>> /\ shaken = {}
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Cut(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Delivered == {e \in DOMAIN got : got[e] # {}}

Arrive(c, key) == /\ c \notin DOMAIN wait
                  /\ wait' = Ext(wait, c, key)
                  /\ stale' = Ext(stale, c, Delivered)
                  /\ UNCHANGED <<run, fin, got, shaken>>
\* an execution starts for somebody who waits; while one runs, an equal shareable request joins it instead of starting another
Start(e, v) ==
  /\ e \notin DOMAIN run /\ e \notin DOMAIN fin
  /\ v \in shaken \/ \E c \in DOMAIN wait : Vis(wait[c]) = v      \* (what somebody who left had asked for may still start)
  /\ LET ws == {c \in DOMAIN wait : Vis(wait[c]) = v}
         rs == {x \in DOMAIN run : run[x] = v}
         full == {wait[c] : c \in ws}                 \* distinct full keys hidden behind the visible one
     IN /\ v \notin shaken =>
             Cardinality(rs) < Cardinality({k \in full : k.s}) + Cardinality({c \in ws : ~wait[c].s})
        /\ run' = Ext(run, e, v)
  /\ UNCHANGED <<wait, fin, got, stale, shaken>>
Finish(e, ok) == /\ e \in DOMAIN run
                 /\ fin' = Ext(fin, e, run[e])
                 /\ run' = Cut(run, e)
                 /\ shaken' = IF ok THEN shaken ELSE shaken \cup {run[e]}
                 /\ UNCHANGED <<wait, got, stale>>
\* c is answered with the result of e: same request, an execution that was not over before c arrived, and never a result
\* that a different request got; an unshareable result is delivered once
Answer(c, e) ==
  /\ c \in DOMAIN wait /\ e \in DOMAIN fin
  /\ Vis(wait[c]) = fin[e]
  /\ e \notin stale[c]
  /\ LET g == IF e \in DOMAIN got THEN got[e] ELSE {} IN
       /\ \A x \in g : x.key = wait[c] /\ wait[c].s
       /\ got' = Ext(got, e, g \cup {[c |-> c, key |-> wait[c]]})
  /\ wait' = Cut(wait, c) /\ stale' = Cut(stale, c)
  /\ shaken' = IF \E d \in DOMAIN wait \ {c} : Vis(wait[d]) = fin[e] THEN shaken ELSE shaken \ {fin[e]}
  /\ UNCHANGED <<run, fin>>
\* c goes away; its execution may go on, be taken over by another waiting client, or be dropped
Leave(c) == /\ c \in DOMAIN wait
            /\ shaken' = shaken \cup {Vis(wait[c])}
            /\ wait' = Cut(wait, c) /\ stale' = Cut(stale, c)
            /\ UNCHANGED <<run, fin, got>>
\* the executing side sees the execution abandoned
Abandon(e) == e \in DOMAIN run /\ run' = Cut(run, e) /\ UNCHANGED <<wait, fin, got, stale, shaken>>

\* nobody receives a result made for a different request
Isolation == \A e \in DOMAIN got : \A x, y \in got[e] : x.key = y.key
Unshared == \A e \in DOMAIN got : \A x \in got[e] : x.key.s \/ Cardinality(got[e]) = 1
=============================================================================
