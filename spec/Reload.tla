------------------------------- MODULE Reload -------------------------------
(* Supergraph versions are numbered in the order in which the source offered them; good = those that make a working router.
   cur: the version in service, 0 = none yet. A request is served from start to end by the one version in service at a moment
   between its arrival and its answer; a subscription stays with its version and ends when that version goes out of service. *)
EXTENDS Naturals, FiniteSets
VARIABLES src,    \* newest version the source has offered
          good,   \* offered versions that are valid
          cur, on \* on: request or subscription -> [v, kind]; v = -1 is not yet picked (coded as 99999)
rlvars == <<src, good, cur, on>>
NoPick == 99999
Offer(n, ok) == n = src + 1 /\ src' = n /\ good' = (IF ok THEN good \cup {n} ELSE good) /\ UNCHANGED <<cur, on>>
\* the loader may skip versions but never goes back and never puts a broken one in service
Publish(n) == n \in good /\ n > cur /\ cur' = n /\ UNCHANGED <<src, good, on>>
Arrive(c, k) == c \notin DOMAIN on /\ on' = [x \in DOMAIN on \cup {c} |-> IF x = c THEN [v |-> NoPick, kind |-> k] ELSE on[x]] /\ UNCHANGED <<src, good, cur>>
Pick(c) == c \in DOMAIN on /\ on[c].v = NoPick /\ on' = [on EXCEPT ![c].v = cur] /\ UNCHANGED <<src, good, cur>>
Gone(c) == on' = [x \in DOMAIN on \ {c} |-> on[x]] /\ UNCHANGED <<src, good, cur>>
\* everything visible in the answer (schema, plan, subgraph addresses, policies) is version v's
Answer(c, vs) == c \in DOMAIN on /\ on[c].kind = "req" /\ on[c].v \in vs /\ Gone(c)
\* a subscription delivers its own version's data
Deliver(c, vs) == c \in DOMAIN on /\ on[c].kind = "sub" /\ on[c].v \in vs /\ UNCHANGED rlvars
SubEnd(c) == c \in DOMAIN on /\ on[c].kind = "sub" /\ on[c].v # cur /\ Gone(c)
=============================================================================
