--------------------------- MODULE CircuitBreaker ---------------------------
(* Per-subgraph circuit breakers. A call to subgraph g is either let through (a request is sent) or rejected (nothing is sent);
   the outcome of a call that was let through is counted once, unless its caller went away.
   closed: the last cf.vol outcomes are kept; once that many are known, each further outcome that brings the share of failures
   to cf.num/cf.den or more opens the breaker. open: everything is rejected until cf.reset has passed. half: everything is
   let through; the last cf.half outcomes are kept, and once that many are known a success with a share of failures not above
   the threshold closes, a failure with a share not below it opens again. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES cfg,     \* subgraph -> [on, num, den, vol, half, reset]
          br,      \* subgraph -> [mode, ring, lo, hi]: opened at some time in lo..hi
          call     \* call -> [g, st] with st in new, sent, rejected, failed, fine, done
cbvars == <<cfg, br, call>>
Fresh == [mode |-> "closed", ring |-> <<>>, lo |-> 0, hi |-> 0]
Bad(r) == Cardinality({i \in 1..Len(r) : r[i]})
Push(r, n, f) == IF Len(r) = n THEN Append(Tail(r), f) ELSE Append(r, f)
\* the breaker after an outcome (f: failure) seen between the times t0 and t1
After(b, c, f, t0, t1) ==
  CASE b.mode = "open" -> b
    [] b.mode = "closed" ->
         LET r == Push(b.ring, c.vol, f) IN
         IF Len(b.ring) = c.vol /\ Bad(r) * c.den >= c.num * c.vol
         THEN [mode |-> "open", ring |-> <<>>, lo |-> t0, hi |-> t1]
         ELSE [b EXCEPT !.ring = r]
    [] b.mode = "half" ->
         LET r == Push(b.ring, c.half, f) IN
         IF Len(b.ring) # c.half THEN [b EXCEPT !.ring = r]
         ELSE IF f /\ Bad(r) * c.den >= c.num * c.half THEN [mode |-> "open", ring |-> <<>>, lo |-> t0, hi |-> t1]
         ELSE IF ~f /\ Bad(r) * c.den <= c.num * c.half THEN Fresh
         ELSE [b EXCEPT !.ring = r]
SetC(c, st) == call' = [call EXCEPT ![c].st = st]
Call(c, g) == c \notin DOMAIN call /\ call' = [x \in DOMAIN call \cup {c} |-> IF x = c THEN [g |-> g, st |-> "new"] ELSE call[x]] /\ UNCHANGED <<cfg, br>>
\* the decision about call c falls between t0 and t1
Permit(c, t0, t1) ==
  /\ call[c].st = "new"
  /\ SetC(c, "permitted")
  /\ LET g == call[c].g  b == br[g] IN
     IF ~cfg[g].on \/ b.mode # "open" THEN br' = br
     ELSE /\ t1 > b.lo + cfg[g].reset
          /\ br' = [br EXCEPT ![g] = [mode |-> "half", ring |-> <<>>, lo |-> 0, hi |-> 0]]
  /\ UNCHANGED cfg
Reject(c, t0, t1) ==
  /\ call[c].st = "new"
  /\ LET g == call[c].g  b == br[g] IN cfg[g].on /\ b.mode = "open" /\ t0 <= b.hi + cfg[g].reset
  /\ SetC(c, "rejected") /\ UNCHANGED <<cfg, br>>
Sent(c) == call[c].st = "permitted" /\ SetC(c, "sent") /\ UNCHANGED <<cfg, br>>
Outcome(c, f) == call[c].st = "sent" /\ SetC(c, IF f THEN "failed" ELSE "fine") /\ UNCHANGED <<cfg, br>>
Count(c, t0, t1) ==
  /\ call[c].st \in {"failed", "fine"}
  /\ LET g == call[c].g IN br' = IF cfg[g].on THEN [br EXCEPT ![g] = After(@, cfg[g], call[c].st = "failed", t0, t1)] ELSE br
  /\ SetC(c, "counted") /\ UNCHANGED cfg
=============================================================================
