----------------------------- MODULE TraceReload -----------------------------
(* events: reset(twice); offer(ok); arrive(c, kind); answer(c, vs); deliver(c, vs); subend(c); ready(c, b); drop(c); settled
   Reload with the moments of Pick left open: cand[c] = the versions c may have picked so far (every version in service since
   it arrived, narrowed by what it showed), fixed[c] = it has shown something. *)
EXTENDS TraceBase
VARIABLES src, good, cur, kind, cand, fixed, twice
vars == <<src, good, cur, kind, cand, fixed, twice>>
Set(s) == {s[i] : i \in 1..Len(s)}
Cs == DOMAIN cand
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Cut(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Gone(c) == kind' = Cut(kind, c) /\ cand' = Cut(cand, c) /\ fixed' = Cut(fixed, c) /\ UNCHANGED <<src, good, cur, twice>>
TReset == E.ev = "reset" /\ src' = 0 /\ good' = {} /\ cur' = 0 /\ kind' = <<>> /\ cand' = <<>> /\ fixed' = <<>> /\ twice' = E.twice
TOffer == E.ev = "offer" /\ src' = src + 1 /\ good' = (IF E.ok THEN good \cup {src + 1} ELSE good) /\ UNCHANGED <<cur, kind, cand, fixed, twice>>
Publish == \E n \in good : /\ n > cur /\ cur' = n
                           /\ cand' = [c \in Cs |-> IF fixed[c] THEN cand[c] ELSE cand[c] \cup {n}]
                           /\ UNCHANGED <<src, good, kind, fixed, twice>>
TArrive == /\ E.ev = "arrive" /\ E.c \notin Cs
           /\ kind' = Ext(kind, E.c, E.kind) /\ cand' = Ext(cand, E.c, {cur}) /\ fixed' = Ext(fixed, E.c, FALSE) /\ UNCHANGED <<src, good, cur, twice>>
\* everything visible in the answer (schema, plan, subgraph addresses, policies) is explained by one version the request may use
TAnswer == E.ev = "answer" /\ kind[E.c] = "req" /\ cand[E.c] \cap Set(E.vs) # {} /\ Gone(E.c)
TReady == E.ev = "ready" /\ (IF E.b THEN cand[E.c] # {0} ELSE 0 \in cand[E.c]) /\ Gone(E.c)
TDeliver == /\ E.ev = "deliver" /\ kind[E.c] = "sub" /\ cand[E.c] \cap Set(E.vs) # {}
            /\ cand' = [cand EXCEPT ![E.c] = @ \cap Set(E.vs)] /\ fixed' = [fixed EXCEPT ![E.c] = TRUE] /\ UNCHANGED <<src, good, cur, kind, twice>>
\* a subscription ends when its version has gone out of service (a file replaced between the look at its time and the reading
\* of its content is loaded twice)
TSubEnd == E.ev = "subend" /\ kind[E.c] = "sub" /\ (twice \/ cand[E.c] \ {cur} # {}) /\ Gone(E.c)
TDrop == E.ev = "drop" /\ Gone(E.c)
TSettled == /\ E.ev = "settled" /\ cur = src
            /\ \A c \in Cs : kind[c] = "sub" => cur \in cand[c]
            /\ UNCHANGED vars
Next == More /\ ((E.ev # "reset" /\ Publish /\ UNCHANGED l)
                 \/ (Step /\ (TReset \/ TOffer \/ TArrive \/ TAnswer \/ TReady \/ TDeliver \/ TSubEnd \/ TDrop \/ TSettled)))
Spec == l = 1 /\ src = 0 /\ good = {} /\ cur = 0 /\ kind = <<>> /\ cand = <<>> /\ fixed = <<>> /\ twice = FALSE /\ [][Next]_<<vars, l>>
=============================================================================
