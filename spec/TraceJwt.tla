------------------------------ MODULE TraceJwt ------------------------------
(* events (t in ms): reset(cfg, toks, sets) fetch(s) serve(s, keys) send(r, at: <<token name, "absent" or "mismatch" per location>>)
   answer(r, who, refused, hits) end.  src[s] = candidate key sets of source s; req[r] = the verdicts possible so far. *)
EXTENDS Jwt, TraceBase
VARIABLES cfg, toks, src, last, req, okc
jvars == <<cfg, toks, src, last, req, okc>>
T0 == IF l = 1 THEN 0 ELSE Trace[l - 1].t
T1 == E.t + 1
TTL == 5000
Slack == 500
\* the token a request presents: the first location that has one; a location with another prefix may end the search or be passed over
RECURSIVE Found(_, _)
Found(at, i) == IF i > Len(at) THEN {"absent"}
                ELSE IF at[i] = "absent" THEN Found(at, i + 1)
                ELSE IF at[i] = "mismatch" THEN {"absent"} \cup Found(at, i + 1)
                ELSE {at[i]}
RECURSIVE Combos(_)
Combos(s) == IF s = 0 THEN {{}} ELSE {Rng(x) \cup y : x \in src[s], y \in Combos(s - 1)}
Fresh(tn) == LET cs == Combos(Len(src)) tok == toks[tn] IN
             (IF \E k \in cs : May(cfg, k, tok, T0) THEN {"ok"} ELSE {}) \cup (IF \E k \in cs : ~Must(cfg, k, tok, T1) THEN {"bad"} ELSE {})
Verdicts(tn) == IF tn = "absent" THEN {<<"absent", "none">>}
                ELSE {<<tn, v>> : v \in Fresh(tn) \cup (IF tn \in DOMAIN okc /\ T0 <= okc[tn] THEN {"ok"} ELSE {})}
Grow(r) == [req[r] EXCEPT !.may = @ \cup UNION {Verdicts(tn) : tn \in Found(req[r].at, 1)}]
Grown == [r \in DOMAIN req |-> Grow(r)]
\* a token found good now may be taken for good for 5 s more, but not beyond its expiry date
Good == {tn \in UNION {Found(req[r].at, 1) : r \in DOMAIN req} : tn # "absent" /\ "ok" \in Fresh(tn)}
Until(tn) == Min2(T1 + TTL, Max2(toks[tn].exp + 1000, T1)) + Slack
Cache == [tn \in DOMAIN okc \cup Good |-> IF tn \in Good THEN (IF tn \in DOMAIN okc THEN Max2(okc[tn], Until(tn)) ELSE Until(tn)) ELSE okc[tn]]
\* outcome <<token, verdict>> of a request as the client and the subgraphs see it
Explains(o) == LET good == o[2] = "ok" IN
               IF good THEN ~E.refused /\ E.who = toks[o[1]].sub
               ELSE IF cfg.require THEN E.refused /\ E.hits = 0 ELSE ~E.refused /\ E.who = ""
TReset == /\ E.ev = "reset" /\ cfg' = E.cfg /\ toks' = E.toks /\ src' = [i \in 1..Len(E.sets) |-> {E.sets[i]}]
          /\ last' = E.sets /\ req' = <<>> /\ okc' = <<>>
TFetch == /\ E.ev = "fetch" /\ src' = [src EXCEPT ![E.s] = {last[E.s]}] /\ UNCHANGED last /\ req' = Grown
TServe == /\ E.ev = "serve" /\ src' = [src EXCEPT ![E.s] = @ \cup {E.keys}] /\ last' = [last EXCEPT ![E.s] = E.keys] /\ req' = Grown
TSend == E.ev = "send" /\ UNCHANGED <<src, last>> /\ req' = [r \in DOMAIN req \cup {E.r} |-> IF r = E.r THEN [at |-> E.at, may |-> {}] ELSE Grow(r)]
TAnswer == /\ E.ev = "answer" /\ UNCHANGED <<src, last>>
           /\ \E o \in Grow(E.r).may : Explains(o)
           /\ req' = [r \in DOMAIN req \ {E.r} |-> Grow(r)]
TEnd == E.ev = "end" /\ UNCHANGED <<src, last, req>>
Other == UNCHANGED <<cfg, toks>> /\ okc' = Cache /\ (TFetch \/ TServe \/ TSend \/ TAnswer \/ TEnd)
Next == More /\ Step /\ (TReset \/ (E.ev # "reset" /\ Other))
Spec == l = 1 /\ cfg = <<>> /\ toks = <<>> /\ src = <<>> /\ last = <<>> /\ req = <<>> /\ okc = <<>> /\ [][Next]_<<jvars, l>>
=============================================================================
