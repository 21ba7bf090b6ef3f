------------------------------- MODULE MCJwt -------------------------------
(* the design explored: a key endpoint that rotates its keys (a withdrawn key may come back), a poller whose loads may fail a
   bounded number of times in a row, a claims cache, one token per key, a clock in seconds *)
EXTENDS Jwt, TLC
CONSTANTS Poll, TTL, MaxT, MaxFail, Keys
VARIABLES now, served, loaded, cache, revoked, bad, nextPoll, fails
vars == <<now, served, loaded, cache, revoked, bad, nextPoll, fails>>
Cf == [issOn |-> FALSE, iss |-> <<>>, audOn |-> FALSE, aud |-> <<>>, algs |-> <<"HS256">>]
Key(m) == [kid |-> m, alg |-> "HS256", kty |-> "oct", m |-> m]
Exp == 4        \* the tokens are acceptable until then (leeway included)
Tok(m) == [kid |-> m, alg |-> "HS256", m |-> m, fine |-> TRUE, exp |-> Exp * 1000 - Leeway - 1000, iss |-> "", aud |-> <<>>]
Init == now = 0 /\ served \in {{k} : k \in Keys} /\ loaded = {} /\ cache = [k \in Keys |-> -1] /\ revoked = [k \in Keys |-> -1] /\ bad = {} /\ nextPoll = 0 /\ fails = 0
Rotate == \E s \in SUBSET Keys : /\ served' = s /\ served # s
                                 /\ revoked' = [x \in Keys |-> IF x \in s THEN -1 ELSE IF x \in served THEN now ELSE revoked[x]]
                                 /\ UNCHANGED <<now, loaded, cache, bad, nextPoll, fails>>
Load == now >= nextPoll /\ nextPoll' = now + Poll /\ loaded' = served /\ fails' = 0 /\ UNCHANGED <<now, served, cache, revoked, bad>>
Fail == now >= nextPoll /\ fails < MaxFail /\ nextPoll' = now + Poll /\ fails' = fails + 1 /\ UNCHANGED <<now, served, loaded, cache, revoked, bad>>
Tick == now < MaxT /\ nextPoll > now /\ now' = now + 1 /\ UNCHANGED <<served, loaded, cache, revoked, bad, nextPoll, fails>>
Ask(k) == LET hit == cache[k] >= now
              until == IF now + TTL - 1 < Exp - 1 THEN now + TTL - 1 ELSE Exp - 1
          IN /\ hit \/ May(Cf, {Key(x) : x \in loaded}, Tok(k), now * 1000)
             /\ cache' = (IF hit \/ until < now THEN cache ELSE [cache EXCEPT ![k] = until])
             /\ bad' = bad \cup (IF revoked[k] >= 0 /\ now > revoked[k] + Poll * (1 + MaxFail) + TTL THEN {"revoked"} ELSE {})
                           \cup (IF now >= Exp THEN {"expired"} ELSE {})
             /\ UNCHANGED <<now, served, loaded, revoked, nextPoll, fails>>
Forge == May(Cf, {Key(x) : x \in loaded}, [Tok("x") EXCEPT !.m = ""], 0) /\ bad' = bad \cup {"forged"} /\ UNCHANGED <<now, served, loaded, cache, revoked, nextPoll, fails>>
Next == Rotate \/ Load \/ Fail \/ Tick \/ Forge \/ \E k \in Keys : Ask(k)
Spec == Init /\ [][Next]_vars
Safe == bad = {}
=============================================================================
