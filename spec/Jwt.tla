-------------------------------- MODULE Jwt --------------------------------
(* Which requests a router with JWT authentication may and must accept. Keys: [kid, alg ("" = not given), kty, m (key material)].
   Tokens: [kid, alg, m (what signed it, "" = broken signature), fine (parses, has an expiry date), exp (ms), iss, aud (sequence)]. *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in 1..Len(s)}
Family(alg) == IF alg \in {"HS256", "HS384", "HS512"} THEN "oct" ELSE IF alg \in {"RS256", "RS384", "RS512"} THEN "RSA" ELSE "none"
\* the key really verifies the signature with the algorithm of the token, and the algorithm is one the operator allows
Verifies(cf, k, tok) == k.m = tok.m /\ k.kty = Family(tok.alg) /\ k.alg \in {"", tok.alg} /\ tok.alg \in Rng(cf.algs)
ClaimsFine(cf, tok) ==
    /\ tok.fine
    /\ cf.issOn => tok.iss \in Rng(cf.iss)
    /\ cf.audOn => Len(tok.aud) > 0 /\ Rng(tok.aud) \subseteq Rng(cf.aud)
Leeway == 60000
\* keys: the union of the keys of all sources
May(cf, keys, tok, t0) == ClaimsFine(cf, tok) /\ t0 < tok.exp + Leeway + 1000 /\ \E k \in keys : Verifies(cf, k, tok)
Must(cf, keys, tok, t1) == /\ ClaimsFine(cf, tok) /\ t1 < tok.exp + Leeway
                           /\ \E k \in keys : Verifies(cf, k, tok) /\ (IF tok.kid # "" THEN k.kid = tok.kid ELSE k.alg = tok.alg)
=============================================================================
