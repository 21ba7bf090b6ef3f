------------------------- MODULE TraceSubscription -------------------------
(* events: reset(dedupe, mix, cap, lazy) open(c, key, kind, must) opened(c) up(u, key) emit(u, val) complete(u) fail(u) cut(u) deny(u) recv(c, n, u, val)
   end(c, kind) leave(c) gone(u) quiet forge(ok).  up[c] = 0 while it is unknown which upstream serves c. *)
EXTENDS Subscription, TraceBase
VARIABLES dedupe, mix, cap, lazy, cl, ups
svars == <<dedupe, mix, cap, lazy, cl, ups>>
Live(u) == ups[u].st = "live"
Same(c) == {u \in DOMAIN ups : ups[u].key = cl[c].key}
Users(u) == {c \in DOMAIN cl : cl[c].up = u}
Emitted(u) == Len(ups[u].vals)
\* upstreams that may serve c, of which nothing is known yet
May(c) == {u \in Same(c) : \A x \in Users(u) : dedupe /\ (mix \/ cl[x].kind = cl[c].kind)}
Relag(cls, us) == [c \in DOMAIN cls |-> IF cls[c].up = 0 THEN cls[c] ELSE [cls[c] EXCEPT !.lag = Lags(@, cls[c].last, Len(us[cls[c].up].vals), cap)]]
Set(c, f) == [x \in DOMAIN cl \cup {c} |-> IF x = c THEN f ELSE cl[x]]
TReset == E.ev = "reset" /\ dedupe' = E.dedupe /\ mix' = E.mix /\ cap' = E.cap /\ lazy' = E.lazy /\ cl' = <<>> /\ ups' = <<>>
TOpen == E.ev = "open" /\ cl' = Set(E.c, [key |-> E.key, kind |-> E.kind, must |-> E.must, st |-> "open", up |-> 0, last |-> 0, lag |-> FALSE, lead |-> FALSE, opened |-> FALSE, base |-> <<>>, mud |-> FALSE]) /\ UNCHANGED ups
\* how much each upstream had emitted when the client was told that it is subscribed
TOpened == /\ E.ev = "opened" /\ cl' = [cl EXCEPT ![E.c].opened = TRUE, ![E.c].base = [u \in Same(E.c) |-> Emitted(u)]]
           /\ Is(cl[E.c].st = "open" /\ ~lazy => \E u \in Same(E.c) : u = cl[E.c].up \/ u \in May(E.c)) /\ UNCHANGED ups
\* somebody's subscription reaches the subgraph: if only one client can have caused it, it is known whose it is
Cause(k) == {c \in DOMAIN cl : cl[c].key = k /\ cl[c].up = 0 /\ (lazy \/ ~cl[c].opened) /\ cl[c].st \in {"open", "left"}}
\* a client that leaves, or is refused, before it is served may hand its part to clients waiting with it, whose upstream others need not find
Muddy(cls, k) == [c \in DOMAIN cls |-> IF cls[c].key = k /\ cls[c].up = 0 THEN [cls[c] EXCEPT !.mud = TRUE] ELSE cls[c]]
Shares(c, u) == ups[u].key = cl[c].key /\ Live(u) /\ ~ups[u].mud /\ \E x \in Users(u) : cl[x].st = "open" /\ (mix \/ cl[x].must = cl[c].must)
TUp == /\ E.ev = "up" /\ Cause(E.key) # {}
       /\ Is(dedupe => \E c \in Cause(E.key) : cl[c].mud \/ ~\E u \in DOMAIN ups : Shares(c, u))
       /\ ups' = [u \in DOMAIN ups \cup {E.u} |-> IF u = E.u THEN [key |-> E.key, st |-> "live", vals |-> <<>>, mud |-> \E c \in Cause(E.key) : cl[c].mud] ELSE ups[u]]
       /\ cl' = IF Cardinality(Cause(E.key)) = 1 THEN [cl EXCEPT ![CHOOSE c \in Cause(E.key) : TRUE].up = E.u, ![CHOOSE c \in Cause(E.key) : TRUE].lead = TRUE] ELSE cl
TEmit == E.ev = "emit" /\ ups' = [ups EXCEPT ![E.u].vals = Append(@, E.val)] /\ cl' = Relag(cl, ups')
TFinish == E.ev \in {"complete", "fail", "cut", "deny"} /\ ups' = [ups EXCEPT ![E.u].st = E.ev] /\ cl' = IF E.ev = "deny" THEN Muddy(cl, ups[E.u].key) ELSE cl
TRecv == /\ E.ev = "recv" /\ cl[E.c].st = "open" /\ E.u \in DOMAIN ups /\ E.n \in 1..Emitted(E.u) /\ E.val = ups[E.u].vals[E.n]
         /\ IF cl[E.c].up = E.u THEN Follows(cl[E.c].last, E.n, Emitted(E.u), cl[E.c].lag)
            ELSE /\ cl[E.c].up = 0 /\ E.u \in May(E.c)
                 /\ (E.u \in DOMAIN cl[E.c].base => Follows(Min2(cl[E.c].base[E.u], E.n - 1), E.n, Emitted(E.u), Emitted(E.u) - cl[E.c].base[E.u] > cap))
         /\ UNCHANGED ups
         /\ cl' = Relag([cl EXCEPT ![E.c].up = E.u, ![E.c].last = E.n, ![E.c].lead = @ \/ E.n = 1 \/ Emitted(E.u) > cap], ups)
\* the ends an upstream can have for a client that received everything up to p
EndOk(u, p, lag, kind) == \/ ups[u].st = "complete" /\ kind = "complete" /\ UpToDate(p, Emitted(u), lag)
                          \/ ups[u].st = "fail" /\ kind = "error" /\ UpToDate(p, Emitted(u), lag)
                          \/ ups[u].st = "cut" /\ kind \in {"error", "complete"}
                          \/ ups[u].st = "deny" /\ kind \in {"refused", "error"}
TEnd == /\ E.ev = "end" /\ cl[E.c].st = "open"
        /\ IF cl[E.c].up # 0 THEN EndOk(cl[E.c].up, cl[E.c].last, cl[E.c].lag, E.kind)
           ELSE Is(\E u \in May(E.c) : EndOk(u, IF u \in DOMAIN cl[E.c].base THEN cl[E.c].base[u] ELSE Emitted(u), FALSE, E.kind)
                   \* it joined an upstream just as the last of its clients left
                   \/ (dedupe /\ E.kind = "complete" /\ Users(u) # {} /\ \A x \in Users(u) : cl[x].st = "left"))
        /\ cl' = [cl EXCEPT ![E.c].st = "end"] /\ UNCHANGED ups
TLeave == E.ev = "leave" /\ cl' = (IF cl[E.c].up = 0 THEN Muddy([cl EXCEPT ![E.c].st = "left"], cl[E.c].key) ELSE [cl EXCEPT ![E.c].st = "left"]) /\ UNCHANGED ups
TGone == /\ E.ev = "gone" /\ Is(Live(E.u) => \A c \in Users(E.u) : cl[c].st # "open")
         /\ ups' = [ups EXCEPT ![E.u].st = IF @ = "live" THEN "gone" ELSE @] /\ cl' = cl
\* nothing has happened for a while: everything is delivered, ended upstreams have ended their clients, and nobody is served in vain
Settled(c) == IF cl[c].up # 0 THEN Live(cl[c].up) /\ UpToDate(cl[c].last, Emitted(cl[c].up), cl[c].lag)
              ELSE \E u \in May(c) : Live(u) /\ (u \in DOMAIN cl[c].base => cl[c].base[u] = Emitted(u))
TQuiet == /\ E.ev = "quiet" /\ Is(\A c \in DOMAIN cl : cl[c].st = "open" => Settled(c))
          \* (an HTTP client's leaving may be noticed only with the next write to it)
          /\ Is(\A u \in DOMAIN ups : Live(u) => (\E c \in DOMAIN cl : cl[c].st = "left" /\ cl[c].kind # "ws" /\ (cl[c].up = u \/ (cl[c].up = 0 /\ cl[c].key = ups[u].key))) \/ (\E c \in DOMAIN cl : cl[c].st = "open" /\ (cl[c].up = u \/ (cl[c].up = 0 /\ u \in May(c)))))
          \* the client an upstream was opened for sees it from the first value on (unless it left or is one of several candidates)
          /\ Is(\A u \in DOMAIN ups : Emitted(u) > 0 /\ ups[u].st \in {"live", "complete", "fail"} => (\E c \in DOMAIN cl : (cl[c].up = u /\ cl[c].lead) \/ (cl[c].key = ups[u].key /\ cl[c].up = 0)))
          /\ UNCHANGED <<cl, ups>>
\* a callback with wrong credentials is refused
TForge == E.ev = "forge" /\ ~E.ok /\ UNCHANGED <<cl, ups>>
Other == UNCHANGED <<dedupe, mix, cap, lazy>> /\ (TOpen \/ TOpened \/ TUp \/ TEmit \/ TFinish \/ TRecv \/ TEnd \/ TLeave \/ TGone \/ TForge \/ TQuiet)
Next == More /\ Step /\ (TReset \/ (E.ev # "reset" /\ Other))
Spec == l = 1 /\ dedupe = FALSE /\ mix = FALSE /\ cap = 0 /\ lazy = FALSE /\ cl = <<>> /\ ups = <<>> /\ [][Next]_<<svars, l>>
=============================================================================
