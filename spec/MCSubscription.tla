--------------------------- MODULE MCSubscription ---------------------------
(* The mechanism: upstream -> bounded buffer (newest dropped when full) -> pump -> broadcast ring of size Cap -> clients. The first
   client is attached before the pump starts; others join while the upstream is registered. *)
EXTENDS Subscription
CONSTANTS N, Buf, Cap, Clients
VARIABLES emitted, done, buf, ring, pump, cl, pos, got, open, lag
vars == <<emitted, done, buf, ring, pump, cl, pos, got, open, lag>>
Last(g) == IF g = <<>> THEN 0 ELSE g[Len(g)]
Lag == IF Buf < Cap THEN Buf ELSE Cap
Leader == CHOOSE c \in Clients : TRUE
\* ring: everything ever broadcast; a client at pos skips what has fallen out of the last Cap
Attached == {c \in Clients : cl[c] = "on"}
Init == /\ emitted = 0 /\ done = FALSE /\ buf = <<>> /\ ring = <<>> /\ pump = "on" /\ open = TRUE
        /\ cl = [c \in Clients |-> IF c = Leader THEN "on" ELSE "out"] /\ pos = [c \in Clients |-> 0] /\ got = [c \in Clients |-> <<>>] /\ lag = [c \in Clients |-> FALSE]
Emit == /\ open /\ ~done /\ emitted < N /\ emitted' = emitted + 1 /\ buf' = IF Len(buf) < Buf THEN Append(buf, emitted + 1) ELSE buf
        /\ UNCHANGED <<done, ring, pump, cl, pos, got, open>>
Complete == open /\ ~done /\ done' = TRUE /\ UNCHANGED <<emitted, buf, ring, pump, cl, pos, got, open>>
Pump == /\ pump = "on" /\ buf # <<>> /\ buf' = Tail(buf) /\ ring' = Append(ring, Head(buf)) /\ UNCHANGED <<emitted, done, pump, cl, pos, got, open>>
PumpEnd == /\ pump = "on" /\ ((done /\ buf = <<>>) \/ Attached = {}) /\ pump' = "off" /\ open' = FALSE /\ UNCHANGED <<emitted, done, buf, ring, cl, pos, got>>
Join(c) == cl[c] = "out" /\ pump = "on" /\ Attached # {} /\ cl' = [cl EXCEPT ![c] = "on"] /\ pos' = [pos EXCEPT ![c] = Len(ring)] /\ UNCHANGED <<emitted, done, buf, ring, pump, got, open>>
Recv(c) == /\ cl[c] = "on" /\ pos[c] < Len(ring)
           /\ LET i == IF Len(ring) - pos[c] > Cap THEN Len(ring) - Cap + 1 ELSE pos[c] + 1 IN
              got' = [got EXCEPT ![c] = Append(@, ring[i])] /\ pos' = [pos EXCEPT ![c] = i]
           /\ UNCHANGED <<emitted, done, buf, ring, pump, cl, open>>
End(c) == cl[c] = "on" /\ pump = "off" /\ pos[c] = Len(ring) /\ cl' = [cl EXCEPT ![c] = "end"] /\ UNCHANGED <<emitted, done, buf, ring, pump, pos, got, open>>
Leave(c) == cl[c] = "on" /\ cl' = [cl EXCEPT ![c] = "left"] /\ UNCHANGED <<emitted, done, buf, ring, pump, pos, got, open>>
Act == Emit \/ Complete \/ Pump \/ PumpEnd \/ \E c \in Clients : Join(c) \/ Recv(c) \/ End(c) \/ Leave(c)
LagStep == lag' = [c \in Clients |-> Lags(lag[c], Last(got'[c]), emitted', Lag)]
Next == Act /\ LagStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Pump /\ LagStep) /\ WF_vars(PumpEnd /\ LagStep) /\ \A c \in Clients : WF_vars(Recv(c) /\ LagStep) /\ WF_vars(End(c) /\ LagStep)
InOrder == \A c \in Clients : \A i \in 2..Len(got[c]) : got[c][i - 1] < got[c][i]
\* nothing is skipped unless that many values are pending
NoGaps == [][\A c \in Clients : got'[c] # got[c] /\ (got[c] # <<>> \/ c = Leader) => Follows(Last(got[c]), Last(got'[c]), emitted, lag[c])]_vars
EndMeansAll == \A c \in Clients : cl[c] = "end" => done /\ (got[c] = <<>> \/ UpToDate(Last(got[c]), emitted, lag[c]))
\* an upstream without clients is closed, one with clients is not
NoLeak == (Attached = {}) ~> ~open
NoCut == ~open => done \/ Attached = {}
Ends == \A c \in Clients : (cl[c] = "on" /\ done) ~> cl[c] # "on"
=============================================================================
