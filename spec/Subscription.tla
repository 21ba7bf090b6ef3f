---------------------------- MODULE Subscription ----------------------------
(* Delivery of subscription events. An upstream subscription u emits the values 1..n in order; the router resolves each one and
   fans it out to its clients. A client is served by one upstream: it sees a run of consecutive values in order, each once, from
   the first one after it joined (the first client: from the first value on), then the end of the upstream. Values may be skipped
   only by clients or buffers more than cap values behind. An upstream lives exactly as long as it has clients. *)
EXTENDS Naturals, Sequences, FiniteSets
\* lagging: more than cap values behind at some moment since it was last up to date (p: last value received, m: values emitted)
Lags(lag, p, m, cap) == p # m /\ (lag \/ m - p > cap)
\* may a client whose last value was p be given n?
Follows(p, n, m, lag) == n > p /\ n <= m /\ (n = p + 1 \/ lag)
UpToDate(p, m, lag) == p = m \/ lag
=============================================================================
