------------------------------ MODULE MCReload ------------------------------
(* the design with a polling loader that validates a tag: the answer to a poll consists of a head (tag) and a body, and the
   body may break off; the tag is remembered only together with a complete body (EarlyTag = FALSE) *)
EXTENDS Reload
CONSTANTS N, Faults, EarlyTag
VARIABLES tag, got, queue, faults
mc == <<rlvars, tag, got, queue, faults>>
C == {"r1", "r2", "s"}
Init == src = 0 /\ good = {} /\ cur = 0 /\ on = <<>> /\ tag = 0 /\ got = 0 /\ queue = <<>> /\ faults = Faults
U == UNCHANGED <<tag, got, queue, faults>>
Write == src < N /\ \E ok \in BOOLEAN : Offer(src + 1, ok) /\ U
PollHead == got = 0 /\ src # tag /\ got' = src /\ tag' = (IF EarlyTag THEN src ELSE tag) /\ UNCHANGED <<rlvars, queue, faults>>
PollBody == got # 0 /\ queue = <<>> /\ queue' = <<got>> /\ tag' = got /\ got' = 0 /\ UNCHANGED <<rlvars, faults>>
PollBreak == got # 0 /\ faults > 0 /\ faults' = faults - 1 /\ got' = 0 /\ UNCHANGED <<rlvars, tag, queue>>
Build == /\ queue # <<>> /\ queue' = <<>>
         /\ IF queue[1] \in good /\ queue[1] > cur THEN Publish(queue[1]) ELSE UNCHANGED rlvars
         /\ UNCHANGED <<tag, got, faults>>
Client == \E c \in C : \/ Arrive(c, IF c = "s" THEN "sub" ELSE "req") \/ Pick(c)
                       \/ \E v \in 0..N : Answer(c, {v}) \/ Deliver(c, {v})
End == SubEnd("s") /\ on["s"].v # NoPick
Next == Write \/ PollHead \/ PollBody \/ PollBreak \/ Build \/ (Client /\ U) \/ (End /\ U)
Spec == Init /\ [][Next]_mc /\ WF_mc(PollHead) /\ WF_mc(PollBody) /\ WF_mc(Build) /\ WF_mc(End /\ U)
Served == cur \in good \cup {0}
NeverBack == [][cur' >= cur]_mc
MaxGood == IF good = {} THEN 0 ELSE CHOOSE x \in good : \A y \in good : x >= y
\* once the source is quiet and its newest version works, it gets into service however the transfers broke off before
CatchesUp == (src = N /\ N \in good) ~> (cur = N)
SubsFollow == []<>("s" \in DOMAIN on => on["s"].v \in {cur, NoPick})
=============================================================================
