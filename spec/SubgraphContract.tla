-------------------------- MODULE SubgraphContract --------------------------
(* The federation contract a request to a subgraph must honour.
   A line is one subgraph request observed by the mock: graph g, own = fields ("Type.field") that g resolves itself,
   facts = what executing the request document asked for:
     doc    valid: the document is valid against g's own schema
     rep    a representation: must carry, with equal values, one complete resolvable key of an entity g knows
     field  a field of g that was selected: must be resolved by g (not @external), unless it is a key field or was @provided
     req    a field with @requires was asked on an entity: the representation must carry everything required, exactly *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE Covers(_, _)
\* the recorded JSON value rep contains everything in want, with equal values
Covers(rep, want) ==
  CASE want.t = "o" -> rep.t = "o" /\ \A i \in 1..Len(want.k) : \E j \in 1..Len(rep.k) : rep.k[j] = want.k[i] /\ Covers(rep.v[j], want.v[i])
    [] want.t = "l" -> rep.t = "l" /\ Len(rep.v) = Len(want.v) /\ \A i \in 1..Len(want.v) : Covers(rep.v[i], want.v[i])
    [] want.t = "n" -> rep.t = "n"
    [] OTHER -> rep.t = "s" /\ rep.v = want.v

FactOK(c, f) ==
  CASE f.k = "doc" -> f.valid
    [] f.k = "rep" -> \E i \in 1..Len(f.keys) : Covers(f.rep, f.keys[i])
    [] f.k = "field" -> \/ f.prov \/ f.key
                        \/ \E i \in 1..Len(c.own) : c.own[i] = f.t \o "." \o f.f
    [] f.k = "req" -> Covers(f.rep, f.want)

Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Contract == l = 0 \/ \A i \in 1..Len(Trace[l].facts) : FactOK(Trace[l], Trace[l].facts[i])
=============================================================================
