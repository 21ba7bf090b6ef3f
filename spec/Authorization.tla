--------------------------- MODULE Authorization ---------------------------
(* @authenticated / @requiresScopes on top of the reference execution semantics.

   A case adds to GqlSemantics' case:
     rules   - "Type" or "Type.field" -> sequence of AND-groups of scopes (@authenticated is one empty group)
     auth    - the request carries a valid token        scopes - sequence of scopes of the token
     mode    - "filter" | "reject"
     out     - named output type of "Type.field"
     data    - the response's data;  errs - affected paths (sequences of response keys);  nerr - number of errors
     nreq    - number of subgraph requests;  asked - "Type.field"s subgraphs were asked to resolve (key fields left out)

   Safe      nothing a rule forbids is asked of a subgraph or returned
   Faithful  everything else is answered as if the forbidden selections were null: a null is only there when the data is null,
             when the selection is forbidden, or when a forbidden non-null selection below propagates
   Reported  a forbidden selection is reported under its path, and nothing is reported otherwise
   Reject    in reject mode a forbidden selection means no data and no subgraph request at all *)
EXTENDS GqlSemantics, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Has(m, k) == k \in DOMAIN m
Sat(c, rule) == c.auth /\ \E i \in 1..Len(rule) : \A j \in 1..Len(rule[i]) : InSeq(rule[i][j], c.scopes)
TypeOK(c, t) == Has(c.rules, t) => Sat(c, c.rules[t])
FieldOK(c, t, f) == Has(c.rules, t \o "." \o f) => Sat(c, c.rules[t \o "." \o f])
Allowed(c, t, f) == TypeOK(c, t) /\ FieldOK(c, t, f) /\ TypeOK(c, c.out[t \o "." \o f])

\* --- static view: forbidden where it is written (parent type, enclosing type conditions)
WrittenBad(c, n) == n.f # "__typename" /\ (~Allowed(c, n.p, n.f) \/ \E i \in 1..Len(n.fr) : ~TypeOK(c, n.fr[i]))
RECURSIVE Flat(_, _), MayNull(_, _), AnyWritten(_, _)
\* the fields a selection set consists of, fragments opened
Flat(c, sels) == UNION {LET n == sels[i] IN IF ~CondOK(n.c, c.env, 1) THEN {} ELSE IF n.k = "F" THEN {n} ELSE Flat(c, n.s) : i \in 1..Len(sels)}
Below(c, ns) == UNION {Flat(c, n.s) : n \in ns}
Group(ns, n) == {m \in ns : m.key = n.key}
Gone(c, ns, n) == n.f # "__typename" /\ MayNull(c, Group(ns, n))
Pushes(c, ns) == \E n \in ns : n.f # "__typename" /\ c.ft[n.p \o "." \o n.f].t = "N" /\ MayNull(c, Group(ns, n))
\* authorization may turn a field, written at the nodes ns under one response key, into null: it is forbidden, a forbidden
\* non-null field below propagates, or nothing is left of its selection set (an object of which nothing may be asked cannot
\* be fetched)
MayNull(c, ns) == LET b == Below(c, ns) IN \/ \E n \in ns : WrittenBad(c, n)
                                           \/ Pushes(c, b)
                                           \/ b # {} /\ \A n \in b : Gone(c, b, n)
AnyWritten(c, sels) ==
  \E i \in 1..Len(sels) : LET n == sels[i] IN CondOK(n.c, c.env, 1) /\
    IF n.k = "F" THEN WrittenBad(c, n) \/ AnyWritten(c, n.s) ELSE ~TypeOK(c, n.on) \/ AnyWritten(c, n.s)

\* --- comparison of a response with the reference: may = a null is explained by authorization
RECURSIVE ConfObj(_, _, _, _, _), ConfVal(_, _, _, _, _, _)
ConfObj(c, ot, ok, sels, got) ==
  LET g == Collect(c, ot, sels, 1, <<>>, {}).acc IN
  /\ got.t = "o" /\ Len(got.k) = Len(g)
  /\ \A i \in 1..Len(g) : \E j \in 1..Len(got.k) : /\ got.k[j] = g[i].key
       /\ LET f == g[i].fs[1]
              ty == c.ft[ot \o "." \o f.f]
              bad == ~Allowed(c, ot, f.f)
              may == bad \/ MayNull(c, {g[i].fs[m] : m \in 1..Len(g[i].fs)})
          IN IF f.f = "__typename" THEN got.v[j].t = "s" /\ got.v[j].v = "s:" \o ot
             ELSE /\ bad => got.v[j].t = "n"
                  /\ ConfVal(c, ty, c.tab[ok \o "." \o f.f \o "|" \o f.a], MergeSels(g[i].fs, 1), got.v[j], may)
ConfVal(c, ty, val, sels, got, may) ==
  CASE ty.t = "N" -> got.t # "n" /\ ConfVal(c, ty.o, val, sels, got, may)
    [] got.t = "n" -> may \/ val.t = "n"
    [] val.t = "n" -> FALSE
    [] ty.t = "L" -> got.t = "l" /\ Len(got.v) = Len(val.v) /\ \A i \in 1..Len(got.v) : ConfVal(c, ty.o, val.v[i], sels, got.v[i], may)
    [] val.t = "r" -> ConfObj(c, val.c, val.v, sels, got)
    [] val.t = "j" -> Same(got, val.v)
    [] OTHER -> got.t = "s" /\ got.v = val.v

\* --- forbidden fields met by execution, as paths of response keys (topmost ones)
RECURSIVE BadPaths(_, _, _, _, _), ValBad(_, _, _, _)
BadPaths(c, ot, ok, sels, pre) ==
  LET g == Collect(c, ot, sels, 1, <<>>, {}).acc IN
  UNION {LET f == g[i].fs[1]  p == Append(pre, g[i].key) IN
         IF f.f = "__typename" THEN {}
         ELSE IF ~Allowed(c, ot, f.f) THEN {p}
         ELSE ValBad(c, c.tab[ok \o "." \o f.f \o "|" \o f.a], MergeSels(g[i].fs, 1), p) : i \in 1..Len(g)}
ValBad(c, val, sels, p) ==
  CASE val.t = "l" -> UNION {ValBad(c, val.v[i], sels, p) : i \in 1..Len(val.v)}
    [] val.t = "r" -> BadPaths(c, val.c, val.v, sels, p)
    [] OTHER -> {}
Forbidden(c) == BadPaths(c, c.root, c.rootkey, c.sel, <<>>)

PrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
C == Trace[l]
Safe == l = 0 \/ \A i \in 1..Len(C.asked) : C.asked[i][1] = "_" \/ Allowed(C, C.asked[i][1], C.asked[i][2])
Rejected(c) == c.mode = "reject" /\ c.nreq = 0 /\ c.data.t \in {"n", "missing"} /\ c.nerr > 0
Faithful == l = 0 \/ IF C.mode = "reject" /\ AnyWritten(C, C.sel) THEN Rejected(C) \/ (Forbidden(C) = {} /\ ConfObj(C, C.root, C.rootkey, C.sel, C.data))
                     ELSE IF C.data.t = "n" THEN LET b == Flat(C, C.sel) IN Pushes(C, b) \/ \A n \in b : Gone(C, b, n)
                     ELSE ConfObj(C, C.root, C.rootkey, C.sel, C.data)
Reported == l = 0 \/ (/\ C.nerr > 0 => AnyWritten(C, C.sel) \/ Forbidden(C) # {}
                      /\ \A p \in Forbidden(C) : \E i \in 1..Len(C.errs) : PrefixOf(C.errs[i], p))
=============================================================================
