---------------------------- MODULE GqlSemantics ----------------------------
(* Reference semantics of GraphQL execution (October 2021, section 6) over an abstract data graph.

   A case c has: root, rootkey  - root type name and the identity of the root object
                 sel            - selection set; nodes [k |-> "F" field | "I" inline | "S" spread, ...]
                 env            - boolean variables used by @skip/@include
                 tab            - data graph: "Type#i.field|args" -> value
                 ft             - "Type.field" -> declared type     poss - abstract/any type -> possible object types
   Values:  [t |-> "n"] null, [t |-> "s", v] scalar, [t |-> "l", v] list, [t |-> "r", c, v] object reference,
            [t |-> "e"] a field error raised by the resolver.
   Results: [t |-> "n"], [t |-> "s", v], [t |-> "l", v], [t |-> "o", k, v];  [t |-> "x"] null that must propagate. *)
EXTENDS Naturals, Sequences, TLC

NullV == [t |-> "n"]
Bubble == [t |-> "x"]

RECURSIVE CondOK(_, _, _)
CondOK(conds, env, i) ==
  IF i > Len(conds) THEN TRUE
  ELSE LET cd == conds[i]
           b == IF cd.v = "T" THEN TRUE ELSE IF cd.v = "F" THEN FALSE
                ELSE env[SubSeq(cd.v, 2, Len(cd.v))] = "T"
       IN (IF cd.d = "skip" THEN ~b ELSE b) /\ CondOK(conds, env, i + 1)

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

\* CollectFields: acc is a sequence of [key, fields] in order of first appearance; returns [acc, vis]
AddField(acc, node) ==
  IF \E i \in 1..Len(acc) : acc[i].key = node.key
  THEN [i \in 1..Len(acc) |-> IF acc[i].key = node.key THEN [key |-> node.key, fs |-> Append(acc[i].fs, node)] ELSE acc[i]]
  ELSE Append(acc, [key |-> node.key, fs |-> <<node>>])

RECURSIVE Collect(_, _, _, _, _, _)
Collect(c, ot, sels, i, acc, vis) ==
  IF i > Len(sels) THEN [acc |-> acc, vis |-> vis]
  ELSE LET n == sels[i] IN
    IF ~CondOK(n.c, c.env, 1) THEN Collect(c, ot, sels, i + 1, acc, vis)
    ELSE CASE n.k = "F" -> Collect(c, ot, sels, i + 1, AddField(acc, n), vis)
         [] n.k = "I" -> IF InSeq(ot, c.poss[n.on])
                         THEN LET r == Collect(c, ot, n.s, 1, acc, vis) IN Collect(c, ot, sels, i + 1, r.acc, r.vis)
                         ELSE Collect(c, ot, sels, i + 1, acc, vis)
         [] n.k = "S" -> IF n.nm \in vis THEN Collect(c, ot, sels, i + 1, acc, vis)
                         ELSE IF InSeq(ot, c.poss[n.on])
                              THEN LET r == Collect(c, ot, n.s, 1, acc, vis \cup {n.nm}) IN Collect(c, ot, sels, i + 1, r.acc, r.vis)
                              ELSE Collect(c, ot, sels, i + 1, acc, vis \cup {n.nm})

RECURSIVE MergeSels(_, _)
MergeSels(fs, i) == IF i > Len(fs) THEN <<>> ELSE fs[i].s \o MergeSels(fs, i + 1)

RECURSIVE ExecSel(_, _, _, _), Complete(_, _, _, _), CompleteNullable(_, _, _, _)

\* executes a selection set on object (type ot, identity ok)
ExecSel(c, ot, ok, sels) ==
  LET g == Collect(c, ot, sels, 1, <<>>, {}).acc
      vals == [i \in 1..Len(g) |->
                 LET f == g[i].fs[1] IN
                 IF f.f = "__typename" THEN [t |-> "s", v |-> "s:" \o ot]
                 ELSE Complete(c, c.ft[ot \o "." \o f.f], c.tab[ok \o "." \o f.f \o "|" \o f.a], MergeSels(g[i].fs, 1))]
  IN IF \E i \in 1..Len(g) : vals[i].t = "x" THEN Bubble
     ELSE [t |-> "o", k |-> [i \in 1..Len(g) |-> g[i].key], v |-> vals]

\* value completion with null propagation: a non-null position that completes to null bubbles
Complete(c, ty, val, sels) ==
  IF ty.t = "N" THEN LET r == CompleteNullable(c, ty.o, val, sels) IN IF r.t = "n" THEN Bubble ELSE r
  ELSE LET r == CompleteNullable(c, ty, val, sels) IN IF r.t = "x" THEN NullV ELSE r

CompleteNullable(c, ty, val, sels) ==
  IF val.t \in {"n", "e"} THEN NullV
  ELSE IF ty.t = "L"
  THEN LET vs == [i \in 1..Len(val.v) |-> Complete(c, ty.o, val.v[i], sels)]
       IN IF \E i \in 1..Len(vs) : vs[i].t = "x" THEN Bubble ELSE [t |-> "l", v |-> vs]
  ELSE IF val.t = "r" THEN ExecSel(c, val.c, val.v, sels)
  ELSE IF val.t = "j" THEN val.v                  \* a custom scalar's JSON value, passed through untouched
  ELSE [t |-> "s", v |-> val.v]

Run(c) == LET r == ExecSel(c, c.root, c.rootkey, c.sel) IN IF r.t = "x" THEN NullV ELSE r

RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "n" -> TRUE
       [] a.t = "s" -> a.v = b.v
       [] a.t = "l" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i])
       \* JSON objects are unordered, but no key may be missing, extra or duplicated
       [] a.t = "o" -> /\ Len(a.k) = Len(b.k)
                       /\ \A i \in 1..Len(a.k) : \E j \in 1..Len(b.k) : a.k[i] = b.k[j] /\ Same(a.v[i], b.v[j])
       [] OTHER -> FALSE

\* does executing the selection meet a field error (a resolver that failed, or null in a non-null position)?
RECURSIVE SelErr(_, _, _, _), ValErr(_, _, _, _)
SelErr(c, ot, ok, sels) ==
  LET g == Collect(c, ot, sels, 1, <<>>, {}).acc IN
  \E i \in 1..Len(g) : LET f == g[i].fs[1] IN
     f.f # "__typename" /\ ValErr(c, c.ft[ot \o "." \o f.f], c.tab[ok \o "." \o f.f \o "|" \o f.a], MergeSels(g[i].fs, 1))
ValErr(c, ty, val, sels) ==
  CASE val.t = "e" -> TRUE
    [] val.t = "n" -> ty.t = "N"
    [] ty.t = "N" -> ValErr(c, ty.o, val, sels)
    [] ty.t = "L" -> \E i \in 1..Len(val.v) : ValErr(c, ty.o, val.v[i], sels)
    [] val.t = "r" -> SelErr(c, val.c, val.v, sels)
    [] OTHER -> FALSE
Errs(c) == SelErr(c, c.root, c.rootkey, c.sel)

\* path (response keys and list positions, as strings) leads to a position where a field error occurs
RECURSIVE SelPath(_, _, _, _, _, _), ValPath(_, _, _, _, _, _)
SelPath(c, ot, ok, sels, path, i) ==
  LET g == Collect(c, ot, sels, 1, <<>>, {}).acc IN
  \E j \in 1..Len(g) : /\ g[j].key = path[i]
     /\ LET f == g[j].fs[1] IN f.f # "__typename" /\ ValPath(c, c.ft[ot \o "." \o f.f], c.tab[ok \o "." \o f.f \o "|" \o f.a], MergeSels(g[j].fs, 1), path, i + 1)
ValPath(c, ty, val, sels, path, i) ==
  CASE val.t = "e" -> TRUE
    [] val.t = "n" -> ty.t = "N" /\ i > Len(path)
    [] ty.t = "N" -> ValPath(c, ty.o, val, sels, path, i)
    [] i > Len(path) -> ValErr(c, ty, val, sels)
    [] ty.t = "L" -> \E j \in 1..Len(val.v) : ToString(j - 1) = path[i] /\ ValPath(c, ty.o, val.v[j], sels, path, i + 1)
    [] val.t = "r" -> SelPath(c, val.c, val.v, sels, path, i)
    [] OTHER -> FALSE
PathOK(c, path) == SelPath(c, c.root, c.rootkey, c.sel, path, 1)
=============================================================================
