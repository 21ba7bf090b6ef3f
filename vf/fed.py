"""Federation toolkit: supergraph parsing, subgraph schemas, a deterministic data world, mock subgraphs, query generation."""
import json, re, random, hashlib, asyncio, time, copy
from graphql import (parse, build_ast_schema, print_ast, visit, Visitor, REMOVE, validate, execute, GraphQLSchema,
                     GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType, GraphQLEnumType, GraphQLScalarType,
                     GraphQLInputObjectType, GraphQLNonNull, GraphQLList, GraphQLError, get_named_type, is_leaf_type,
                     is_composite_type, is_abstract_type, is_object_type, is_input_object_type, default_field_resolver)
from graphql.language import ast as A
from graphql.execution.values import get_argument_values, get_variable_values
from .net import Server, Reply, DROP

BUILTIN = {"String", "Int", "Float", "Boolean", "ID"}
INTERNAL_PREFIX = ("join__", "link__", "core__", "federation__")


def sa(n, k, v):
    object.__setattr__(n, k, v)


def dargs(d):
    res = {}
    for a in d.arguments or ():
        v = a.value
        if isinstance(v, A.BooleanValueNode):
            res[a.name.value] = v.value
        elif hasattr(v, "value"):
            res[a.name.value] = v.value
    return res


def dirs(node, name):
    return [dargs(d) for d in (node.directives or []) if d.name.value == name]


def parse_fieldset(s):
    return parse("{" + s + "}", no_location=True).definitions[0].selection_set


def h(*parts):
    return int.from_bytes(hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=8).digest(), "big")


def type_str(t):
    return print_ast(t)


class Supergraph:
    def __init__(self, sdl):
        self.sdl = sdl
        self.doc = parse(sdl, no_location=True)
        self.defs = {}
        self.roots = {"query": "Query", "mutation": "Mutation", "subscription": "Subscription"}
        for d in self.doc.definitions:
            if isinstance(d, A.SchemaDefinitionNode):
                for o in d.operation_types:
                    self.roots[o.operation.value] = o.type.name.value
            elif hasattr(d, "name") and isinstance(d, A.TypeDefinitionNode):
                self.defs[d.name.value] = d
        self.graphs = {}
        for v in self.defs["join__Graph"].values:
            a = dirs(v, "join__graph")[0]
            self.graphs[v.name.value] = (a["name"], a["url"])
        self.api = build_ast_schema(self._api_doc(), assume_valid=True)
        self.sub = {}
        self.meta = {}
        for g in self.graphs:
            self._subgraph(g)

    def graph_of_name(self, name):
        for g, (n, _) in self.graphs.items():
            if n == name:
                return g

    # -- API schema
    def _api_doc(self):
        out = []
        keep = {"deprecated", "specifiedBy", "oneOf"}

        def inacc(n):
            return any(d.name.value == "inaccessible" for d in (n.directives or []))

        def strip(n):
            n = copy.copy(n)
            sa(n, "directives", tuple(d for d in (n.directives or []) if d.name.value in keep))
            return n

        hidden = {n for n, d in self.defs.items() if inacc(d)}
        for d in self.doc.definitions:
            if isinstance(d, A.SchemaDefinitionNode):
                d = strip(d)
                sa(d, "operation_types", tuple(o for o in d.operation_types or () if o.type.name.value in self.defs))
                out.append(d)
                continue
            if isinstance(d, A.DirectiveDefinitionNode):
                continue
            name = d.name.value
            if name.startswith(INTERNAL_PREFIX) or name in hidden:
                continue
            d = strip(d)
            if hasattr(d, "fields") and d.fields is not None:
                fs = []
                for f in d.fields or ():
                    if inacc(f):
                        continue
                    f = strip(f)
                    if getattr(f, "arguments", None):
                        sa(f, "arguments", tuple(strip(a) for a in f.arguments if not inacc(a)))
                    fs.append(f)
                sa(d, "fields", tuple(fs))
            if hasattr(d, "values") and d.values is not None:
                sa(d, "values", tuple(strip(v) for v in d.values if not inacc(v)))
            if hasattr(d, "types") and d.types is not None:
                sa(d, "types", tuple(t for t in d.types if t.name.value not in hidden))
            if hasattr(d, "interfaces") and d.interfaces is not None:
                sa(d, "interfaces", tuple(t for t in d.interfaces if t.name.value not in hidden))
            out.append(d)
        return A.DocumentNode(definitions=tuple(out))

    # -- one subgraph
    def _subgraph(self, g):
        out = []
        meta = {"keys": {}, "external": set(), "requires": {}, "provides": {}, "iobj": set(), "owned": {}, "unresolvable": {}}
        roots_present = []
        for name, d in self.defs.items():
            if name.startswith(INTERNAL_PREFIX):
                continue
            jts = [j for j in dirs(d, "join__type") if j.get("graph") == g]
            alljt = dirs(d, "join__type")
            if not jts and alljt:
                continue
            nd = copy.copy(d)
            sa(nd, "directives", ())
            if isinstance(d, (A.ObjectTypeDefinitionNode, A.InterfaceTypeDefinitionNode)):
                iobj = any(j.get("isInterfaceObject") for j in jts)
                fs = []
                for f in d.fields or ():
                    jf = dirs(f, "join__field")
                    mine = [j for j in jf if j.get("graph") == g]
                    if jf and not mine:
                        continue
                    nf = copy.copy(f)
                    sa(nf, "directives", ())
                    if nf.arguments:
                        sa(nf, "arguments", tuple(self._strip_dirs(a) for a in nf.arguments))
                    key = (name, f.name.value)
                    j = mine[0] if mine else {}
                    if j.get("type"):
                        sa(nf, "type", parse("type X { f: %s }" % j["type"], no_location=True).definitions[0].fields[0].type)
                    if j.get("external") or j.get("usedOverridden"):
                        meta["external"].add(key)
                    if j.get("requires"):
                        meta["requires"][key] = parse_fieldset(j["requires"])
                    if j.get("provides"):
                        meta["provides"][key] = parse_fieldset(j["provides"])
                    fs.append(nf)
                if not fs:
                    continue
                sa(nd, "fields", tuple(fs))
                impl = [j["interface"] for j in dirs(d, "join__implements") if j.get("graph") == g]
                sa(nd, "interfaces", tuple(A.NamedTypeNode(name=A.NameNode(value=i)) for i in impl))
                if iobj:
                    nd = A.ObjectTypeDefinitionNode(name=d.name, directives=(), interfaces=(), fields=nd.fields)
                    meta["iobj"].add(name)
                for j in jts:
                    if j.get("key"):
                        meta["keys"].setdefault(name, []).append((parse_fieldset(j["key"]), j.get("resolvable", True)))
                if name in self.roots.values():
                    roots_present.append(name)
            elif isinstance(d, A.UnionTypeDefinitionNode):
                mem = dirs(d, "join__unionMember")
                if mem:
                    ms = [j["member"] for j in mem if j.get("graph") == g]
                    sa(nd, "types", tuple(A.NamedTypeNode(name=A.NameNode(value=m)) for m in ms))
            elif isinstance(d, A.EnumTypeDefinitionNode):
                sa(nd, "values", tuple(self._strip_dirs(v) for v in d.values
                                  if not dirs(v, "join__enumValue") or any(j.get("graph") == g for j in dirs(v, "join__enumValue"))))
            elif isinstance(d, A.InputObjectTypeDefinitionNode):
                sa(nd, "fields", tuple(self._strip_dirs(f) for f in d.fields
                                  if not dirs(f, "join__field") or any(j.get("graph") == g for j in dirs(f, "join__field"))))
            out.append(nd)
        entities = [n for n, ks in meta["keys"].items() if any(r for _, r in ks)]
        objs = {d.name.value for d in out if isinstance(d, A.ObjectTypeDefinitionNode)}
        extra = "scalar _Any\ntype _Service { sdl: String }\n"
        ents = [e for e in entities if e in objs]
        q = self.roots["query"]
        qf = "_service: _Service\n"
        if ents:
            extra += "union _Entity = " + " | ".join(ents) + "\n"
            qf += "_entities(representations: [_Any!]!): [_Entity]!\n"
        if q in roots_present:
            extra += f"extend type {q} {{ {qf} }}\n"
        else:
            extra += f"type {q} {{ {qf} }}\n"
        sch = f"schema {{ query: {q}"
        for k in ("mutation", "subscription"):
            if self.roots[k] in roots_present:
                sch += f" {k}: {self.roots[k]}"
        sch += " }\n"
        from graphql import extend_schema
        doc = A.DocumentNode(definitions=tuple(out) + parse(extra + sch, no_location=True).definitions)
        base = A.DocumentNode(definitions=tuple(x for x in doc.definitions if not isinstance(x, A.ObjectTypeExtensionNode)))
        s = build_ast_schema(base, assume_valid=True)
        ext = A.DocumentNode(definitions=tuple(x for x in doc.definitions if isinstance(x, A.ObjectTypeExtensionNode)))
        if ext.definitions:
            s = extend_schema(s, ext, assume_valid=True)
        self.sub[g] = s
        self.meta[g] = meta

    @staticmethod
    def _strip_dirs(n):
        n = copy.copy(n)
        sa(n, "directives", ())
        return n

    # -- helpers
    def possible(self, tname):
        t = self.api.type_map.get(tname)
        if t is None:
            return []
        if is_abstract_type(t):
            return [x.name for x in self.api.get_possible_types(t)]
        return [tname]

    def graphs_resolving(self, tname, fname):
        """graphs where (type, field) exists and is not external"""
        res = []
        for g in self.graphs:
            t = self.sub[g].type_map.get(tname)
            if t is not None and getattr(t, "fields", None) and fname in t.fields and (tname, fname) not in self.meta[g]["external"]:
                res.append(g)
        return res


class Obj:
    __slots__ = ("t", "i", "rep", "prov")

    def __init__(self, t, i, rep=None, prov=None):
        self.t, self.i, self.rep, self.prov = t, i, rep, prov

    @property
    def key(self):
        return f"{self.t}#{self.i}"


class JS:
    """a value of a custom scalar that is not a plain string"""

    def __init__(self, v):
        self.v = v


def raw(v):
    if isinstance(v, JS):
        return v.v
    return [raw(x) for x in v] if isinstance(v, list) else v


# endings of strings: what JSON and GraphQL have to escape
ODD = ["", "", "", "", "", "", ' "q"', "\\", "\u00e9\u2603", "\n\t", "\U0001d11e", "\u2028", " \u0007", "{}[],:", "\\u0041", " " * 3 + "x" * 70]


class World:
    """Deterministic data: every field of every object identity has one value, independent of the subgraph asked."""

    def __init__(self, sg, seed, n=3, nulls=0.12, maxlist=3):
        self.sg, self.seed, self.n, self.nulls, self.maxlist = sg, seed, n, nulls, maxlist
        self.keyfields = set()
        for g, m in sg.meta.items():
            for t, ks in m["keys"].items():
                for sel, _ in ks:
                    self._mark_keys(t, sel)

    def _mark_keys(self, t, sel):
        for s in sel.selections:
            if isinstance(s, A.FieldNode):
                for pt in set([t] + self.sg.possible(t)):
                    self.keyfields.add((pt, s.name.value))
                if s.selection_set:
                    d = self.sg.defs.get(t)
                    f = next((f for f in (d.fields if d else []) if f.name.value == s.name.value), None)
                    if f is not None:
                        n = f.type
                        while not isinstance(n, A.NamedTypeNode):
                            n = n.type
                        self._mark_keys(n.name.value, s.selection_set)
            else:
                self._mark_keys(s.type_condition.name.value if s.type_condition else t, s.selection_set)

    def field_type(self, t, f):
        d = self.sg.defs.get(t)
        for fd in d.fields or ():
            if fd.name.value == f:
                return fd.type
        # interface-object field
        for it in getattr(d, "interfaces", ()) or ():
            r = self.field_type(it.name.value, f)
            if r is not None:
                return r
        return None

    def concrete(self, t, f, named):
        """concrete types a value of field t.f may have"""
        api = self.sg.possible(named)
        cands = None
        for g in self.sg.graphs:
            names = {t} | ({i.name.value for i in getattr(self.sg.defs[t], "interfaces", ()) or ()} & self.sg.meta[g]["iobj"])
            for tn in names:
                st = self.sg.sub[g].type_map.get(tn)
                if st is None or f not in getattr(st, "fields", {}):
                    continue
                nt = get_named_type(st.fields[f].type)
                if nt.name in self.sg.meta[g]["iobj"]:
                    pos = set(self.sg.possible(nt.name))
                elif is_abstract_type(nt):
                    pos = {x.name for x in self.sg.sub[g].get_possible_types(nt)}
                else:
                    pos = {nt.name}
                cands = pos if cands is None else (cands & pos)
        res = [x for x in api if cands is None or x in cands]
        return res or api

    def value(self, t, i, f, args):
        """-> nested python value: None | scalar | Obj | list"""
        ty = self.field_type(t, f)
        ak = json.dumps(args, sort_keys=True, default=str) if args else ""
        return self._val(ty, (t, f) in self.keyfields, t, i, f, ak, 0, True)

    def _val(self, ty, iskey, t, i, f, ak, depth, nullable, pos=""):
        if isinstance(ty, A.NonNullTypeNode):
            return self._val(ty.type, iskey, t, i, f, ak, depth, False, pos)
        hh = h(self.seed, t, i, f, ak, pos)
        if nullable and not iskey and (hh >> 8) % 1000 < self.nulls * 1000:
            return None
        if isinstance(ty, A.ListTypeNode):
            if iskey:
                ln = 1
            else:
                ln = (hh >> 20) % (self.maxlist + 1)
            return [self._val(ty.type, iskey, t, i, f, ak, depth + 1, True, pos + f".{k}") for k in range(ln)]
        n = ty.name.value
        d = self.sg.defs.get(n)
        if n in ("ID", "String"):
            if iskey:
                return f"{t}{i}.{f}" if f != "id" else f"{t}{i}"
            v = f"{t}{i}.{f}{pos}"
            return (v + ak if ak else v) + ODD[(hh >> 12) % len(ODD)]
        if n == "Int":
            return i * 7 + 100 if iskey else (hh % 1000 - 200 if (hh >> 12) % 8 else (0, -1, 2147483647, -2147483648)[hh % 4])
        if n == "Float":
            return (hh % 1000) / 4 + 0.25 if (hh >> 12) % 8 else (0.1, 1e21, -1.5e-7, 123456789.125)[hh % 4]
        if n == "Boolean":
            return bool((hh >> 5) & 1)
        if isinstance(d, A.EnumTypeDefinitionNode):
            vals = [v.name.value for v in d.values if v.name.value in self.sg.api.type_map[n].values] if n in self.sg.api.type_map else [v.name.value for v in d.values]
            for g in self.sg.graphs:
                st = self.sg.sub[g].type_map.get(n)
                ot = self.sg.sub[g].type_map.get(t)
                if st is not None and ot is not None and f in getattr(ot, "fields", {}):
                    vals = [v for v in vals if v in st.values]
            return vals[hh % len(vals)] if vals else None
        if d is None or isinstance(d, A.ScalarTypeDefinitionNode):
            if d is None or iskey or (hh >> 12) % 4 == 0:
                return f"{t}{i}.{f}~{n}"
            return JS(({"b": [1, {"a": None, "é": "x\n\"y\""}], "a": f"{t}{i}"}, [], [1, [2.5, None], {}], 9007199254740993, True, {"__typename": "X", "k": -1e-3}, {"z": {"y": {"x": []}}})[hh % 7])
        cs = self.concrete(t, f, n)
        if not cs:
            return None
        c = cs[(hh >> 30) % len(cs)]
        if iskey:
            return Obj(c, i)
        return Obj(c, 1 + (hh >> 40) % self.n)

    def project(self, o, sel):
        """evaluates a fieldset on an object (for keys / requires)"""
        out = {}
        for s in sel.selections:
            if isinstance(s, A.FieldNode):
                nm = s.name.value
                if nm == "__typename":
                    continue
                v = self.value(o.t, o.i, nm, self._litargs(o.t, nm, s))
                out[nm] = self._proj_val(v, s.selection_set)
            elif isinstance(s, A.InlineFragmentNode):
                tc = s.type_condition.name.value if s.type_condition else o.t
                if o.t in self.sg.possible(tc) or tc == o.t:
                    out.update(self.project(o, s.selection_set))
        return out

    def _litargs(self, t, f, node):
        # literal args plus schema defaults, through the API/sub schema definition
        for sch in [self.sg.api] + list(self.sg.sub.values()):
            ty = sch.type_map.get(t)
            if ty is not None and f in getattr(ty, "fields", {}):
                return get_argument_values(ty.fields[f], node)
        return {}

    def _proj_val(self, v, sel):
        if isinstance(v, list):
            return [self._proj_val(x, sel) for x in v]
        if isinstance(v, Obj):
            return self.project(v, sel) if sel else v.key
        return raw(v)

    def key_projections(self, tname, keys):
        out = []
        for ct in self.sg.possible(tname) or [tname]:
            for i in range(1, self.n + 1):
                for sel, _ in keys:
                    try:
                        w = self.project(Obj(ct, i), sel)
                    except Exception:
                        continue
                    if w:
                        out.append(w)
        return out

    def find(self, tname, rep, keys):
        """the identity a representation denotes"""
        for ct in self.sg.possible(tname) or [tname]:
            for i in range(1, self.n + 1):
                o = Obj(ct, i)
                for sel, _ in keys:
                    try:
                        want = self.project(o, sel)
                    except Exception:
                        continue
                    if want and covers(rep, want):
                        return o
        return None


def covers(rep, want):
    """rep (a representation) contains everything in want with equal values"""
    if isinstance(want, dict):
        return isinstance(rep, dict) and all(k in rep and covers(rep[k], v) for k, v in want.items())
    if isinstance(want, list):
        return isinstance(rep, list) and len(rep) == len(want) and all(covers(a, b) for a, b in zip(rep, want))
    if isinstance(want, bool) or isinstance(rep, bool):
        return want is rep or want == rep and type(want) == type(rep)
    return rep == want


class Poison(GraphQLError):
    pass


class MockSubgraph:
    """Executes subgraph requests of one graph against the world, and objects to requests a real subgraph would reject."""

    def __init__(self, sg, g, world, mutate=None):
        self.sg, self.g, self.world = sg, g, world
        self.schema = sg.sub[g]
        self.meta = sg.meta[g]
        self.doc_cache = {}
        self.mutate = mutate
        self.facts = []      # what the last request asked for, judged by spec/SubgraphContract.tla

    def prepare(self, q):
        if q not in self.doc_cache:
            try:
                doc = parse(q)
                errs = validate(self.schema, doc)
            except GraphQLError as e:
                doc, errs = None, [e]
            self.doc_cache[q] = (doc, errs)
        return self.doc_cache[q]

    def run(self, body):
        """-> (response dict, problems list)"""
        q = body.get("query", "")
        doc, errs = self.prepare(q)
        self.facts = facts = [{"k": "doc", "valid": not errs}]
        if errs:
            return {"errors": [{"message": "VALIDATION " + e.message} for e in errs]}, ["invalid subgraph request: " + errs[0].message + " :: " + q]
        problems = []
        served = []

        def resolver(src, info, **args):
            f = info.field_name
            if f == "_service":
                return {"sdl": ""}
            if f == "_entities":
                out = []
                for rep in args["representations"]:
                    tn = rep.get("__typename")
                    keys = [k for k in self.meta["keys"].get(tn, []) if k[1]]
                    o = self.world.find(tn, rep, keys) if keys else None
                    facts.append({"k": "rep", "t": str(tn), "rep": enc_json(rep), "keys": [enc_json(x) for x in self.world.key_projections(tn, keys)]})
                    if o is None:
                        problems.append(f"representation {json.dumps(rep)} in {self.g} matches no resolvable key/entity")
                        out.append(None)
                    else:
                        o.rep = rep
                        out.append(o)
                return out
            parent = info.parent_type.name
            root = src is None or not isinstance(src, Obj)
            o = Obj(parent, 0) if root else src
            key = (parent, f)
            facts.append({"k": "field", "t": parent, "f": f, "prov": bool(o.prov is not None and any(s.name.value == f for s in self._flat(o.prov, o.t))),
                          "key": (o.t, f) in self.world.keyfields or (parent, f) in self.world.keyfields, "root": root})
            prov = None
            if key in self.meta["external"] and not root:
                ok = (o.t, f) in self.world.keyfields or (parent, f) in self.world.keyfields
                if o.prov is not None:
                    for s in self._flat(o.prov, o.t):
                        if s.name.value == f:
                            ok, prov = True, s.selection_set
                if not ok:
                    problems.append(f"external field {parent}.{f} asked from {self.g}")
                    raise Poison("EXTERNAL " + f)
            elif o.prov is not None:
                for s in self._flat(o.prov, o.t):
                    if s.name.value == f:
                        prov = s.selection_set
            rq = self.meta["requires"].get(key)
            if rq is not None:
                want = self.world.project(o, rq)
                facts.append({"k": "req", "t": parent, "f": f, "want": enc_json(want), "rep": enc_json(o.rep)})
                if o.rep is None or not covers(o.rep, want):
                    problems.append(f"field {parent}.{f} of {self.g} needs {json.dumps(want)} but representation is {json.dumps(o.rep)}")
                    raise Poison("REQUIRES " + f)
            if root and self.mutate:
                v = self.mutate(self.g, parent, f, args)
                if v is not NotImplemented:
                    return v
            v = raw(self.world.value(o.t, o.i, f, args))
            served.append((o.t, o.i, f))
            pr = self.meta["provides"].get(key)
            return self._attach(v, prov, pr)

        def type_resolver(v, info, abstract):
            if abstract.name == "_Entity":
                for t in [v.t] + list(self.meta["iobj"]):
                    if t in self.schema.type_map and (t == v.t or v.t in self.sg.possible(t)):
                        if v.rep is not None and v.rep.get("__typename") in self.meta["iobj"]:
                            return v.rep["__typename"]
                        return t
            return v.t

        r = execute(self.schema, doc, root_value=None, variable_values=body.get("variables") or {}, operation_name=body.get("operationName"),
                    field_resolver=resolver, type_resolver=type_resolver)
        if asyncio.iscoroutine(r):
            raise RuntimeError("async")
        out = {"data": r.data}
        if r.errors:
            out["errors"] = [{"message": e.message, "path": e.path} for e in r.errors]
            for e in r.errors:
                if not isinstance(e.original_error, Poison):
                    problems.append("mock execution error: " + e.message)
        return out, problems

    def _flat(self, sel, t):
        for s in sel.selections:
            if isinstance(s, A.FieldNode):
                yield s
            elif isinstance(s, A.InlineFragmentNode):
                tc = s.type_condition.name.value if s.type_condition else t
                if tc == t or t in self.sg.possible(tc):
                    yield from self._flat(s.selection_set, t)

    def _attach(self, v, a, b):
        if a is None and b is None:
            return v
        if isinstance(v, list):
            return [self._attach(x, a, b) for x in v]
        if isinstance(v, Obj):
            sels = []
            for s in (a, b):
                if s is not None:
                    sels += list(s.selections)
            return Obj(v.t, v.i, v.rep, A.SelectionSetNode(selections=tuple(sels)))
        return v


# custom scalars and leaf serialisation in graphql-core accept strings as they are


class Subgraphs:
    """One HTTP server hosting all mock subgraphs of a supergraph under /<GRAPH>."""

    def __init__(self, sg, world, hook=None, on_event=None, mutate=None):
        self.sg, self.world, self.hook = sg, world, hook
        self.mocks = {g: MockSubgraph(sg, g, world, mutate) for g in sg.graphs}
        self.server = Server(self.handle)
        self.log = []
        self.problems = []

    async def start(self):
        await self.server.start()
        return self

    async def stop(self):
        await self.server.stop()

    def sdl(self):
        s = self.sg.sdl
        for g, (n, _) in self.sg.graphs.items():
            s, k = re.subn(r'(join__graph\(\s*name:\s*"%s"\s*,?\s*url:\s*)"[^"]*"' % re.escape(n), lambda m: f'{m.group(1)}"{self.server.url}/{g}"', s)
            assert k == 1, (n, k)
        return s

    def overrides(self):
        return {"override_subgraph_urls": {"subgraphs": {n: {"url": f"{self.server.url}/{g}"} for g, (n, _) in self.sg.graphs.items()}}}

    async def handle(self, req):
        g = req.path.strip("/").split("?")[0]
        body = req.json() or {}
        ev = dict(g=g, body=body, t=time.time(), headers=req.headers, end=None)
        self.log.append(ev)
        if self.hook:
            r = self.hook(g, body, req)
            if asyncio.iscoroutine(r):
                r = await r
            if r is not None:
                ev["end"] = time.time()
                return r
        out, problems = self.mocks[g].run(body)
        ev["resp"] = out
        ev["facts"] = self.mocks[g].facts
        if problems:
            ev["problems"] = problems
            self.problems += problems
        ev["end"] = time.time()
        return Reply(200, [("content-type", "application/json")], out)


# ---------------------------------------------------------------- query generation
class QGen:
    def __init__(self, sg, rng, depth=4, width=4, fragments=True, conds=True, root="query", typename=True, alias=0.25, args=True, avoid=()):
        self.avoid = avoid
        self.sg, self.rng, self.depth, self.width = sg, rng, depth, width
        self.aliasargs = bool(re.search(r'requires: "[^"]*\(', sg.sdl))
        self.fragments, self._conds, self.root, self.typename, self.alias, self.args = fragments, conds, root, typename, alias, args

    def gen(self):
        # documented router defect (known finding): a conditional type-narrowing fragment can leave an object without
        # __typename; queries therefore either use no conditions or select __typename on abstract types
        self.conds = self._conds and self.rng.random() < 0.7
        # another one: an object reached both under nested conditions and without them. Nested conditions therefore only
        # come with unique response keys
        self.nested = self.rng.random() < 0.4
        self.incond = 0
        self.vars = {}      # name -> (type str, value or MISSING)
        self.frags = {}
        self.ac = 0
        t = self.sg.api.type_map[self.sg.roots[self.root]]
        sel = self.selset(t, self.depth, top=True)
        vs = ", ".join(f"${n}: {ty}" + (f" = {json.dumps(df)}" if df is not None else "") for n, (ty, _, df) in self.vars.items())
        fr = "\n".join(f"fragment {n} on {t} {b}" for n, (t, b) in self.frags.items() if b)
        name = self.rng.choice(["Q", "Op"])
        q = f"{self.root} {name}{'(' + vs + ')' if vs else ''} {sel}\n{fr}"
        variables = {n: v for n, (ty, v, df) in self.vars.items() if v is not Ellipsis}
        return q, variables

    def boolvar(self):
        n = f"b{self.rng.randint(1, 3)}"
        if n not in self.vars:
            if self.rng.random() < 0.2:
                self.vars[n] = ("Boolean!", Ellipsis, self.rng.random() < 0.5)
            else:
                self.vars[n] = ("Boolean!", self.rng.random() < 0.5, None)
        return "$" + n

    def dirs(self):
        if not self.conds or self.rng.random() > 0.14 or (self.incond and not self.nested):
            return ""
        out = ""
        for d in self.rng.sample(["skip", "include"], self.rng.choice([1, 1, 1, 2])):
            v = self.boolvar() if self.rng.random() < 0.75 else self.rng.choice(["true", "false"])
            out += f" @{d}(if: {v})"
        return out

    def selset(self, t, depth, top=False):
        rng = self.rng
        items = []
        n = rng.randint(1, self.width)
        fields = [f for f in getattr(t, "fields", {}).items() if f"{t.name}.{f[0]}" not in self.avoid]
        for _ in range(n):
            r = rng.random()
            if self.fragments and r < (0.35 if is_abstract_type(t) else 0.12) and depth > 0:
                items.append(self.fragment(t, depth))
            elif self.typename and (r > 0.93 or not fields):
                items.append(("tn_: " if rng.random() < 0.1 else "") + "__typename" + (self.dirs() if rng.random() < 0.3 else ""))
            elif fields:
                s = self.field(rng, fields, depth)
                if s:
                    items.append(s)
        if not items:
            leaf = [f for f in fields if is_leaf_type(get_named_type(f[1].type)) and not any(isinstance(a.type, GraphQLNonNull) and a.ast_node.default_value is None for a in f[1].args.values())]
            items.append(rng.choice(leaf)[0] if leaf else "__typename")
        if self.conds and is_abstract_type(t):
            items.append("__typename")
        return "{ " + " ".join(items) + " }"

    def field(self, rng, fields, depth):
        for _ in range(5):
            nm, f = rng.choice(fields)
            nt = get_named_type(f.type)
            if not is_leaf_type(nt) and depth <= 0:
                continue
            dd = self.dirs()
            self.incond += 1 if dd else 0
            sub = "" if is_leaf_type(nt) else " " + self.selset(nt, depth - 1)
            self.incond -= 1 if dd else 0
            a = self.arguments(f)
            al = ""
            if self.conds and self.nested and sub:
                self.ac += 1
                al = f"f{self.ac}: "
            elif rng.random() < self.alias:
                al = rng.choice(["a_", "b_", "x_", nm]) + ": "
            if a and (not al or al == nm + ": ") and (self.aliasargs or rng.random() < 0.5):
                # (requires with arguments vs. a client's use of the same field: known finding)
                self.ac += 1
                al = f"f{self.ac}: "
            return al + nm + a + dd + sub
        return None

    def fragment(self, t, depth):
        rng = self.rng
        cands = []
        for n, c in self.sg.api.type_map.items():
            if is_composite_type(c) and not n.startswith("_") and set(self.sg.possible(n)) & set(self.sg.possible(t.name)):
                cands.append(c)
        c = rng.choice(cands) if cands else t
        if rng.random() < 0.3:
            n = f"F{rng.randint(1, 4)}"
            if n not in self.frags:
                self.frags[n] = (c.name, "")
                self.incond += 1
                self.frags[n] = (c.name, self.selset(c, depth - 1))
                self.incond -= 1
                return f"...{n}{'' if t.name in self.sg.roots.values() else self.dirs()}"
            ft, b = self.frags[n]
            if b and set(self.sg.possible(ft)) & set(self.sg.possible(t.name)):
                return f"...{n}{'' if t.name in self.sg.roots.values() else self.dirs()}"
        cond = f" on {c.name}" if rng.random() < 0.93 or c.name != t.name else ""
        dd = "" if t.name in self.sg.roots.values() else self.dirs()     # (known finding: conditional fragments on the root)
        self.incond += 1 if dd else 0
        b = self.selset(c if cond else t, depth - (1 if rng.random() < 0.6 else 0))
        self.incond -= 1 if dd else 0
        return f"...{cond}{dd} " + b

    def arguments(self, f):
        out = []
        for n, a in f.args.items():
            req = isinstance(a.type, GraphQLNonNull) and a.ast_node is not None and a.ast_node.default_value is None
            if not req and (not self.args or self.rng.random() < 0.4):
                continue
            v = self.value(a.type)
            if self.rng.random() < 0.4:
                vn = f"v{len(self.vars) + 1}"
                self.vars[vn] = (str(a.type), v, None)
                out.append(f"{n}: ${vn}")
            else:
                out.append(f"{n}: {lit(v, a.type)}")
        return "(" + ", ".join(out) + ")" if out else ""

    def value(self, t):
        rng = self.rng
        if isinstance(t, GraphQLNonNull):
            return self.value_nn(t.of_type)
        if rng.random() < 0.1:
            return None
        return self.value_nn(t)

    def value_nn(self, t):
        rng = self.rng
        if isinstance(t, GraphQLList):
            return [self.value(t.of_type) for _ in range(rng.randint(0, 2))]
        n = t.name
        if n == "Int":
            return rng.randint(-5, 50)
        if n == "Float":
            return rng.choice([1.5, -2.25, 3])
        if n == "Boolean":
            return rng.random() < 0.5
        if n in ("ID", "String"):
            return rng.choice(["x", "a b", "q\"uote", "uni\u00e9", "line\nbreak", "", "back\\slash"]) if rng.random() < 0.5 else f"s{rng.randint(1, 4)}"
        if isinstance(t, GraphQLEnumType):
            return EnumLit(rng.choice(list(t.values)))
        if isinstance(t, GraphQLInputObjectType):
            out = {}
            for fn, ft in t.fields.items():
                if isinstance(ft.type, GraphQLNonNull) or rng.random() < 0.6:
                    out[fn] = self.value(ft.type)
            return out
        return f"c{rng.randint(1, 3)}"


class EnumLit(str):
    pass


def lit(v, t=None):
    if isinstance(v, EnumLit):
        return str(v)
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {lit(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    return json.dumps(v, ensure_ascii=False)


# ---------------------------------------------------------------- encoding for the TLA+ reference semantics
def enc_json(v):
    """JSON value (dicts as list of pairs) -> tagged value"""
    if isinstance(v, Pairs):
        return {"t": "o", "k": [k for k, _ in v.p], "v": [enc_json(x) for _, x in v.p]}
    if isinstance(v, dict):
        return {"t": "o", "k": list(v), "v": [enc_json(x) for x in v.values()]}
    if isinstance(v, list):
        return {"t": "l", "v": [enc_json(x) for x in v]}
    if v is None:
        return {"t": "n"}
    return {"t": "s", "v": norm_scalar(v)}


def norm_scalar(v):
    if isinstance(v, bool):
        return "b:" + str(v)
    if isinstance(v, (int, float)):
        return "n:" + (str(int(v)) if isinstance(v, int) or v.is_integer() else repr(v))
    return "s:" + v.encode("ascii", "backslashreplace").decode()


class Pairs:
    def __init__(self, p):
        self.p = p


def loads_ordered(b):
    return json.loads(b, object_pairs_hook=Pairs)


def enc_type(t):
    if isinstance(t, GraphQLNonNull):
        return {"t": "N", "o": enc_type(t.of_type)}
    if isinstance(t, GraphQLList):
        return {"t": "L", "o": enc_type(t.of_type)}
    return {"t": "T", "n": t.name}


def enc_val(v):
    if v is None:
        return {"t": "n"}
    if isinstance(v, Obj):
        return {"t": "r", "c": v.t, "v": v.key}
    if isinstance(v, list):
        return {"t": "l", "v": [enc_val(x) for x in v]}
    if isinstance(v, JS):
        return {"t": "j", "v": enc_json(v.v)}
    return {"t": "s", "v": norm_scalar(v)}


def enc_query(sg, world, q, variables, root="query", value_override=None, blocked=None):
    """Encodes (query, variables, the part of the world it can touch) for the TLA+ interpreter.

    The table is built by walking the document over the world *without* applying skip/include, merging or null
    propagation: those are decided by the specification."""
    doc = parse(q)
    op = next(d for d in doc.definitions if isinstance(d, A.OperationDefinitionNode))
    frags = {d.name.value: d for d in doc.definitions if isinstance(d, A.FragmentDefinitionNode)}
    vv = get_variable_values(sg.api, op.variable_definitions or (), dict(variables))
    if isinstance(vv, list):
        raise ValueError(str(vv[0]))
    boolenv = {n: "T" if v is True else "F" for n, v in vv.coerced.items()}
    table, ftypes, poss = {}, {}, {}

    def cond(node):
        c = []
        for d in node.directives or ():
            if d.name.value in ("skip", "include"):
                v = d.arguments[0].value
                c.append({"d": d.name.value, "v": ("$" + v.name.value) if isinstance(v, A.VariableNode) else ("T" if v.value else "F")})
        return c

    def argkey(pt, node):
        fd = pt.fields[node.name.value]
        a = get_argument_values(fd, node, vv)
        return a, (json.dumps(a, sort_keys=True, default=str).encode("ascii", "backslashreplace").decode() if a else "")

    def enc_sel(ss, pt, objs, fr=()):
        out = []
        for s in ss.selections:
            if isinstance(s, A.FieldNode):
                nm = s.name.value
                key = s.alias.value if s.alias else nm
                if nm == "__typename":
                    out.append({"k": "F", "key": key, "f": nm, "a": "", "c": cond(s), "s": [], "p": pt.name, "fr": list(fr)})
                    continue
                args, ak = argkey(pt, s)
                fid = nm + "|" + ak
                nt = get_named_type(pt.fields[nm].type)
                nxt = []
                for o in objs:
                    ftypes[f"{o.t}.{nm}"] = enc_type(sg.api.type_map[o.t].fields[nm].type)
                    v = world.value(o.t, o.i, nm, args) if value_override is None else value_override(o, nm, args)
                    table[f"{o.key}.{fid}"] = enc_val(v) if not isinstance(v, dict) else v
                    nxt += flat(v)
                subs = enc_sel(s.selection_set, nt, dedupe(nxt)) if s.selection_set else []
                ftypes[f"{pt.name}.{nm}"] = enc_type(pt.fields[nm].type)
                out.append({"k": "F", "key": key, "f": nm, "a": ak, "c": cond(s), "s": subs, "p": pt.name, "fr": list(fr)})
            elif isinstance(s, A.InlineFragmentNode):
                tc = s.type_condition.name.value if s.type_condition else pt.name
                poss[tc] = sg.possible(tc)
                out.append({"k": "I", "on": tc, "c": cond(s), "s": enc_sel(s.selection_set, sg.api.type_map[tc], [o for o in objs if o.t in poss[tc]], (*fr, tc))})
            else:
                f = frags[s.name.value]
                tc = f.type_condition.name.value
                poss[tc] = sg.possible(tc)
                # fragments are expanded here but keep their name: the specification must not visit one twice per selection set
                out.append({"k": "S", "nm": s.name.value, "on": tc, "c": cond(s), "s": enc_sel(f.selection_set, sg.api.type_map[tc], [o for o in objs if o.t in poss[tc]], (*fr, tc))})
        return out

    def flat(v):
        if isinstance(v, Obj):
            return [v]
        if isinstance(v, list):
            return [y for x in v for y in flat(x)]
        return []

    def dedupe(os):
        seen, out = set(), []
        for o in os:
            if o.key not in seen:
                seen.add(o.key)
                out.append(o)
        return out

    rt = sg.roots[root]
    sels = enc_sel(op.selection_set, sg.api.type_map[rt], [Obj(rt, 0)])
    return {"root": rt, "rootkey": f"{rt}#0", "sel": sels, "env": boolenv or {"_": "F"}, "tab": table or {"_": {"t": "n"}},
            "ft": ftypes or {"_": {"t": "T", "n": "_"}}, "poss": poss or {"_": []}}
