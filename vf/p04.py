"""P04: partial failure. Whatever subset of fields or whole subgraphs fails, the answer is the reference result with exactly
those fields failed (null propagation included), and it is never silent."""
import random
from graphql import parse, validate
from .core import *
from .mini import *
from .p01 import chunks

OWNED = {}   # (type, field) -> graph, for fields with a single resolving graph


def owner(sg, t, f):
    gs = sg.graphs_resolving(t, f)
    return gs[0] if len(gs) == 1 else None


KINDS = ["drop", "500", "503", "404", "nojson", "trunc", "html", "errors", "errors2", "nulldata", "empty", "emptydata", "nullkeys", "nullkeys", "nullkeys-path", "nullkeys-paths", "list", "noreply"]


def nulled(body, mode):
    """every top-level field null (every entity null), with an error that has no path, the field's path or each entity's path"""
    doc = parse(body["query"])
    op = next(d for d in doc.definitions if hasattr(d, "operation"))
    data, paths = {}, []
    for s in op.selection_set.selections:
        if not hasattr(s, "alias"):
            return None
        k = s.alias.value if s.alias else s.name.value
        if k == "__typename" or s.name.value == "__typename":
            data[k] = None
        elif s.name.value == "_entities":
            reps = body["variables"][s.arguments[0].value.name.value]
            data[k] = [None] * len(reps)
            paths += [[k, i] for i in range(len(reps))] if mode == "nullkeys-paths" else [None]     # (a path through _entities has no meaning for the client)
        else:
            data[k] = None
            paths.append([k])
    errs = [{"message": "lost"}] if mode == "nullkeys" or not paths else [{"message": "lost", "path": p} if p else {"message": "lost"} for p in paths]
    return {"data": data, "errors": errs}


class Faulty:
    """per-operation fault plan: down graphs (every request to them fails) and failing (object, field)s"""

    def __init__(self, sg, rng):
        self.sg = sg
        self.down = {}
        self.fields = set()
        r = rng.random()
        if r < 0.45:
            for g in rng.sample(list(sg.graphs), rng.choice([1, 1, 1, 2])):
                self.down[g] = rng.choice(KINDS)
        if r > 0.35 and r < 0.93:
            for t, d in sg.api.type_map.items():
                if t in ("User", "Product", "Review", "Query"):
                    for f in d.fields:
                        for i in range(0 if t == "Query" else 1, 1 if t == "Query" else 4):
                            if f != "id" and rng.random() < 0.15:
                                self.fields.add((t, i, f))

    def fails(self, o, f):
        g = owner(self.sg, o.t, f)
        return (g in self.down) or (o.t, o.i, f) in self.fields

    def reply(self, g, body):
        k = self.down.get(g)
        if k is None:
            return None
        if k == "drop":
            return DROP
        if k == "500":
            return Reply(500, [], b"oops")
        if k == "nojson":
            return Reply(200, [("content-type", "application/json")], b"{nope")
        if k == "errors":
            return Reply(200, [], {"errors": [{"message": "down"}]})
        if k == "empty":
            return Reply(200, [], {})
        if k in ("503", "404"):
            return Reply(int(k), [], {"errors": [{"message": "nope"}]})
        if k == "trunc":
            return Reply(200, [("content-type", "application/json")], b'{"data":{"users":[{"__typename":"User","id":"User1"')
        if k == "html":
            return Reply(200, [("content-type", "text/html")], b"<html>hi</html>")
        if k == "list":
            return Reply(200, [], b"[]")
        if k == "noreply":
            return Reply(200, [], b"")
        if k == "errors2":
            return Reply(200, [], {"errors": [{"message": "a", "locations": [{"line": 1, "column": 2}]}, {"message": "b", "extensions": {"code": "X"}}]})
        if k == "emptydata":
            return Reply(200, [], {"data": {}, "errors": [{"message": "down"}]})
        if k.startswith("nullkeys"):
            d = nulled(body, k)
            if d:
                return Reply(200, [], d)
        return Reply(200, [], {"data": None, "errors": [{"message": "down"}]})


async def drive(seed, n, todo=()):
    todo = list(todo)
    rng = random.Random(seed)
    st = {}

    def hook(g, body, req):
        return st["f"].reply(g, body)

    m = Mini(seed, hook=hook, nulls=0.1)
    sg, world = m.sg, m.world
    real = world.value
    await m.start()

    class Fail(Exception):
        pass

    def value(t, i, f, args):
        if st["f"].fails(Obj(t, i), f) and st["mock"]:
            raise GraphQLError("field failed")
        return real(t, i, f, args)
    world.value = value
    rt = await Router({}, m.sdl()).start()
    cases = []
    try:
        while len(cases) < n:
            q, v = QGen(sg, rng, depth=rng.choice([2, 3, 4]), width=rng.choice([2, 3, 4]), conds=False).gen()      # (conditions: known finding)
            if todo:
                q, v = todo[0]["query"], todo[0]["variables"]
            if validate(sg.api, parse(q)):
                continue
            f = st["f"] = Faulty(sg, rng)
            if todo:
                f.down, f.fields = {}, {tuple(x) for x in todo[0]["fields"]}
                todo.pop(0)
            st["mock"] = False
            c = enc_query(sg, world, q, v, value_override=lambda o, nm, a: {"t": "e"} if f.fails(o, nm) else real(o.t, o.i, nm, a))
            st["mock"] = True
            m.subs.log.clear()
            m.subs.problems.clear()
            r = await rt.gql(q, v)
            body = None
            try:
                body = loads_ordered(r.body)
            except Exception:
                pass
            d = dict(body.p) if isinstance(body, Pairs) else {}
            c["data"] = enc_json(d.get("data")) if "data" in d else {"t": "missing"}
            errs = (r.json() or {}).get("errors") or []
            c["nerr"] = len(errs)
            c["errs"] = [[str(x) for x in e.get("path") or []] for e in errs]
            c["failed"] = any("resp" not in e or e["resp"].get("errors") for e in m.subs.log)
            c["nfail"] = sum(1 for e in m.subs.log if "resp" not in e or e["resp"].get("errors"))
            c["src"] = dict(seed=seed, query=q, variables=v, status=r.status, down=f.down, fields=sorted(f.fields), response=r.body.decode("utf8", "replace")[:3000],
                            subreqs=[(e["g"], e["body"], e.get("resp")) for e in m.subs.log][:20])
            cases.append(c)
    finally:
        rt.stop()
        await m.stop()
    return cases


def explain(c):
    s = c["src"]
    return f"{s['query']!r} {json.dumps(s['variables'])} down={s['down']} failing={s['fields'][:8]} -> {s['status']} {s['response'][:300]}"


async def p04(c):
    c.model("FedPlan")
    n, k = (500, 4) if not THOROUGH else (2500, 12)
    cases = []
    for cs in await asyncio.gather(*[drive(SEED * 100 + i, n) for i in range(k)]):
        cases += cs
    cases += await drive(1, len(c.findings), [f for f in c.findings if f["status"] == "known"])
    for x in cases[:3]:
        c.sample(dict(query=x["src"]["query"], down=x["src"]["down"], response=x["src"]["response"][:200]))
    for i, ch in enumerate(chunks(cases, 4000)):
        c.validate_cases("TracePartial", ch, name=f"cases{i}", explain=explain, timeout=850, key=lambda x: json.dumps([x["src"]["query"], x["src"]["variables"], sorted(map(list, x["src"]["fields"]))]))
