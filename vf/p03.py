"""P03: mutation root fields run serially, in order, exactly once (spec/Mutations.tla)."""
from graphql import parse
import graphql.language.ast as A
from .core import *
from .mini import *

FIELDS = {"setA": ("A", "{ id %s }"), "setA2": ("A", "{ id %s }"), "setP": ("P", "{ id %s }"), "setR": ("R", "{ id %s }"), "failA": ("A", "")}
SUB = {"setA": ["name", "rating", "score", "reviews { id }"], "setA2": ["email", "rating"], "setP": ["name", "stars", "reviews { body }"], "setR": ["body", "product { name }", "author { name }"]}


def gen(rng):
    """-> (document, variables, plan)"""
    n = rng.randint(1, 6)
    plan, items, env = [], [], {"t": rng.random() < 0.5, "u": rng.random() < 0.5}
    used = set()
    frags = []
    last = None
    for i in range(n):
        f = last if last and rng.random() < 0.35 else rng.choice(list(FIELDS))
        last = f
        key = f"k{i}" if rng.random() < 0.8 else rng.choice([f"z{9-i}", f"a{9-i}"])
        g, sel = FIELDS[f]
        s = f"{key}: {f}(x: {rng.choice([i, i, 7])})"
        on = True
        if rng.random() < 0.3:
            v = rng.choice(["t", "u"])
            d = rng.choice(["skip", "include"])
            on = env[v] == (d == "include")
            used.add(v)
            s += f" @{d}(if: ${v})"
        if sel:
            s += " " + sel % (rng.choice(SUB[f]) if rng.random() < 0.6 else "")
        if rng.random() < 0.2:
            if rng.random() < 0.5:
                s = "... on Mutation { " + s + " }"
            else:
                frags.append(f"fragment M{i} on Mutation {{ {s} }}")
                s = f"...M{i}"
        items.append(s)
        if on:
            plan.append(dict(g=g, k=key))
    vs = ", ".join(f"${v}: Boolean!" for v in sorted(used))
    q = f"mutation M{'(' + vs + ')' if vs else ''} {{ {' '.join(items)} }} {' '.join(frags)}"
    return q, {v: env[v] for v in used}, plan


def rootkeys(body):
    d = parse(body.get("query", ""))
    op = next(x for x in d.definitions if isinstance(x, A.OperationDefinitionNode))
    frags = {x.name.value: x for x in d.definitions if isinstance(x, A.FragmentDefinitionNode)}
    if op.operation.value != "mutation":
        return None
    v = body.get("variables") or {}

    def ok(n):
        for dr in n.directives or ():
            if dr.name.value in ("skip", "include"):
                a = dr.arguments[0].value
                b = v.get(a.name.value) if isinstance(a, A.VariableNode) else a.value
                if bool(b) != (dr.name.value == "include"):
                    return False
        return True

    def keys(ss):
        out = []
        for s in ss.selections:
            if not ok(s):
                continue
            if isinstance(s, A.FieldNode):
                out.append(s.alias.value if s.alias else s.name.value)
            elif isinstance(s, A.InlineFragmentNode):
                out += keys(s.selection_set)
            else:
                out += keys(frags[s.name.value].selection_set)
        return out
    return keys(op.selection_set)


async def drive(seed, n, config):
    import random
    rng = random.Random(seed)
    hist, cur = [], []
    ids = [0]

    async def hook(g, body, req):
        ks = rootkeys(body)
        if ks is None:
            await asyncio.sleep(rng.choice([0, 0, 0.01]))
            return None
        if not ks:      # every root field of this request is skipped: no side effect
            return None
        ids[0] += 1
        i = ids[0]
        cur.append(dict(ev="send", id=i, g=g, keys=ks))
        await asyncio.sleep(rng.choice([0, 0.005, 0.02]))
        fault = rng.random()
        cur.append(dict(ev="reply", id=i))
        if fault < 0.08:
            return DROP
        if fault < 0.16:
            return Reply(200, [], {"data": None, "errors": [{"message": "boom"}]})
        if fault < 0.2:
            return Reply(500, [], {"errors": [{"message": "boom"}]})
        if fault < 0.23:
            return Reply(200, [("content-type", "application/json")], b"not json")
        return None

    m = await Mini(seed, hook=hook, nulls=0.1).start()
    rt = await Router(config, m.sdl()).start()
    try:
        for _ in range(n):
            q, v, plan = gen(rng)
            k = rng.choice([1, 1, 2, 3])
            cur.clear()
            cur.append(dict(ev="reset", plan=plan, n=k, src=dict(query=q, variables=v, config=config)))
            rs = await asyncio.gather(*[rt.gql(q, v) for _ in range(k)])
            await asyncio.sleep(0.001)
            clients = []
            for r in rs:
                d = (r.json() or {}).get("data")
                clients.append(list(d) if isinstance(d, dict) else ["!" + str(r.status)])
            hist.append(list(cur) + [dict(ev="end", clients=clients)])
            cur.clear()
    finally:
        rt.stop()
        await m.stop()
    return hist


CONFIGS = [{}, {"traffic_shaping": {"router": {"dedupe": {"enabled": True, "headers": "all"}}}}]


async def p03(c):
    c.model("MCMutations")
    n, seeds = (150, 2) if not THOROUGH else (600, 10)
    hs = []
    for part in await asyncio.gather(*[drive(SEED * 1000 + i * 10 + j, n, cf) for i in range(seeds) for j, cf in enumerate(CONFIGS)]):
        hs += part
    for h in hs[:3]:
        c.sample([h[0]["src"]["query"]] + h[1:6])
    c.validate_many("TraceMutations", hs, describe=lambda t: t[0]["src"]["query"])
