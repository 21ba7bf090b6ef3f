"""P05 authorization (spec/Authorization.tla): random placements of @authenticated/@requiresScopes, operations, tokens and modes."""
import random
from itertools import product
from graphql import parse, validate, get_named_type
from .core import *
from .mini import *
from .jwtlib import *
from .p01 import chunks

SECRET = b"verif-secret-verif-secret-verif-secret"
SC = ["a", "b", "c", "d"]
UNION = [("  nodes: [Node] @join__field(graph: P)\n", "  nodes: [Node] @join__field(graph: P)\n  search: [Hit] @join__field(graph: P)\n  hit: Hit! @join__field(graph: P)\n"),
         ("enum Color ", 'union Hit @join__type(graph: P) @join__unionMember(graph: P, member: "User") @join__unionMember(graph: P, member: "Product") = User | Product\nenum Color ')]


def rule(rng):
    if rng.random() < 0.35:
        return [[]]
    return [sorted(rng.sample(SC, rng.choice([1, 1, 2]))) for _ in range(rng.choice([1, 1, 2]))]


def text(r):
    return "@authenticated" if r == [[]] else "@requiresScopes(scopes: %s)" % json.dumps(r)


def conj(rs):
    """what composition puts on an interface: all the rules of the implementing types together"""
    return [sorted(set(sum(p, []))) for p in product(*rs)] if rs else None


def make_rules(rng, sg):
    rules = {}
    for t, d in sg.api.type_map.items():
        if t.startswith("__") or t in ("Node", "Hit", "Inp", "Subscription"):
            continue
        k = type(d).__name__
        if k == "GraphQLObjectType":
            if t not in ("Query", "Mutation") and rng.random() < 0.2:
                rules[t] = rule(rng)
            if t == "Mutation" and rng.random() < 0.1:
                rules[t] = rule(rng)
            for f in d.fields:
                if f != "id" and rng.random() < 0.18:
                    rules[f"{t}.{f}"] = rule(rng)
        elif k == "GraphQLEnumType" and rng.random() < 0.3:
            rules[t] = rule(rng)
    n = conj([rules[t] for t in ("User", "Product", "Review") if t in rules])
    if n:
        rules["Node"] = n
    return rules


async def drive(seed, n, mode):
    rng = random.Random(seed)
    base = mini_sdl(UNION)
    sg0 = Supergraph(base)
    rules = make_rules(rng, sg0)
    body = BODY
    for o, nw in UNION:
        body = body.replace(o, nw)
    body = annotate(body, {k: text(r) for k, r in rules.items()})
    links = ('@link(url: "https://specs.apollo.dev/authenticated/v0.1", for: SECURITY) @link(url: "https://specs.apollo.dev/requiresScopes/v0.1", for: SECURITY)')
    m = await Mini(seed, body=body, links=links, nulls=0.1).start()
    sg, world = m.sg, m.world
    out = {f"{t}.{f}": get_named_type(fd.type).name for t, d in sg.api.type_map.items() if hasattr(d, "fields") and not t.startswith("__") for f, fd in d.fields.items()}
    rt = Router({"jwt": {"enabled": True, "require_authentication": False, "jwks_providers": [{"source": "file", "path": "jwks.json"}]},
                 "authorization": {"directives": {"unauthorized": {"mode": mode}}}}, m.sdl())
    with open(os.path.join(rt.dir, "jwks.json"), "w") as f:
        json.dump({"keys": [jwk(SECRET, "k1")]}, f)
    await rt.start()
    cases = []
    try:
        pool = []
        while len(cases) < n:
            if pool and rng.random() < 0.4:
                q, v, root = rng.choice(pool)       # the same document by another user: caches must not leak
            else:
                root = "mutation" if rng.random() < 0.15 else "query"
                q, v = QGen(sg, rng, depth=rng.choice([2, 3, 4]), width=rng.choice([2, 3]), root=root, conds=rng.random() < 0.4).gen()
                if validate(sg.api, parse(q)):
                    continue
                pool.append((q, v, root))
            who = rng.random()
            scopes = sorted(rng.sample(SC, rng.choice([0, 1, 2, 2, 3, 4])))
            auth = who > 0.2
            hs = []
            if auth:
                claim = rng.choice([" ".join(scopes), scopes])
                hs = [("authorization", "Bearer " + token(SECRET, {"sub": "u", "exp": 4000000000, rng.choice(["scope", "scopes"]): claim}, "k1"))]
            elif who < 0.1:
                hs = [("authorization", "Bearer " + token(b"wrong" * 8, {"sub": "u", "exp": 4000000000, "scope": " ".join(SC)}, "k1"))]
            c = enc_query(sg, world, q, v, root=root)
            m.subs.log.clear()
            r = await rt.gql(q, v, headers=hs)
            bodyj = None
            try:
                bodyj = loads_ordered(r.body)
            except Exception:
                pass
            d = dict(bodyj.p) if isinstance(bodyj, Pairs) else {}
            c["data"] = enc_json(d.get("data")) if "data" in d else {"t": "missing"}
            errs = (r.json() or {}).get("errors") or []
            c["nerr"] = len(errs)
            c["errs"] = [[y for y in ((e.get("extensions") or {}).get("affectedPath") or "").split(".") if y] for e in errs if (e.get("extensions") or {}).get("code") == "UNAUTHORIZED_FIELD_OR_TYPE"]
            c["nreq"] = len(m.subs.log)
            c["asked"] = [list(x) for x in sorted({(f["t"], f["f"]) for e in m.subs.log for f in e.get("facts", ()) if f["k"] == "field" and f["f"] != "id"} | {("_", "_")})]
            c.update(rules=rules or {"_": [[]]}, auth=auth, scopes=scopes if auth else [], mode=mode, out=out)
            c["src"] = dict(seed=seed, mode=mode, query=q, variables=v, rules=rules, auth=auth, scopes=scopes, status=r.status, response=r.body.decode("utf8", "replace")[:3000],
                            subreqs=[(e["g"], e["body"]) for e in m.subs.log][:20])
            cases.append(c)
    finally:
        rt.stop()
        await m.stop()
    return cases


def explain(c):
    s = c["src"]
    return f"[{s['mode']}] {s['query']!r} {json.dumps(s['variables'])} auth={s['auth']} scopes={s['scopes']} rules={json.dumps(s['rules'])[:300]} -> {s['status']} {s['response'][:300]}"


async def p05(c):
    k, n = (16, 90) if not THOROUGH else (80, 200)
    jobs = [(SEED * 1000 + i, n, "reject" if i % 4 == 3 else "filter") for i in range(k)]
    cases = []
    for j in chunks(jobs, 8):
        for cs in await asyncio.gather(*[drive(*x) for x in j]):
            cases += cs
    for x in cases[:3]:
        c.sample(dict(query=x["src"]["query"], rules=x["rules"], scopes=x["scopes"], response=x["src"]["response"][:200]))
    for i, ch in enumerate(chunks(cases, 4000)):
        c.validate_cases("Authorization", ch, name=f"cases{i}", explain=explain, timeout=850, key=lambda x: json.dumps([x["src"][y] for y in ("mode", "query", "variables", "rules", "auth", "scopes")]))
    c.note(forbidden_requests=sum(1 for x in cases if x["errs"]), reject=sum(1 for x in cases if x["mode"] == "reject"))
