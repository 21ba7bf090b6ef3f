"""P01 federated result = reference semantics (spec/GqlSemantics.tla) and P02 subgraph request contract (spec/SubgraphContract.tla)."""
import asyncio, glob, json, os, random
from graphql import parse, validate
from .core import *
from .net import *
from .fed import *

# fixtures whose subgraph schemas the mock cannot build (broken SDL), that are unsatisfiable on purpose
# (corrupted-*), whose entities have no key a mock could resolve (1099), or whose value types differ per subgraph so that
# no consistent data exists (1070, nested-key-requires-reentry)
UNUSABLE = {"recursion-bomb", "requires-circular-keys", "two-same-service-calls", "corrupted-supergraph-node-id", "1099", "1070", "nested-key-requires-reentry"}
# fixtures on which known findings (known_findings.json) keep random queries from being meaningful: only probed
PROBE_ONLY = {"requires-with-argument-conflict", "simple-requires-args", "provides-on-interface", "nested-provides", "child-type-mismatch"}
# fixtures with interface objects: type-narrowing fragments hit known findings
NO_FRAGMENTS = {"simple-interface-object", "interface-object-with-requires"}

# fields whose every use is a known finding
AVOID = {}


ONLY = os.environ.get("VF_ONLY")


def fixtures(probe=False):
    if ONLY:
        return [os.path.join(VERIF, "fixtures", ONLY + ".graphql")]
    return [p for p in sorted(glob.glob(os.path.join(VERIF, "fixtures", "*.graphql"))) if fname(p) not in UNUSABLE and (probe or fname(p) not in PROBE_ONLY)]


def fname(p):
    return os.path.basename(p)[:-8]


def contract_lines(sg, entry, src):
    own = sorted({f"{f['t']}.{f['f']}" for f in entry["facts"] if f["k"] == "field" and entry["g"] in sg.graphs_resolving(f["t"], f["f"])} | {"_"})
    return dict(g=entry["g"], own=own, facts=entry["facts"], src=dict(src, g=entry["g"], body=entry["body"]))


async def run_one(sg, world, subs, rt, q, v, fixture, seed, root="query"):
    c = enc_query(sg, world, q, v, root=root)
    subs.problems.clear()
    subs.log.clear()
    r = await rt.gql(q, v)
    body = None
    try:
        body = loads_ordered(r.body)
    except Exception:
        pass
    d = dict(body.p) if isinstance(body, Pairs) else {}
    c["data"] = enc_json(d.get("data")) if "data" in d else {"t": "missing"}
    c["nerr"] = len(d.get("errors") or []) + (0 if r.status == 200 else 1)
    src = dict(fixture=fixture, seed=seed, query=q, variables=v)
    lines = [contract_lines(sg, e, src) for e in subs.log if "facts" in e]
    c["src"] = dict(src, status=r.status, response=r.body.decode("utf8", "replace")[:3000], subreqs=[(e["g"], e["body"]) for e in subs.log][:20])
    return c, lines


async def run_fixture(path, seed, n, config=None, fragments=True):
    sg = Supergraph(open(path).read())
    cases, lines = [], []
    world = World(sg, seed)
    subs = await Subgraphs(sg, world).start()
    rt = Router(config or {}, subs.sdl())
    await rt.start()
    rng = random.Random(seed)
    try:
        tries = 0
        while len(cases) < n and tries < n * 30:
            tries += 1
            q, v = QGen(sg, rng, depth=rng.choice([2, 3, 4]), width=rng.choice([2, 3, 4]), fragments=fragments and fname(path) not in NO_FRAGMENTS, avoid=AVOID.get(fname(path), ())).gen()
            try:
                if validate(sg.api, parse(q)):
                    continue
            except Exception:
                continue
            c, ls = await run_one(sg, world, subs, rt, q, v, fname(path), seed)
            cases.append(c)
            lines += ls
    finally:
        rt.stop()
        await subs.stop()
    return cases, lines


async def run_probes(c):
    """the known findings of this property, replayed one by one; each is keyed by its fixture, query and variables"""
    cases, lines = [], []
    by = {}
    for f in c.findings:
        if f["status"] == "known":
            by.setdefault((f["fixture"], f["seed"]), []).append(f)
    for (fx, seed), fs in by.items():
        sg = Supergraph(open(os.path.join(VERIF, "fixtures", fx + ".graphql")).read())
        world = World(sg, seed)
        subs = await Subgraphs(sg, world).start()
        rt = await Router({}, subs.sdl()).start()
        try:
            for f in fs:
                cs, ls = await run_one(sg, world, subs, rt, f["query"], f["variables"], fx, seed)
                cases.append(cs)
                lines += ls
        finally:
            rt.stop()
            await subs.stop()
    return cases, lines


def keyof(case):
    s = case["src"]
    return json.dumps([s["fixture"], s["seed"], s["query"], s["variables"]], sort_keys=True)


async def collect(c, n, seeds):
    sem = asyncio.Semaphore(7)

    async def one(p, seed):
        async with sem:
            return await run_fixture(p, seed, n * (10 if fname(p) == "vf-rich" else 1))

    cases, lines = [], []
    for cs, ls in await asyncio.gather(*[one(p, s) for s in seeds for p in fixtures()]):
        cases += cs
        lines += ls
    return cases, lines


def explain(c):
    s = c["src"]
    if "g" in s:
        return f"{s['fixture']} seed {s['seed']}: request to {s['g']} breaks the contract: {json.dumps(s['body'])[:400]} for {s['query']!r} {json.dumps(s['variables'])}"
    return f"{s['fixture']} seed {s['seed']}: {s['query']!r} {json.dumps(s['variables'])} -> {s['status']} {s['response'][:200]}"


def chunks(xs, n):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


async def p01(c):
    c.model("FedPlan")
    n, seeds = (18, [SEED, SEED + 100]) if not THOROUGH else (60, range(SEED, SEED + 8))
    cases, _ = await collect(c, n, seeds)
    probes, _ = await run_probes(c)
    for x in cases[:3]:
        c.sample(dict(fixture=x["src"]["fixture"], query=x["src"]["query"], variables=x["src"]["variables"], response=x["src"]["response"][:200]))
    for i, ch in enumerate(chunks(cases + probes, 3000)):
        c.validate_cases("TraceExec", ch, name=f"cases{i}", explain=explain, key=keyof, timeout=850)
    c.note(fixtures=len(fixtures()), queries=len(cases), probes=len(probes))


async def p02(c):
    c.model("FedPlan")
    n, seeds = (18, [SEED + 1, SEED + 101]) if not THOROUGH else (60, range(SEED + 1, SEED + 9))
    _, lines = await collect(c, n, seeds)
    _, probes = await run_probes(c)
    for x in lines[:3]:
        c.sample(dict(g=x["g"], body=x["src"]["body"]))
    for i, ch in enumerate(chunks(lines + probes, 5000)):
        c.validate_cases("SubgraphContract", ch, name=f"reqs{i}", explain=explain, key=keyof, timeout=850)
    c.note(fixtures=len(fixtures()), subgraph_requests=len(lines))
