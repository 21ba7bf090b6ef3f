"""P08: circuit breakers (spec/CircuitBreaker.tla)."""
import random
from .core import *
from .mini import *

FIELD = {"A": "user", "P": "product", "R": "review"}
NAME = {"A": "a", "P": "p", "R": "r"}
DEFAULT_CODES = {500, 502, 503, 504}
PATTERNS = {"5xx": range(500, 600), "50x": range(500, 510), "42x": range(420, 430), "4XX": range(400, 500)}


def gen_config(rng):
    """-> (router config, effective config per graph for the spec, failure codes per graph)"""
    def one(full):
        d = {}
        if full or rng.random() < 0.4:
            d["enabled"] = rng.random() < 0.85
        if full or rng.random() < 0.5:
            d["error_threshold"] = rng.choice(["50%", "50%", "100%", "30%", "60%", "75%", "34%"])
        if full or rng.random() < 0.5:
            d["volume_threshold"] = rng.choice([1, 2, 3, 4, 5])
        if full or rng.random() < 0.5:
            d["reset_timeout"] = f"{rng.choice([120, 200, 300])}ms"
        if full or rng.random() < 0.5:
            d["half_open_attempts"] = rng.choice([1, 2, 3])
        if rng.random() < 0.35:
            d["error_status_codes"] = rng.sample([503, "500", 404, 429, "5xx", "50x", "42x", "4XX", 502], rng.choice([1, 2]))
        return d
    al = one(True)
    subs = {g: one(False) for g in FIELD if rng.random() < 0.5}
    cfg, codes = {}, {}
    for g in FIELD:
        e = dict(al)
        e.update(subs.get(g, {}))
        pc = int(e["error_threshold"][:-1])
        cfg[g] = dict(on=e["enabled"], num=pc, den=100, vol=e["volume_threshold"], half=e["half_open_attempts"], reset=int(e["reset_timeout"][:-2]))
        if "error_status_codes" in e:
            codes[g] = set()
            for x in e["error_status_codes"]:
                codes[g] |= set(PATTERNS[x]) if x in PATTERNS else {int(x)}
        else:
            codes[g] = DEFAULT_CODES
    ts = {"all": {"circuit_breaker": al, "dedupe_enabled": rng.random() < 0.5, "request_timeout": "1s"}, "subgraphs": {NAME[g]: {"circuit_breaker": s} for g, s in subs.items()}}
    return {"traffic_shaping": ts}, cfg, codes


GOOD = ["ok", "gqlerr", "401", "404", "501", "429", "520"]
FAIL = ["500", "502", "503", "504", "drop", "nojson", "trunc", "timeout", "empty", "500ok"]


async def history(seed, n):
    rng = random.Random(seed)
    config, cfg, codes = gen_config(rng)
    dedupe = config["traffic_shaping"]["all"]["dedupe_enabled"]
    events = []
    t0 = time.time()
    seen = {}

    def ev(e, **kw):
        events.append(dict(ev=e, t=int((time.time() - t0) * 1000), **kw))

    plan = {}

    async def hook(g, body, req):
        c = int(re.search(r"c(\d+)", json.dumps(body)).group(1))
        seen[c] = seen.get(c, 0) + 1
        k = plan[c]
        ev("sent", c=c, g=g)
        if k != "timeout":
            await asyncio.sleep(rng.choice([0, 0, 0.002, 0.01]))
        m = re.match(r"\d+", k)
        fail = (int(m.group()) in codes[g]) if m else k in FAIL
        ev("reply", c=c, fail=fail)
        if k == "timeout":
            await asyncio.sleep(1.4)
            return DROP
        if k == "ok":
            return None
        if k == "drop":
            return DROP
        if k == "gqlerr":
            return Reply(200, [], {"data": {FIELD[g]: None}, "errors": [{"message": "x"}]})
        if k == "nojson":
            return Reply(200, [], b"<nope")
        if k == "trunc":
            return Reply(200, [], b'{"data":')
        if k == "empty":
            return Reply(200, [], b"")
        if k.endswith("ok"):
            return Reply(int(m.group()), [], {"data": {"k": None, FIELD[g]: None}})
        return Reply(int(m.group()), [], {"data": None, "errors": [{"message": k}]})

    m = await Mini(seed, hook=hook, nulls=0.1).start()
    rt = await Router(config, m.sdl()).start()
    ids = [0]
    ev("reset", cfg=cfg, src=dict(seed=seed, config=config))
    left = [0]

    def leave():
        if left[0] < 2 and rng.random() < 0.05:
            left[0] += 1
            return rng.choice([0.002, 0.005])

    async def one(gs, kinds, leave=None):
        cs = []
        for g in gs:
            ids[0] += 1
            c = ids[0]
            plan[c] = kinds[g]
            cs.append((c, g))
        for c, g in cs:
            ev("call", c=c, g=g)
        q = "{ " + " ".join(f'k{c}: {FIELD[g]}(id: "c{c}") {{ __typename }}' for c, g in cs) + " }"
        try:
            r = await (rt.gql(q) if leave is None else asyncio.wait_for(rt.gql(q), leave))
        except asyncio.TimeoutError:
            for c, g in cs:
                ev("leave", c=c)
            return
        j = r.json() or {}
        rej = {}
        for e in j.get("errors") or []:
            if (e.get("extensions") or {}).get("code") == "SUBGRAPH_CIRCUIT_BREAKER_REJECTED":
                s = (e.get("extensions") or {}).get("service") or (e.get("extensions") or {}).get("serviceName")
                rej[s] = rej.get(s, 0) + 1
        ev("answer", cs=[dict(c=c, rej=NAME[g] in rej) for c, g in cs], src=dict(body=r.body.decode("utf8", "replace")[:400], kinds=[plan[c] for c, g in cs]))
    try:
        phase = 0.5
        done = 0
        while done < n:
            if rng.random() < 0.25:
                phase = rng.choice([0, 0, 0.1, 0.4, 0.6, 0.9, 1, 1])

            def kinds():
                return {g: ((rng.choice(FAIL) if rng.random() < 0.9 or phase == 1 else "500") if rng.random() < phase else rng.choice(GOOD + ["ok"] * 6)) for g in FIELD}

            def tame(k):        # timeouts cost a second: rare
                return {g: ("500" if x == "timeout" and rng.random() < 0.85 else x) for g, x in k.items()}
            par = rng.choice([1, 1, 1, 1, 2, 3])
            main = rng.choice(["A", "A", "P", "R"])
            jobs = []
            for _ in range(par):
                gs = [main] if rng.random() < 0.8 else rng.sample(list(FIELD), 2)
                jobs.append(one(gs, tame(kinds()), leave=leave()))
                done += 1
            await asyncio.gather(*jobs)
            r = rng.random()
            if r < 0.06:
                await asyncio.sleep(0.35)
            elif r < 0.2:
                await asyncio.sleep(rng.choice([0.05, 0.1, 0.15, 0.22]))
        ev("end")
    finally:
        rt.stop()
        await m.stop()
    return events


async def p08(c):
    c.model("MCCircuitBreaker")
    n, k = (70, 48) if not THOROUGH else (200, 250)
    sem = asyncio.Semaphore(8)

    async def go(i):
        async with sem:
            return await history(SEED * 10000 + i, n)
    hs = await asyncio.gather(*[go(i) for i in range(k)])
    rejected = sum(1 for h in hs for e in h if e["ev"] == "answer" for x in e["cs"] if x["rej"])
    sent = sum(1 for h in hs for e in h if e["ev"] == "sent")
    c.note(calls_sent=sent, calls_rejected=rejected)
    for h in hs[:3]:
        c.sample([h[0]["src"]["config"]] + h[1:5])
    c.validate_many("TraceBreaker", hs, describe=lambda t: json.dumps(t[0]["src"]))
