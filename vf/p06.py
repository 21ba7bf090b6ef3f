"""P06 inbound request deduplication and P07 subgraph request deduplication (spec/SingleFlight.tla)."""
import random, urllib.parse
from .core import *
from .mini import *

PROP = {"headers": {"all": {"request": [{"propagate": {"named": ["x-user", "x-bin", "authorization"]}}]}}}


def vis(name, user, binh, kind, extra=""):
    return f"{kind}|{name}|{user}|{binh}|{extra}"


# the ways in which a client can say "a" or "b"
FORMS = {
    "var": ("query Q($n: String) { hello(name: $n) }", lambda x: {"n": x}),
    "int": ("query Q($n: Int) { hello(n: $n) }", lambda x: {"n": 7 if x == "a" else 8}),
    "float": ("query Q($n: Float) { hello(f: $n) }", lambda x: {"n": 7.5 if x == "a" else 8.5}),
    "bool": ("query Q($n: Boolean) { hello(ok: $n) }", lambda x: {"n": x == "a"}),
    "null": ("query Q($m: String) { hello(name: $m) }", lambda x: {"m": None if x == "a" else "b"}),
    "obj": ("query Q($n: Inp) { hello(inp: $n) }", lambda x: {"n": {"a": 1, "b": x}}),
    "deep": ("query Q($n: Inp) { hello(inp: $n) }", lambda x: {"n": {"a": 1, "c": [{"a": 2, "b": "z"}, {"a": 3, "b": x}]}}),
    "list": ("query Q($n: [ID!]) { hello(ids: $n) }", lambda x: {"n": ["z", x]}),
    "order": ("query Q($n: [ID!]) { hello(ids: $n) }", lambda x: {"n": ["7", "8"] if x == "a" else ["8", "7"]}),
    "op": ('query A { hello(name: "a") } query B { hello(name: "b") }', None),
}


def picks(v):
    """what the subgraph sees of a client's choice"""
    out = []
    for x in (v if isinstance(v, list) else v.values()):
        if x is None:
            out.append("a")
        elif isinstance(x, bool):
            out.append("a" if x else "b")
        elif isinstance(x, (int, float)) and x >= 7:
            out.append("a" if x < 8 else "b")
        elif x in ("a", "b"):
            out.append(x)
        elif x in ("7", "8"):
            out.append("a" if x == "7" else "b")
        elif isinstance(x, (list, dict)):
            out += picks(x)
    return out


class Drive:
    """Random schedules of concurrent clients against gated subgraph executions."""

    def __init__(self, seed, mode):
        self.rng = random.Random(seed)
        self.mode = mode
        self.ev = []
        self.gates = {}
        self.n = 0
        self.nc = 0
        self.hist = []

    def hook(self, g, body, req):
        return self.gate(g, body, req)

    async def gate(self, g, body, req):
        q = body.get("query", "")
        kind = "m" if q.startswith("mutation") else "q"
        v = body.get("variables") or {}
        names = picks(v)
        import re as _re
        m = _re.search(r'name: \\?"([^"\\]*)', q)
        name = m.group(1) if m else (names[0] if names else "")
        mx = _re.search(r"x: (\d+)", q)
        if mx:
            name = mx.group(1)
        self.n += 1
        e = self.n
        fut = asyncio.get_running_loop().create_future()
        self.gates[e] = fut
        u = (req.header_all("x-user") or [""])[0]
        b = ",".join(req.header_all("x-bin"))
        self.ev.append(dict(ev="start", e=e, v=vis(name, u, b.encode("latin1", "replace").hex(), kind)))

        async def stream():
            # the response head is only sent once released; a peer going away is noticed as cancellation
            yield b""
        try:
            r = await self.wait_gate(fut, req)
        except asyncio.CancelledError:
            raise
        del self.gates[e]
        if r == "gone":
            self.ev.append(dict(ev="abandon", e=e))
            return DROP
        self.ev.append(dict(ev="finish", e=e, ok=r == "ok"))
        if r == "fail":
            return DROP
        if kind == "m":
            key = next((a for a in ("setA", "setA2") if a in q), "setA")
            return Reply(200, [], {"data": {key: {"__typename": "User", "id": "u", "name": f"N{e}"}}})
        return Reply(200, [], {"data": {"hello": f"N{e}"}})

    async def wait_gate(self, fut, req):
        # detect the router closing its side (abandoned execution): the transport is closing
        while True:
            done, _ = await asyncio.wait([fut], timeout=0.01)
            if done:
                return fut.result()
            if req.conn.transport.is_closing() or req.conn.reader_eof():
                return "gone"


class GServer(Server):
    async def _conn(self, r, w):
        w.reader_eof = lambda: r.at_eof() or r.exception() is not None
        await super()._conn(r, w)


async def session(seed, cfgname, rounds, steps):
    d = Drive(seed, cfgname)
    rng = d.rng
    m = Mini(seed, hook=d.hook)
    m.subs.server = GServer(m.subs.handle)
    await m.start()
    cfg = dict(PROP)
    policy = "all"
    inbound = cfgname.startswith("in")
    if inbound:
        policy = rng.choice(["all", "include", "none"]) if cfgname == "in" else cfgname[3:]
        hd = {"all": "all", "none": "none", "include": {"include": ["x-user", "x-bin"]}}[policy]
        cfg["traffic_shaping"] = {"router": {"dedupe": {"enabled": True, "headers": hd}}, "all": {"dedupe_enabled": False}}
    elif cfgname == "sub":
        cfg["traffic_shaping"] = {"all": {"dedupe_enabled": True}}
    elif cfgname == "suboff":
        cfg["traffic_shaping"] = {"all": {"dedupe_enabled": True}, "subgraphs": {"p": {"dedupe_enabled": False}}}
    rt = await Router(cfg, m.sdl()).start()
    tasks, forms = {}, ["var"]

    async def client(c, q, v, hs, ext, method, opn):
        try:
            if method == "GET":
                path = "/graphql?" + urllib.parse.urlencode({"query": q, "variables": json.dumps(v), **({"extensions": json.dumps(ext)} if ext else {}), **({"operationName": opn} if opn else {})})
                r = await request(rt.port, "GET", path, hs + [("accept", "application/json"), ("apollo-require-preflight", "1")])
            else:
                body = {"query": q, "variables": v}
                if ext:
                    body["extensions"] = ext
                if opn:
                    body["operationName"] = opn
                r = await request(rt.port, "POST", "/graphql", hs + [("content-type", "application/json"), ("accept", "application/json")], json.dumps(body).encode())
        except asyncio.CancelledError:
            return
        j = r.json() or {}
        val = None
        dd = j.get("data") or {}
        if isinstance(dd.get("hello"), str):
            val = dd["hello"]
        elif isinstance(dd.get("setA"), dict):
            val = dd["setA"].get("name")
        tasks.pop(c, None)
        if val and val.startswith("N"):
            d.ev.append(dict(ev="answer", c=c, e=int(val[1:])))
        else:
            d.ev.append(dict(ev="failed", c=c, src=str(r)[:300]))

    def newclient():
        d.nc += 1
        c = d.nc
        name = rng.choice(["a", "a", "b"])
        user = rng.choice(["u1", "u1", "u2", "u1,u3"])
        binh = rng.choice(["", "", "", b"\xe9\x01x"[:1] + b"a", b"\xe9b"])
        ext = rng.choice([None, None, {"t": 1}]) if inbound else None
        method = rng.choice(["POST", "POST", "POST", "GET"])
        mut = rng.random() < 0.15
        form, opn = "lit", None
        hs = []
        for u in user.split(","):
            hs.append(("x-user", u))
        bh = ""
        if binh:
            hs.append(("x-bin", binh))
            bh = binh.decode("latin1").encode("latin1").hex()
        other = rng.choice(["", "", "z"]) if inbound else ""
        if other:
            hs.append(("x-other", other))
        if mut:
            method = "POST"
            q, v = "mutation M($x: Int) { setA(x: $x) { name } }", {}
            q = "mutation M { setA(x: %d) { name } }" % (1 if name == "a" else 2)
            vname = "1" if name == "a" else "2"
        elif "op" in forms or rng.random() < 0.75:
            form = rng.choice(forms)
            q, mk = FORMS[form]
            v, vname = (mk(name) if mk else {}), name
            opn = None if mk else name.upper()
        else:
            q, v, vname = '{ hello(name: "%s") }' % name, {}, name
        share = not mut and cfgname != "suboff"
        # subgraph request differs in visible form too
        vk = vis(vname, user.split(",")[0], bh, "m" if mut else "q")
        if inbound:
            hidden = [form, method, json.dumps(ext), "", user]
            if policy == "all":
                hidden[3] = other
            if policy == "none":
                # headers are deliberately not part of the key: only clients with equal headers are mixed in this mode
                pass
            h = "|".join(hidden)
        else:
            h = form
        d.ev.append(dict(ev="arrive", c=c, key=dict(v=vk, h=h, s=share)))
        tasks[c] = asyncio.ensure_future(client(c, q, v, hs, ext, method, opn))

    async def settle(t=0.012):
        await asyncio.sleep(t)

    try:
        for _ in range(rounds):
            d.ev = [dict(ev="reset", src=dict(cfg=cfgname, policy=policy, seed=seed))]
            d.gates.clear()
            forms = rng.sample([f for f in sorted(FORMS) if inbound or f != "op"], 2)     # few forms at a time, so that requests overlap
            for _ in range(steps):
                r = rng.random()
                if r < 0.5 and len(tasks) < 6:
                    newclient()
                elif r < 0.85 and d.gates:
                    e = rng.choice(sorted(d.gates))
                    if not d.gates[e].done():
                        d.gates[e].set_result("ok" if rng.random() < 0.85 else "fail")
                elif r < 0.95 and tasks:
                    c = rng.choice(sorted(tasks))
                    await settle(0.02)
                    if c in tasks:
                        t = tasks.pop(c)
                        d.ev.append(dict(ev="leave", c=c))
                        t.cancel()
                        await settle(0.03)
                if rng.random() < 0.7:
                    await settle()
            t0 = time.time()
            while tasks and time.time() - t0 < 15:
                for e in sorted(d.gates):
                    if not d.gates[e].done():
                        d.gates[e].set_result("ok")
                await settle(0.01)
            d.ev.append(dict(ev="end"))
            for c, t in list(tasks.items()):
                t.cancel()
            tasks.clear()
            await settle(0.03)
            for e in sorted(d.gates):
                if not d.gates[e].done():
                    d.gates[e].set_result("ok")
            await settle(0.03)
            d.hist.append(d.ev)
            d.ev = []
    finally:
        rt.stop()
        await m.stop()
    return d.hist


def describe(t):
    return json.dumps(t[0].get("src"))


async def p06(c):
    c.model("MCSingleFlight", "MCSingleFlightDeep" if THOROUGH else None, timeout=900, heap="16g")
    k, rounds = (4, 30) if not THOROUGH else (16, 80)
    hs = []
    for h in await asyncio.gather(*[session(SEED * 100 + i, f"in-{p}", rounds, 26) for i in range(k) for p in ("all", "include")]):
        hs += h
    c.sample([[x[k] for k in x if k != "src"] for x in hs[0][:14]])
    c.validate_many("TraceFlight", hs, describe=describe)


async def p07(c):
    c.model("MCSingleFlight", "MCSingleFlightDeep" if THOROUGH else None, timeout=900, heap="16g")
    k, rounds = (4, 30) if not THOROUGH else (16, 80)
    hs = []
    for h in await asyncio.gather(*[session(SEED * 100 + i, p, rounds, 26) for i in range(k) for p in ("sub", "suboff")]):
        hs += h
    c.sample([[x[k] for k in x if k != "src"] for x in hs[0][:14]])
    c.validate_many("TraceFlight", hs, describe=describe)
