"""P09: supergraph reload (spec/Reload.tla)."""
import random
from graphql import parse
from .core import *
from .net import *
from .jwtlib import *

HEAD = '''schema
  @link(url: "https://specs.apollo.dev/link/v1.0")
  @link(url: "https://specs.apollo.dev/join/v0.3", for: EXECUTION)
  @link(url: "https://specs.apollo.dev/authenticated/v0.1", for: SECURITY)
{ query: Query subscription: Subscription }
directive @join__enumValue(graph: join__Graph!) repeatable on ENUM_VALUE
directive @join__field(graph: join__Graph requires: join__FieldSet provides: join__FieldSet type: String external: Boolean override: String usedOverridden: Boolean) repeatable on FIELD_DEFINITION | INPUT_FIELD_DEFINITION
directive @join__graph(name: String!, url: String!) on ENUM_VALUE
directive @join__implements(graph: join__Graph!, interface: String!) repeatable on OBJECT | INTERFACE
directive @join__type(graph: join__Graph!, key: join__FieldSet, extension: Boolean! = false, resolvable: Boolean! = true, isInterfaceObject: Boolean! = false) repeatable on OBJECT | INTERFACE | UNION | ENUM | INPUT_OBJECT | SCALAR
directive @link(url: String as: String for: link__Purpose import: [link__Import]) repeatable on SCHEMA
directive @authenticated on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM
scalar join__FieldSet
scalar link__Import
enum link__Purpose { SECURITY EXECUTION }
'''


def sdl(port, n):
    ev = n % 2 == 0
    return HEAD + f'''# {n}
enum join__Graph {{ A @join__graph(name: "a", url: "http://127.0.0.1:{port}/{n}/A") P @join__graph(name: "p", url: "http://127.0.0.1:{port}/{n}/P") }}
type Query @join__type(graph: A) @join__type(graph: P) {{
  ver: String @join__field(graph: A)
  only_{n}: String @join__field(graph: A)
  sec: String @join__field(graph: A) {"@authenticated" if ev else ""}
  mv: String @join__field(graph: {"P" if ev else "A"})
  me: U @join__field(graph: A)
}}
type U @join__type(graph: A, key: "id") @join__type(graph: P, key: "id") {{ id: ID! a: String @join__field(graph: A) p: String @join__field(graph: P) mu: String @join__field(graph: {"A" if ev else "P"}) }}
type Subscription @join__type(graph: A) {{ tick: U @join__field(graph: A) }}
'''


def bad_sdl(port, n, rng):
    s = sdl(port, n)
    return rng.choice(["", "not graphql {", s[: len(s) // 2], s.replace("{ query: Query", "{ query: Nope"), s.replace("type Query", "type Quark"), "\x00\x01", s.replace("enum join__Graph", "enum join__Other"),
                       s.replace("type U ", "type U @@"), "{\"message\":\"not found\"}"])


GRAPHS = dict(ver="A", sec="A", me="A", a="A", p="P", tick="A", id="AP")


class World:
    """answers any document with the version and graph it was asked in"""

    def __init__(self, rng):
        self.rng = rng
        self.srv = Server(self.handle)

    def sel(self, ss, n, g):
        out = {}
        for s in ss.selections:
            if not hasattr(s, "name") or s.kind == "inline_fragment":
                out.update(self.sel(s.selection_set, n, g))
                continue
            k, f = (s.alias or s.name).value, s.name.value
            if f == "__typename":
                out[k] = "U"
            elif f == "_entities":
                out[k] = [dict(self.sel(s.selection_set, n, g), __typename="U")]
            elif f == "id":
                out[k] = "u"
            elif s.selection_set:
                out[k] = dict(self.sel(s.selection_set, n, g), __typename="U")
            else:
                out[k] = f"{n}{g}"
        return out

    async def handle(self, req):
        _, n, g = req.path.split("/")
        b = req.json()
        op = parse(b["query"]).definitions[0]
        data = self.sel(op.selection_set, n, g)
        await asyncio.sleep(self.rng.choice([0, 0, 0.005, 0.02, 0.06]))
        if op.operation.value == "subscription":
            async def gen():
                while True:
                    yield b"event: next\ndata: " + json.dumps({"data": data}).encode() + b"\n\n"
                    await asyncio.sleep(0.03)
            return Reply(200, [("content-type", "text/event-stream")], stream=gen())
        return Reply(200, [], {"data": data})


def graph_of(f, n):
    ev = n % 2 == 0
    if f == "mv":
        return "P" if ev else "A"
    if f == "mu":
        return "A" if ev else "P"
    return {"p": "P"}.get(f, "A")


def versions(data):
    """versions which explain every leaf of data"""
    vs = None
    def walk(d):
        nonlocal vs
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v)
            elif k not in ("id", "__typename"):
                m = re.match(r"^(\d+)([AP])$", str(v))
                s = {int(m.group(1))} if m and graph_of(k, int(m.group(1))) == m.group(2) else set()
                if k.startswith("only_") and k != f"only_{m.group(1) if m else ''}":
                    s = set()
                if k == "sec":
                    s = {x for x in s if x % 2}
                vs = s if vs is None else vs & s
    walk(data)
    return vs or set()


class Source:
    """where the router gets its supergraph from"""

    def __init__(self, kind, rng, dir):
        self.kind, self.rng, self.dir = kind, rng, dir
        self.content, self.n = None, 0
        self.mtime = 1_700_000_000
        self.srv = Server(self.handle) if kind != "file" else None
        self.polls, self.lastfault = 0, 0
        self.path = os.path.join(dir, "src.graphql")
        self.faults = 0
        self.etags = True       # (without validators every poll is a reload)

    def config(self):
        if self.kind == "file":
            return {"source": "file", "path": self.path, "poll_interval": "40ms"}
        if self.kind == "hive":
            ep = [f"{self.srv.url}/one", f"{self.srv.url}/two"] if self.rng.random() < 0.5 else f"{self.srv.url}/one"
            return {"source": "hive", "endpoint": ep, "key": "k", "poll_interval": "40ms", "request_timeout": "1s", "retry_policy": {"max_retries": 0}}
        return {"source": "apollo_graphos", "graph_ref": "g@v", "key": "k", "endpoint": [f"{self.srv.url}/one", f"{self.srv.url}/two"], "timeout": "1s"}

    def offer(self, n, text):
        self.n, self.content = n, text
        if self.kind == "file":
            tmp = self.path + ".tmp"
            with open(tmp, "w") as f:
                f.write(text)
            self.mtime += self.rng.choice([1, 5, 100, -3, -50])          # rollbacks may carry an older timestamp
            while self.mtime in getattr(self, "used", set()):
                self.mtime += 1
            self.used = getattr(self, "used", set()) | {self.mtime}
            os.utime(tmp, (self.mtime, self.mtime))
            os.rename(tmp, self.path)

    def remove(self):
        if self.kind == "file" and os.path.exists(self.path):
            os.rename(self.path, self.path + ".gone")
            return True

    def unremove(self):
        if os.path.exists(self.path + ".gone") and not os.path.exists(self.path):
            os.rename(self.path + ".gone", self.path)

    async def handle(self, req):
        self.polls += 1
        n, text = self.n, self.content
        fault = None
        if self.polls - self.lastfault > 7 and self.rng.random() < 0.35:
            fault = self.rng.choice(["500", "drop", "cut", "cut", "cut"])
            self.lastfault = self.polls
            self.faults += 1
        if text is None:
            return Reply(404, [], b"none")
        if self.kind == "hive":
            if fault == "500":
                return Reply(500, [], b"x")
            if fault == "drop":
                return DROP
            tag = f'"{n}"'
            hs = [("etag", tag)] if self.etags else []
            if self.etags and req.header("if-none-match") == tag:
                return Reply(304, hs, b"")
            body = text.encode()
            if fault == "cut":
                async def cut():
                    yield body[: len(body) // 2] or b" "
                    yield DROP
                return Reply(200, hs, stream=cut())
            return Reply(200, hs, body)
        b = req.json()["variables"]
        if fault == "500":
            return Reply(500, [], b"x")
        if fault == "drop":
            return DROP
        if str(b.get("ifAfterId")) == str(n):
            rc = {"__typename": "Unchanged", "id": str(n), "minDelaySeconds": 0.04}
        else:
            rc = {"__typename": "RouterConfigResult", "id": str(n), "supergraphSDL": text, "minDelaySeconds": 0.04}
        if fault == "cut":
            if self.rng.random() < 0.4:
                rc = {"__typename": "FetchError", "code": "X", "message": "retry later"}
            else:
                body = json.dumps({"data": {"routerConfig": rc}}).encode()

                async def cut():
                    yield body[: len(body) // 2]
                    yield DROP
                return Reply(200, [("content-type", "application/json")], stream=cut())
        return Reply(200, [], {"data": {"routerConfig": rc}})


async def history(seed, kind, steps):
    rng = random.Random(seed)
    w = World(rng)
    await w.srv.start()
    dir = tempfile.mkdtemp(prefix="vf-src-")
    src = Source(kind, rng, dir)
    if src.srv:
        await src.srv.start()
    ev = []
    n = 0
    good = set()
    ids = [0]
    stop = [False]

    def offer(ok):
        nonlocal n
        n += 1
        ev.append(dict(ev="offer", ok=ok))
        if ok:
            good.add(n)
        src.offer(n, sdl(w.srv.port, n) if ok else bad_sdl(w.srv.port, n, rng))
    dedupe = rng.random() < 0.5
    config = {"supergraph": src.config(), "subscriptions": {"enabled": True},
              "jwt": {"enabled": True, "require_authentication": False, "jwks_providers": [{"source": "file", "path": "jwks.json"}]},
              "authorization": {"directives": {"enabled": True, "unauthorized": {"mode": rng.choice(["filter", "reject"])}}}}
    if dedupe:
        config["traffic_shaping"] = {"router": {"dedupe": {"enabled": True, "headers": "all"}}}
    ev.append(dict(ev="reset", twice=kind == "file", src=dict(seed=seed, kind=kind, config=config)))
    first = rng.random()
    if first < 0.7:
        offer(True)
    elif first < 0.85 or kind == "file":
        offer(False)
    rt = Router(config)
    with open(os.path.join(rt.dir, "jwks.json"), "w") as f:
        json.dump({"keys": [jwk(b"0123456789abcdef0123456789abcdef", "k1")]}, f)
    await rt.start(wait=False)
    for _ in range(300):      # until it listens
        try:
            if (await request(rt.port, "GET", "/health", timeout=2)).status == 200:
                break
        except OSError:
            pass
        if not rt.alive():
            raise RouterDied(rt.read_log()[-1500:])
        await asyncio.sleep(0.02)

    def new():
        ids[0] += 1
        return ids[0]

    def evidence(r, q, k):
        j = r.json() or {}
        d = j.get("data")
        errs = j.get("errors") or []
        codes = [(e.get("extensions") or {}).get("code") for e in errs]
        if "NO_SUPERGRAPH_AVAILABLE" in codes or (r.status == 503 and not d):
            return {0}
        if d and "__type" in d:
            names = [f["name"] for f in d["__type"]["fields"]]
            return {x for x in good if f"only_{x}" in names}
        if q.startswith("{ only_") and not d and errs:
            return {x for x in good if x != k}
        if "sec" in q and errs and not (d and d.get("sec")):
            if all("UNAUTH" in (c or "").upper() for c in codes):
                return {x for x in good if x % 2 == 0}
            return set()
        if errs or not d:
            return set()
        return versions(d)

    async def one():
        c = new()
        k = rng.choice(sorted(good)[-3:] + [n + 1]) if good else 1
        q = rng.choice(["{ ver me { a p mu } mv }", "{ ver me { a p mu } mv }", "{ me { p mu a } }", '{ __type(name: "Query") { fields { name } } ver }', '{ __type(name: "Query") { fields { name } } }', f"{{ only_{k} }}", "{ sec ver }", "{ mv }", "READY"])
        if q == "READY":
            ev.append(dict(ev="arrive", c=c, kind="req"))
            r = await request(rt.port, "GET", "/readiness")
            ev.append(dict(ev="ready", c=c, b=r.status == 200))
            return
        ev.append(dict(ev="arrive", c=c, kind="req"))
        r = await rt.gql(q)
        ev.append(dict(ev="answer", c=c, vs=sorted(evidence(r, q, k)), src=dict(q=q, r=r.body.decode()[:600], st=r.status)))
        return r

    async def client():
        while not stop[0]:
            await one()
            await asyncio.sleep(rng.choice([0, 0.005, 0.02, 0.05]))

    async def sub():
        while not stop[0]:
            c = new()
            ev.append(dict(ev="arrive", c=c, kind="sub"))
            s = await Stream(rt.port, "POST", "/graphql", [("content-type", "application/json"), ("accept", "text/event-stream")], json.dumps({"query": "subscription { tick { a p mu } }"}).encode()).open()
            if s.status != 200:
                ev.append(dict(ev="drop", c=c))
                s.close()
                await asyncio.sleep(0.05)
                continue
            last = None
            while True:
                e = await s.sse_event(0.2)
                if stop[0]:
                    ev.append(dict(ev="drop", c=c))
                    break
                if e is None:
                    continue
                if e is False or e[0] == "complete":
                    ev.append(dict(ev="subend", c=c))
                    break
                j = json.loads(e[1])
                if j.get("errors"):
                    codes = [(x.get("extensions") or {}).get("code") for x in j["errors"]]
                    if codes == ["NO_SUPERGRAPH_AVAILABLE"]:
                        ev.append(dict(ev="drop", c=c))
                        break
                    if codes != ["SUBSCRIPTION_SCHEMA_RELOAD"]:
                        ev.append(dict(ev="deliver", c=c, vs=[], src=j))
                else:
                    vs = sorted(versions(j["data"]))
                    if vs != last:
                        ev.append(dict(ev="deliver", c=c, vs=vs, src=j))
                    last = vs
            s.close()
            await asyncio.sleep(rng.choice([0, 0.03]))
    tasks = [asyncio.ensure_future(client()) for _ in range(3)] + [asyncio.ensure_future(sub())]
    try:
        for st in range(steps):
            x = rng.random()
            if x < 0.72:
                offer(True)
            elif x < 0.92:
                offer(False)
            elif src.remove():
                await asyncio.sleep(0.1)
                src.unremove()
            await asyncio.sleep(rng.choice([0, 0.01, 0.05, 0.1, 0.15, 0.2]))
            if (st == steps - 1 or rng.random() < 0.25) and n:
                if n not in good:
                    offer(True)
                t0 = time.time()
                while time.time() - t0 < 12:
                    r = await rt.gql('{ __type(name: "Query") { fields { name } } }')
                    if f"only_{n}\"" in r.body.decode():
                        break
                    await asyncio.sleep(0.02)
                await asyncio.sleep(0.25)
                ev.append(dict(ev="settled", n=n))
                await asyncio.gather(*[one() for _ in range(4)])
            for t in tasks:
                if t.done():
                    t.result()
    finally:
        stop[0] = True
        await asyncio.gather(*tasks, return_exceptions=True)
        rt.stop()
        await w.srv.stop()
        if src.srv:
            await src.srv.stop()
        shutil.rmtree(dir, ignore_errors=True)
    ev.append(dict(ev="offer", ok=False))
    return ev


async def p09(c):
    c.model("MCReload")
    n, steps = (24, 10) if not THOROUGH else (160, 25)
    sem = asyncio.Semaphore(6)

    async def go(i):
        async with sem:
            return await history(SEED * 10000 + i, ["file", "hive", "apollo"][i % 3], steps)
    hs = await asyncio.gather(*[go(i) for i in range(n)])
    c.note(settled=sum(1 for h in hs for e in h if e["ev"] == "settled"), answers=sum(1 for h in hs for e in h if e["ev"] == "answer"), subscriptions_ended=sum(1 for h in hs for e in h if e["ev"] == "subend"))
    for h in hs[:3]:
        c.sample([h[0]["src"]["kind"]] + [{k: v for k, v in e.items() if k != "src"} for e in h[1:8]])
    c.validate_many("TraceReload", hs, describe=lambda t: json.dumps(t[0]["src"]))
