"""P11: delivery of subscription events (spec/Subscription.tla) over every upstream and client transport."""
import hashlib
import random
from graphql import parse
from .core import *
from .net import *

SDL = '''schema
  @link(url: "https://specs.apollo.dev/link/v1.0")
  @link(url: "https://specs.apollo.dev/join/v0.3", for: EXECUTION)
{ query: Query subscription: Subscription }
directive @join__enumValue(graph: join__Graph!) repeatable on ENUM_VALUE
directive @join__field(graph: join__Graph requires: join__FieldSet provides: join__FieldSet type: String external: Boolean override: String usedOverridden: Boolean) repeatable on FIELD_DEFINITION | INPUT_FIELD_DEFINITION
directive @join__graph(name: String!, url: String!) on ENUM_VALUE
directive @join__implements(graph: join__Graph!, interface: String!) repeatable on OBJECT | INTERFACE
directive @join__type(graph: join__Graph!, key: join__FieldSet, extension: Boolean! = false, resolvable: Boolean! = true, isInterfaceObject: Boolean! = false) repeatable on OBJECT | INTERFACE | UNION | ENUM | INPUT_OBJECT | SCALAR
directive @link(url: String as: String for: link__Purpose import: [link__Import]) repeatable on SCHEMA
scalar join__FieldSet
scalar link__Import
enum link__Purpose { SECURITY EXECUTION }
enum join__Graph { A @join__graph(name: "a", url: "http://127.0.0.1:%(port)d/A") B @join__graph(name: "b", url: "http://127.0.0.1:%(port)d/B") }
type Query @join__type(graph: A) { ok: String }
type Ev @join__type(graph: A, key: "id") @join__type(graph: B, key: "id") { id: ID! txt: String @join__field(graph: A) more: String @join__field(graph: B) subs: [Ev] @join__field(graph: A) }
type Subscription @join__type(graph: A) { ev(k: String): Ev num(k: String): Int }
'''
FORMS = [lambda k: ("subscription($k: String) { ev(k: $k) { id txt more } }", {"k": k}),
         lambda k: (f'subscription N {{ num(k: "{k}") }}', None),
         lambda k: (f'subscription {{ e: ev(k: "{k}") {{ __typename i: id t: txt }} }}', None),
         lambda k: (f'subscription {{ ev(k: "{k}") {{ more id subs {{ id more }} }} }}', None)]
WAIT = 6
TEXTS = ["", "x", "--graphql", "--graphql--", "---", "-----", "a\nb", "\r\n--graphql\r\n\r\n{}", "event: complete\n\n", "data: {}", "\u00e9\u4e2d\U0001f600", "\u2028\u2029", "{}", "null", "\"}}\\", "y" * 3000, ": ping\n\n", "\t\b\f\u0000"]


def canon(x):
    s = json.dumps(x, sort_keys=True)
    return s if len(s) < 300 else s[:60] + hashlib.sha256(s.encode()).hexdigest()


class Up:
    """one upstream subscription as the subgraph sees it"""

    def __init__(self, d, n, key, form, doc):
        self.d, self.n, self.key, self.form, self.doc = d, n, key, form, doc
        self.q = asyncio.Queue()
        self.count, self.st = 0, "live"

    def data(self, i):
        """what the subgraph sends and what the client is to see for value i"""
        rng = self.d.rng
        ident = f"u{self.n}e{i}"
        if self.form == 1:
            return {"num": self.n * 100000 + i}, {"num": self.n * 100000 + i}, False
        txt = rng.choice(TEXTS) if rng.random() < 0.6 else f"t{i}"
        bad = rng.random() < 0.08           # entity resolution of this value fails
        self.d.bad.add(ident) if bad else None
        more = lambda x: None if bad else "B:" + x
        if self.form == 0:
            return ({"ev": {"__typename": "Ev", "id": ident, "txt": txt}}, {"ev": {"id": ident, "txt": txt, "more": more(ident)}}, bad)
        if self.form == 2:
            return ({"e": {"__typename": "Ev", "i": ident, "t": txt}}, {"e": {"__typename": "Ev", "i": ident, "t": txt}}, False)
        m = rng.choice([0, 1, 3])
        subs = [{"__typename": "Ev", "id": f"{ident}s{j}"} for j in range(m)]
        return ({"ev": {"__typename": "Ev", "id": ident, "subs": subs}},
                {"ev": {"more": more(ident), "id": ident, "subs": [{"id": s["id"], "more": more(s["id"])} for s in subs]}}, bad)

    def emit(self):
        self.count += 1
        sent, seen, bad = self.data(self.count)
        errs = self.d.rng.random() < 0.06 and self.form != 1
        self.d.log(ev="emit", u=self.n, val=canon(seen) + ("!" if errs or bad else ""))
        p = {"data": sent}
        if errs:
            p["errors"] = [{"message": "odd"}]
        self.q.put_nowait(("next", p))

    def finish(self, kind):
        self.st = kind
        self.d.log(ev=kind, u=self.n)
        self.q.put_nowait((kind, None))

    def gone(self):
        if self.st == "live":
            self.st = "gone"
            self.d.log(ev="gone", u=self.n)


def split(rng, data):
    if rng.random() < 0.5 or len(data) > 2500:
        return [data]
    out, i = [], 0
    while i < len(data):
        n = rng.choice([1, 2, 3, 7, 30, 200])
        out.append(data[i:i + n])
        i += n
    return out


class Driver:
    def __init__(self, seed, kind):
        self.rng = random.Random(seed)
        self.kind = kind
        self.ev, self.ups, self.cls, self.bad, self.forged = [], [], [], set(), 0
        self.srv = Server(self.http, self.ws)
        self.conns, self.over = {}, False

    def log(self, **k):
        if not self.over:
            self.ev.append(k)

    # ------------------------------------------------------------ the subgraphs
    def arrive(self, body):
        q = body["query"]
        k = (body.get("variables") or {}).get("k") or re.search(r'k: *"(\w+)"', q).group(1)
        form = 1 if "num" in q else 2 if re.search(r"\be:", q) else 3 if re.search(r"subs *{", q) else 0
        u = Up(self, len(self.ups) + 1, f"{form}{k}", form, q)
        self.ups.append(u)
        self.log(ev="up", u=u.n, key=u.key)
        for _ in range(self.rng.choice([0, 0, 1, 2, 3])):
            u.emit()
        return u

    async def http(self, req):
        b = req.json()
        if req.path == "/B":
            await asyncio.sleep(self.rng.choice([0, 0, 0.003, 0.02]))
            out, errs = {}, []
            for f in parse(b["query"]).definitions[0].selection_set.selections:
                reps = b["variables"][f.arguments[0].value.name.value]
                k = (f.alias or f.name).value
                if any(r["id"].partition("s")[0] in self.bad for r in reps):
                    out[k] = None
                    errs.append({"message": "B failed", "path": [k]})
                else:
                    out[k] = [{"__typename": "Ev", "more": "B:" + r["id"]} for r in reps]
            return Reply(200, [], {"data": out, "errors": errs} if errs else {"data": out})
        u = self.arrive(b)
        await asyncio.sleep(self.rng.choice([0, 0, 0.01, 0.04]))
        if self.rng.random() < 0.08 and u.count == 0:
            u.finish("deny")
            return self.rng.choice([Reply(500, [], b"no"), DROP, Reply(200, [], {"errors": [{"message": "denied"}]}), Reply(404, [("content-type", "text/event-stream")], b"")])
        if self.kind == "callback":
            return await self.callback(u, b)
        if self.kind == "sse" or (self.kind == "http" and self.rng.random() < 0.4):
            return Reply(200, [("content-type", self.rng.choice(["text/event-stream", "text/event-stream; charset=utf-8"]))], stream=self.sse(u))
        bd = self.rng.choice(["graphql", "-", "gc0p4Jq0M2Yt08j34c0p", "--", "x.y_z"])
        ct = self.rng.choice([f'multipart/mixed; boundary="{bd}"; subscriptionSpec=1.0', f"multipart/mixed;boundary={bd};subscriptionSpec=1.0", f"multipart/mixed;boundary={bd}"])
        return Reply(200, [("content-type", ct)], stream=self.multipart(u, bd.encode()))

    async def chunks(self, data):
        for c in split(self.rng, data):
            yield c
            if self.rng.random() < 0.2:
                await asyncio.sleep(0)

    async def sse(self, u):
        rng = self.rng
        nl = rng.choice(["\n", "\n", "\r\n"])
        try:
            while True:
                try:
                    kind, p = await asyncio.wait_for(u.q.get(), rng.choice([0.1, 0.3]))
                except asyncio.TimeoutError:
                    yield rng.choice([":" + nl + nl, ": hi" + nl + nl, "event: ping" + nl + "data: {}" + nl + nl]).encode()
                    continue
                if kind == "next":
                    sp = rng.choice([" ", " ", ""])
                    data = json.dumps(p, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, None, 1]))
                    lines = [f"data:{sp}{x}" for x in data.split("\n")]
                    evl = f"event:{sp}next"
                    lines = [evl] + lines if rng.random() < 0.7 else lines + [evl]
                    if rng.random() < 0.2:
                        lines.insert(0, rng.choice([": c", f"id: {u.count}"]))
                    async for c in self.chunks((nl.join(lines) + nl + nl).encode()):
                        yield c
                elif kind == "complete":
                    if rng.random() < 0.8:
                        async for c in self.chunks(("event: complete" + nl + rng.choice(["", "data:" + nl, "data: {}" + nl]) + nl).encode()):
                            yield c
                    return
                elif kind == "fail":
                    yield ("event: next" + nl + "data: {nope" + nl + nl).encode()
                    return
                elif kind == "cut":
                    yield DROP
        finally:
            u.gone()

    async def multipart(self, u, bd):
        rng = self.rng
        nl = rng.choice([b"\r\n", b"\r\n", b"\n"])
        early = rng.random() < 0.7         # is the delimiter sent with the part it ends or with the next one?
        wrap = rng.random() < 0.7
        try:
            if early:
                yield rng.choice([b"", nl]) + b"--" + bd

            async def part(data):
                hd = rng.choice([b"content-type: application/json", b"Content-Type: application/json; charset=utf-8"])
                raw = (nl + hd + nl + nl + data + nl + b"--" + bd) if early else (nl + b"--" + bd + nl + hd + nl + nl + data)
                async for c in self.chunks(raw):
                    yield c
                if not early:               # a part is over when the next delimiter comes: send a heartbeat
                    async for c in self.chunks(nl + b"--" + bd + nl + hd + nl + nl + b"{}"):
                        yield c
            while True:
                try:
                    kind, p = await asyncio.wait_for(u.q.get(), rng.choice([0.1, 0.3]))
                except asyncio.TimeoutError:
                    async for c in part(b"{}"):
                        yield c
                    continue
                if kind == "next":
                    data = json.dumps({"payload": p} if wrap else p, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, None, 1])).encode()
                    async for c in part(data):
                        yield c
                elif kind == "complete":
                    async for c in self.chunks((b"--" if early else nl + b"--" + bd + b"--") + rng.choice([b"", nl])):
                        yield c
                    return
                elif kind == "fail":
                    async for c in part(rng.choice([b'{"payload":null,"errors":[{"message":"died"}]}', b"{nope"])):
                        yield c
                    yield b"--" + (b"" if early else bd + b"--") + nl
                    return
                elif kind == "cut":
                    yield DROP
        finally:
            u.gone()

    async def ws(self, ws, req):
        ups = {}
        tasks = []
        rng = self.rng

        async def pump(i, u):
            while True:
                kind, p = await u.q.get()
                if kind == "next":
                    await ws.send({"id": i, "type": "next", "payload": p})
                elif kind == "complete":
                    ups.pop(i, None)
                    await ws.send({"id": i, "type": "complete"})
                    return
                elif kind == "fail":
                    ups.pop(i, None)
                    await ws.send({"id": i, "type": "error", "payload": [{"message": "died"}]})
                    return
                elif kind == "cut":
                    for v in list(ups.values()):
                        if v is not u and v.st == "live":
                            v.st = "cut"
                            self.log(ev="cut", u=v.n)
                    ws.abort()
                    return
        try:
            while True:
                m = await ws.recv(3600)
                t = m.get("type")
                if t == "connection_init":
                    await asyncio.sleep(rng.choice([0, 0.01]))
                    await ws.send({"type": "connection_ack"})
                elif t == "ping":
                    await ws.send({"type": "pong"})
                elif t == "subscribe":
                    u = self.arrive(m["payload"])
                    if rng.random() < 0.08 and u.count == 0:
                        u.finish("deny")
                        await ws.send({"id": m["id"], "type": "error", "payload": [{"message": "denied"}]})
                        continue
                    ups[m["id"]] = u
                    tasks.append(asyncio.ensure_future(pump(m["id"], u)))
                elif t == "complete":
                    u = ups.pop(m["id"], None)
                    if u:
                        u.gone()
        except (WSClosed, ConnectionError):
            pass
        finally:
            for t in tasks:
                t.cancel()
            for u in ups.values():
                u.gone()

    async def callback(self, u, b):
        s = b["extensions"]["subscription"]
        port, path = int(re.search(r":(\d+)/", s["callbackUrl"]).group(1)), re.search(r":\d+(/.*)", s["callbackUrl"]).group(1)
        rng = self.rng

        async def post(kind, headers=None, verifier=None, id=None, p=path, **k):
            body = dict(kind="subscription", action=kind, id=id or s["subscriptionId"], verifier=verifier or s["verifier"], **k)
            return (await request(port, "POST", p, headers if headers is not None else [("content-type", "application/json"), ("subscription-protocol", "callback/1.0")], json.dumps(body).encode())).status

        async def forge():
            """messages that are not the subgraph's must be refused and have no effect"""
            fake = {"payload": {"data": {"ev": {"__typename": "Ev", "id": "u0e0", "txt": "forged"}, "num": 5}}}
            what = rng.choice(["verifier", "header", "id", "path"])
            act = rng.choice(["next", "complete"])
            fk = fake if act == "next" else {}
            st = await (post(act, verifier="01ARZ3NDEKTSV4RRFFQ69G5FAV", **fk) if what == "verifier" else post(act, headers=[("content-type", "application/json")], **fk) if what == "header" else
                        post(act, id="01ARZ3NDEKTSV4RRFFQ69G5FAV", **fk) if what == "id" else post(act, p=path.rsplit("/", 1)[0] + "/01ARZ3NDEKTSV4RRFFQ69G5FAV", **fk))
            self.forged += 1
            self.log(ev="forge", ok=st < 400, what=what)

        async def run():
            try:
                while True:
                    try:
                        kind, p = await asyncio.wait_for(u.q.get(), 0.15)
                    except asyncio.TimeoutError:
                        if await post("check") == 404:
                            return
                        continue
                    if rng.random() < 0.1:
                        await forge()
                    if kind == "next":
                        st = await post("next", payload=p)
                    elif kind == "complete":
                        st = await post("complete", **rng.choice([{}, {"errors": []}]))
                        return
                    elif kind == "fail":
                        st = await post("complete", errors=[{"message": "died"}])
                        return
                    if st == 404:
                        return
                    if st != 204:
                        self.log(ev="forge", ok=True, what=f"status {st}")
            finally:
                u.gone()
        st = await post("check")
        if st == 404:               # everybody who wanted this has left
            u.gone()
            return Reply(404, [], b"")
        if st != 204:
            self.log(ev="forge", ok=True, what=f"check status {st}")
        t = asyncio.ensure_future(run())
        self.tasks.append(t)
        if rng.random() < 0.5:
            await asyncio.sleep(0.01)
        return Reply(200, [("subscription-protocol", "callback/1.0")], {"data": None})

    # ------------------------------------------------------------ clients
    def receive(self, c, p):
        """a payload arrives at client c"""
        d = p.get("data")
        if d is None:
            c.st = "end"
            c.after = "error"
            self.log(ev="end", c=c.n, kind="error")
            return
        s = canon(d)
        m = re.search(r'"u(\d+)e(\d+)"', json.dumps(d))
        if m:
            u, n = int(m.group(1)), int(m.group(2))
        elif isinstance(d.get("num"), int):
            u, n = divmod(d["num"], 100000)
        else:
            u, n = 0, 0
        c.up, c.last = u, n
        self.log(ev="recv", c=c.n, u=u, n=n, val=s + ("!" if p.get("errors") else ""))

    def ended(self, c, kind):
        if c.st == "open":
            c.st = "end"
            self.log(ev="end", c=c.n, kind=kind)
        elif c.st == "end" and kind != "complete":
            self.log(ev="recv", c=c.n, u=0, n=0, val=kind)


class Client:
    def __init__(self, d, n, key, kind):
        self.d, self.n, self.key, self.kind = d, n, key, kind
        self.st, self.up, self.last, self.after = "open", 0, 0, None

    def body(self):
        q, v = FORMS[int(self.key[0])](self.key[1:])
        b = {"query": q}
        if v:
            b["variables"] = v
        return b

    async def http(self):
        d = self.d
        acc = {"sse": "text/event-stream", "apollo": 'multipart/mixed;subscriptionSpec="1.0", application/json', "inc": "multipart/mixed"}[self.kind]
        d.log(ev="open", c=self.n, key=self.key, kind=self.kind, must=self.kind)
        self.s = Stream(d.rt.port, "POST", "/graphql", [("content-type", "application/json"), ("accept", acc)], json.dumps(self.body()).encode())
        try:
            await self.s.open()
        except (ConnectionError, asyncio.IncompleteReadError):
            if self.st == "open":
                d.ended(self, "broken")
            return
        if self.st != "open":
            return self.s.close()
        ct = self.s.header("content-type") or ""
        if self.s.status != 200 or ct.startswith("application/"):
            return d.ended(self, "refused")
        d.log(ev="opened", c=self.n)
        if self.kind == "sse":
            while self.st != "left":
                e = await self.s.sse_event(3600)
                if self.st == "left":
                    return
                if e is False:
                    return d.ended(self, "broken") if self.st == "open" else None
                if e[0] == "complete":
                    d.ended(self, "complete")
                elif self.st == "open":
                    d.receive(self, json.loads(e[1]))
                else:
                    d.ended(self, "late " + str(e))
            return
        # multipart: a part is complete when the delimiter that ends it has come
        bd = b"--" + re.search(r'boundary="?([^";]+)', ct).group(1).encode()
        assert self.kind != "apollo" or bd == b"--graphql", ct
        first = True
        while self.st != "left":
            m = await self.s.more(3600)
            if self.st == "left":
                return
            while True:
                if first:
                    if self.s.buf.startswith(bd):
                        self.s.buf, first = self.s.buf[len(bd):], False
                    else:
                        break
                if self.s.buf.startswith(b"--"):
                    d.ended(self, "complete")
                    self.s.buf = b""
                    break
                i = self.s.buf.find(b"\r\n" + bd)
                if i < 0:
                    break
                p, self.s.buf = self.s.buf[:i], self.s.buf[i + len(bd) + 2:]
                j = json.loads(p.partition(b"\r\n\r\n")[2])
                if self.kind == "apollo":
                    if j == {}:
                        continue
                    j = j["payload"]
                if self.st == "open":
                    d.receive(self, j)
                else:
                    d.ended(self, "late " + str(j))
            if m is False:
                return d.ended(self, "broken") if self.st == "open" else None

    async def leave(self):
        self.st = "left"
        self.d.log(ev="leave", c=self.n)
        if self.kind == "ws":
            await self.conn.leave(self)
        else:
            self.s.close()


class WsConn:
    """a client connection that carries several subscriptions"""

    def __init__(self, d):
        self.d, self.cls, self.dead = d, {}, False

    async def start(self):
        self.ws = await WS.connect(self.d.rt.port)
        await self.ws.send({"type": "connection_init"})
        assert (await self.ws.recv())["type"] == "connection_ack"
        self.d.tasks.append(asyncio.ensure_future(self.read()))
        return self

    async def subscribe(self, c):
        c.conn = self
        self.cls[f"i{c.n}"] = c
        self.d.log(ev="open", c=c.n, key=c.key, kind="ws", must=f"ws{id(self)}")
        await self.ws.send({"id": f"i{c.n}", "type": "subscribe", "payload": c.body()})

    async def leave(self, c):
        if self.d.rng.random() < 0.3:
            for x in self.cls.values():
                if x.st == "open":
                    x.st = "left"
                    self.d.log(ev="leave", c=x.n)
            self.dead = True
            self.ws.abort()
        else:
            await self.ws.send({"id": f"i{c.n}", "type": "complete"})

    async def read(self):
        try:
            while True:
                m = await self.ws.recv(3600)
                c = self.cls.get(m.get("id"))
                if m["type"] == "ping":
                    await self.ws.send({"type": "pong"})
                if not c or c.st == "left":
                    continue
                if m["type"] == "next":
                    if c.st == "open":
                        self.d.receive(c, m["payload"])
                    else:
                        self.d.ended(c, "late")
                elif m["type"] == "error":
                    self.d.ended(c, "error")
                elif m["type"] == "complete":
                    self.d.ended(c, "complete")
        except (WSClosed, ConnectionError):
            if not self.dead:
                for c in self.cls.values():
                    if c.st == "open":
                        self.d.ended(c, "broken")
            self.dead = True


async def history(seed, kind, steps):
    d = Driver(seed, kind)
    rng = d.rng
    d.tasks = []
    await d.srv.start()
    dedupe = rng.random() < 0.6
    mix = rng.random() < 0.6
    cap = rng.choice([32, 32, 4, 2])
    sub = {"enabled": True, "broadcast_capacity": cap}
    if kind == "ws":
        sub["websocket"] = rng.choice([{"all": {}}, {"all": {"path": "/ws"}}, {"subgraphs": {"a": {"path": "/w"}}}])
    if kind == "callback":
        port = free_port()
        sub["callback"] = {"public_url": f"http://127.0.0.1:{port}/callback", "listen": f"127.0.0.1:{port}", "heartbeat_interval": "2s", "subgraphs": ["a"]}
    ts = {"router": {"dedupe": dict(enabled=dedupe, **({"headers": "none"} if mix else {}))}}
    if kind == "ws" and rng.random() < 0.4:
        ts["all"] = {"websocket": {"reuse_connections": False}}
    config = {"subscriptions": sub, "websocket": {"enabled": True}, "traffic_shaping": ts}
    d.log(ev="reset", dedupe=dedupe, mix=mix, cap=min(cap, 16 if kind == "callback" else cap), lazy=kind == "ws", src=dict(seed=seed, kind=kind, config=config))
    d.rt = rt = Router(config, SDL % dict(port=d.srv.port))
    await rt.start()
    conns = []
    keys = [f"{rng.randrange(4)}{k}" for k in ("x", "y", "z")][: rng.choice([1, 2, 3])]

    async def open_client():
        c = Client(d, len(d.cls) + 1, rng.choice(keys), rng.choice(["sse", "apollo", "inc", "ws", "ws"]))
        d.cls.append(c)
        if c.kind == "ws":
            live = [x for x in conns if not x.dead]
            if not live or rng.random() < 0.3:
                live = [await WsConn(d).start()]
                conns.extend(live)
            await rng.choice(live).subscribe(c)
        else:
            c.task = asyncio.ensure_future(c.http())
            d.tasks.append(c.task)

    def settled():
        for c in d.cls:
            if c.st == "open":
                u = d.ups[c.up - 1] if c.up else None
                if u is None:
                    if not any(u.key == c.key and u.st == "live" and u.count == 0 for u in d.ups):
                        return False
                elif u.st != "live" or c.last < u.count:
                    return False
        for u in d.ups:
            if u.st == "live" and not any((c.st == "open" or (c.st == "left" and c.kind != "ws")) and (c.up == u.n or (not c.up and c.key == u.key)) for c in d.cls):
                return False
        return True

    try:
        for st in range(steps):
            x = rng.random()
            live = [u for u in d.ups if u.st == "live"]
            oc = [c for c in d.cls if c.st == "open" and (c.kind == "ws" or hasattr(c, "s"))]
            if x < 0.3 or not live:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    if len(oc) < 12:
                        await open_client()
            elif x < 0.7:
                for _ in range(rng.choice([1, 1, 2, 5, 12])):
                    rng.choice(live).emit()
                    if rng.random() < 0.5:
                        await asyncio.sleep(0.002)
            elif x < 0.78:
                rng.choice(live).finish(rng.choice(["complete", "complete", "complete", "fail", "cut"] if kind != "callback" else ["complete", "complete", "fail"]))
            elif x < 0.93 and oc:
                for c in rng.sample(oc, min(len(oc), rng.choice([1, 1, 1, 3, 12]))):
                    if c.st == "open":
                        await c.leave()
            await asyncio.sleep(rng.choice([0, 0, 0.005, 0.02, 0.06]))
            if rng.random() < 0.12 or st == steps - 1:
                await asyncio.sleep(0.1)
                t0 = time.time()
                while time.time() - t0 < WAIT and not settled():
                    await asyncio.sleep(0.05)
                d.log(ev="quiet")
            for t in d.tasks:
                if t.done() and not t.cancelled():
                    t.result()
        assert rt.alive(), rt.read_log()[-2000:]
    finally:
        d.over = True
        for t in d.tasks:
            t.cancel()
        rt.stop()
        await d.srv.stop()
    return d.ev


async def p11(c):
    c.model("MCSubscription", "MCSubscriptionDeep" if THOROUGH else None)
    n, steps = (28, 40) if not THOROUGH else (200, 100)
    sem = asyncio.Semaphore(7)

    async def go(i):
        async with sem:
            return await history(SEED * 10000 + i, ["sse", "multipart", "http", "ws", "callback", "ws", "multipart"][i % 7], steps)
    hs = await asyncio.gather(*[go(i) for i in range(n)])
    cnt = lambda e: sum(1 for h in hs for x in h if x["ev"] == e)
    c.note(clients=cnt("open"), upstreams=cnt("up"), values=cnt("emit"), received=cnt("recv"), quiet_points=cnt("quiet"), left=cnt("leave"), forged=cnt("forge"))
    for h in hs[:3]:
        c.sample([h[0]["src"]["kind"]] + [{k: v for k, v in e.items() if k != "val"} for e in h[1:12]])
    c.validate_many("TraceSubscription", hs, describe=lambda t: json.dumps(t[0]["src"]))
