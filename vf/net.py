"""Black-box plumbing: the real router as a subprocess, mock servers, raw HTTP and WebSocket clients."""
import asyncio, json, os, socket, subprocess, time, tempfile, shutil, base64, hashlib, struct, signal
from .core import VH, OUT, ToolError, log

_used_ports = set()


def free_port():
    for _ in range(200):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        p = s.getsockname()[1]
        s.close()
        if p not in _used_ports:
            _used_ports.add(p)
            return p
    raise ToolError("no free port")


class RouterDied(Exception):
    pass


class Router:
    """The real router binary with a given configuration (dict) and supergraph SDL."""

    def __init__(self, config=None, supergraph=None, env=None, workdir=None, loglevel="error"):
        self.config = dict(config or {})
        self.dir = workdir or tempfile.mkdtemp(prefix="vf-router-")
        self.supergraph = supergraph
        self.env = env or {}
        self.loglevel = loglevel
        self.proc = None
        self.port = None

    @property
    def sg_path(self):
        return os.path.join(self.dir, "supergraph.graphql")

    async def start(self, wait=True, ready_timeout=20):
        for attempt in range(4):
            self.port = free_port()
            cfg = dict(self.config)
            http = dict(cfg.get("http", {}))
            http["port"] = self.port
            http.setdefault("host", "127.0.0.1")
            http.setdefault("workers", 2)
            cfg["http"] = http
            if self.supergraph is not None:
                with open(self.sg_path, "w") as f:
                    f.write(self.supergraph)
                cfg.setdefault("supergraph", {"source": "file", "path": self.sg_path})
            cfg.setdefault("log", {"level": self.loglevel})
            cp = os.path.join(self.dir, "router.config.yaml")
            with open(cp, "w") as f:
                json.dump(cfg, f, indent=1)
            env = {k: v for k, v in os.environ.items() if not k.startswith("HIVE_") and k not in ("PORT", "HOST", "LOG_LEVEL", "RUST_LOG")}
            env.update(ROUTER_CONFIG_FILE_PATH=cp, CARGO="1")
            env.update({k: str(v) for k, v in self.env.items()})
            self.logf = open(os.path.join(self.dir, "log"), "w")
            self.proc = subprocess.Popen([VH, "router"], cwd=self.dir, env=env, stdout=self.logf, stderr=subprocess.STDOUT,
                                         start_new_session=True)
            if not wait:
                return self
            t0 = time.time()
            while time.time() - t0 < ready_timeout:
                if self.proc.poll() is not None:
                    break
                try:
                    r = await request(self.port, "GET", "/readiness", timeout=2)
                    if r.status == 200:
                        return self
                except Exception:
                    pass
                await asyncio.sleep(0.03)
            lg = self.read_log()
            self.stop(keep=True)
            if "address already in use" in lg.lower() or "addrinuse" in lg.lower():
                continue
            self.stop()
            raise RouterDied(f"router did not become ready: {lg[-1500:]}")
        raise ToolError("could not bind a port")

    def read_log(self):
        try:
            return open(os.path.join(self.dir, "log")).read()
        except Exception:
            return ""

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def stop(self, keep=False):
        if self.proc is not None:
            try:
                self.proc.kill()
                self.proc.wait(5)
            except Exception:
                pass
            self.logf.close()
        if not keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def terminate(self):
        self.proc.send_signal(signal.SIGTERM)

    async def __aenter__(self):
        return await self.start()

    async def __aexit__(self, *a):
        self.stop()

    # ---- requests
    async def gql(self, query=None, variables=None, operationName=None, headers=None, extensions=None, timeout=30, extra=None, path="/graphql"):
        body = {}
        if query is not None:
            body["query"] = query
        if variables is not None:
            body["variables"] = variables
        if operationName is not None:
            body["operationName"] = operationName
        if extensions is not None:
            body["extensions"] = extensions
        if extra:
            body.update(extra)
        h = [("content-type", "application/json"), ("accept", "application/json")]
        for k, v in (headers.items() if isinstance(headers, dict) else headers or []):
            h = [x for x in h if x[0] != k.lower() or k.lower() not in ("content-type", "accept")]
            h.append((k, v))
        return await request(self.port, "POST", path, h, json.dumps(body).encode(), timeout=timeout)


class Response:
    def __init__(self, status, headers, body):
        self.status, self.headers, self.body = status, headers, body

    def header(self, name):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return None

    def header_all(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def json(self):
        try:
            return json.loads(self.body)
        except Exception:
            return None

    def __repr__(self):
        return f"<{self.status} {self.body[:300]!r}>"


async def _read_headers(r):
    line = await r.readline()
    if not line:
        raise ConnectionError("closed")
    first = line.decode("latin1").rstrip("\r\n")
    hs = []
    while True:
        line = await r.readline()
        if not line:
            raise ConnectionError("closed in headers")
        line = line.decode("latin1").rstrip("\r\n")
        if not line:
            break
        k, _, v = line.partition(":")
        hs.append((k.strip(), v.strip()))
    return first, hs


async def read_body_chunks(r, headers, is_response=True):
    """async generator of raw body chunks"""
    hd = {k.lower(): v for k, v in headers}
    if "chunked" in hd.get("transfer-encoding", "").lower():
        while True:
            ln = await r.readline()
            if not ln:
                raise ConnectionError("closed in chunk")
            n = int(ln.split(b";")[0].strip() or b"0", 16)
            if n == 0:
                while True:
                    l2 = await r.readline()
                    if l2 in (b"\r\n", b"\n", b""):
                        return
            data = await r.readexactly(n)
            await r.readexactly(2)
            yield data
    elif "content-length" in hd:
        n = int(hd["content-length"])
        if n:
            yield await r.readexactly(n)
    elif is_response:
        while True:
            d = await r.read(65536)
            if not d:
                return
            yield d


def _head(method, path, headers, body, port):
    names = {k.lower() for k, _ in headers}
    out = f"{method} {path} HTTP/1.1\r\n"
    if "host" not in names:
        out += f"host: 127.0.0.1:{port}\r\n"
    for k, v in headers:
        if isinstance(v, bytes):
            v = v.decode("latin1")
        out += f"{k}: {v}\r\n"
    if "content-length" not in names and "transfer-encoding" not in names and (body or method in ("POST", "PUT")):
        out += f"content-length: {len(body or b'')}\r\n"
    if "connection" not in names:
        out += "connection: close\r\n"
    return (out + "\r\n").encode("latin1")


async def request(port, method, path, headers=(), body=b"", timeout=30, host="127.0.0.1"):
    """One HTTP exchange. A connection closed without response gives status 0 (a crashed handler is data)."""
    headers = list(headers.items()) if isinstance(headers, dict) else list(headers)

    async def go():
        r, w = await asyncio.open_connection(host, port, limit=1 << 24)
        try:
            try:
                w.write(_head(method, path, headers, body, port))
                w.write(body or b"")
                await w.drain()
            except ConnectionError:
                pass
            try:
                first, hs = await _read_headers(r)
                status = int(first.split(" ")[1])
                data = b""
                if method != "HEAD" and status not in (204, 304):
                    async for c in read_body_chunks(r, hs):
                        data += c
            except (ConnectionError, asyncio.IncompleteReadError) as e:
                return Response(0, [], b"closed: " + str(e).encode())
            return Response(status, hs, data)
        finally:
            w.close()

    try:
        return await asyncio.wait_for(go(), timeout)
    except asyncio.TimeoutError:
        return Response(-1, [], b"timeout")


class Stream:
    """An open streaming HTTP exchange (SSE / multipart subscriptions)."""

    def __init__(self, port, method, path, headers, body):
        self.args = (port, method, path, headers, body)
        self.status, self.headers = None, []

    async def open(self, timeout=20):
        port, method, path, headers, body = self.args
        self.r, self.w = await asyncio.open_connection("127.0.0.1", port, limit=1 << 24)
        self.w.write(_head(method, path, list(headers), body, port) + (body or b""))
        await self.w.drain()
        first, self.headers = await asyncio.wait_for(_read_headers(self.r), timeout)
        self.status = int(first.split(" ")[1])
        self._gen = read_body_chunks(self.r, self.headers)
        self.buf = b""
        self.eof = False
        return self

    def header(self, n):
        for k, v in self.headers:
            if k.lower() == n.lower():
                return v

    async def more(self, timeout):
        """reads one chunk; returns False at end, None at timeout"""
        if self.eof:
            return False
        # keep one pending anext alive across timeouts so that no data is lost
        if getattr(self, "_pend", None) is None:
            self._pend = asyncio.ensure_future(self._gen.__anext__())
        done, _ = await asyncio.wait([self._pend], timeout=timeout)
        if not done:
            return None
        t, self._pend = self._pend, None
        try:
            self.buf += t.result()
            return True
        except (StopAsyncIteration, ConnectionError, asyncio.IncompleteReadError):
            self.eof = True
            return False

    async def sse_event(self, timeout=10):
        """next SSE event (event, data) | None on timeout | False at end; comments (heartbeats) skipped"""
        t0 = time.time()
        while True:
            b = self.buf.replace(b"\r\n", b"\n")
            if b"\n\n" in b:
                raw, _, rest = b.partition(b"\n\n")
                self.buf = rest
                ev, data = "", []
                for ln in raw.split(b"\n"):
                    if ln.startswith(b"event:"):
                        ev = ln[6:].strip().decode()
                    elif ln.startswith(b"data:"):
                        data.append(ln[5:].strip().decode())
                if not ev and not data:
                    continue
                return ev, "\n".join(data)
            left = timeout - (time.time() - t0)
            if left <= 0:
                return None
            m = await self.more(left)
            if m is False:
                return False

    def close(self):
        p = getattr(self, "_pend", None)
        if p:
            p.cancel()
        try:
            self.w.transport.abort()
        except Exception:
            pass


# ---------------------------------------------------------------- servers
class Req:
    def __init__(self, method, path, headers, body, conn):
        self.method, self.path, self.headers, self.body, self.conn = method, path, headers, body, conn

    def header(self, name):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return None

    def header_all(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def json(self):
        try:
            return json.loads(self.body)
        except Exception:
            return None


class Reply:
    def __init__(self, status=200, headers=None, body=b"", stream=None):
        self.status = status
        self.headers = list(headers or [])
        if isinstance(body, (dict, list)):
            body = json.dumps(body).encode()
            if not any(k.lower() == "content-type" for k, _ in self.headers):
                self.headers.append(("content-type", "application/json"))
        elif isinstance(body, str):
            body = body.encode()
        self.body = body
        self.stream = stream      # async generator of bytes chunks


DROP = "DROP"   # handler return value: close the connection without a response


class Server:
    """Asyncio HTTP/1.1 server; handler(req) -> Reply | DROP | coroutine."""

    def __init__(self, handler, ws_handler=None):
        self.handler, self.ws_handler = handler, ws_handler
        self.port = None
        self.conns = set()

    async def start(self, port=None):
        self.srv = await asyncio.start_server(self._conn, "127.0.0.1", port or 0, limit=1 << 24)
        self.port = self.srv.sockets[0].getsockname()[1]
        return self

    @property
    def url(self):
        return f"http://127.0.0.1:{self.port}"

    async def _conn(self, r, w):
        self.conns.add(w)
        try:
            while True:
                try:
                    first, hs = await _read_headers(r)
                except (ConnectionError, asyncio.IncompleteReadError, ValueError):
                    return
                method, path, _ = first.split(" ", 2)
                hd = {k.lower(): v for k, v in hs}
                if hd.get("upgrade", "").lower() == "websocket" and self.ws_handler:
                    key = hd["sec-websocket-key"]
                    acc = base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
                    out = f"HTTP/1.1 101 Switching Protocols\r\nupgrade: websocket\r\nconnection: Upgrade\r\nsec-websocket-accept: {acc}\r\n"
                    if "sec-websocket-protocol" in hd:
                        out += f"sec-websocket-protocol: {hd['sec-websocket-protocol'].split(',')[0].strip()}\r\n"
                    w.write((out + "\r\n").encode())
                    await w.drain()
                    await self.ws_handler(WS(r, w, client=False), Req(method, path, hs, b"", w))
                    return
                body = b""
                async for c in read_body_chunks(r, hs, is_response=False):
                    body += c
                req = Req(method, path, hs, body, w)
                rep = self.handler(req)
                if asyncio.iscoroutine(rep):
                    rep = await rep
                if rep is DROP or rep is None:
                    w.transport.abort()
                    return
                out = f"HTTP/1.1 {rep.status} X\r\n"
                for k, v in rep.headers:
                    out += f"{k}: {v}\r\n"
                if rep.stream is not None:
                    out += "transfer-encoding: chunked\r\n\r\n"
                    w.write(out.encode("latin1"))
                    await w.drain()
                    gone = asyncio.ensure_future(r.read(1))   # detects the peer going away
                    gen = rep.stream
                    try:
                        while True:
                            nxt = asyncio.ensure_future(gen.__anext__())
                            done, _ = await asyncio.wait([nxt, gone], return_when=asyncio.FIRST_COMPLETED)
                            if nxt not in done:
                                nxt.cancel()
                                try:
                                    await nxt
                                except BaseException:
                                    pass
                                return
                            try:
                                chunk = nxt.result()
                            except StopAsyncIteration:
                                break
                            if chunk is DROP:
                                w.transport.abort()
                                return
                            if chunk:
                                w.write(b"%x\r\n" % len(chunk) + chunk + b"\r\n")
                                await w.drain()
                        w.write(b"0\r\n\r\n")
                        await w.drain()
                    finally:
                        gone.cancel()
                        try:
                            await gen.aclose()
                        except RuntimeError:
                            pass
                    return
                if not any(k.lower() == "content-length" for k, _ in rep.headers):
                    out += f"content-length: {len(rep.body)}\r\n"
                w.write(out.encode("latin1") + b"\r\n" + rep.body)
                await w.drain()
        except (ConnectionError, asyncio.IncompleteReadError):
            pass
        finally:
            self.conns.discard(w)
            try:
                w.close()
            except Exception:
                pass

    async def stop(self):
        self.srv.close()
        for w in list(self.conns):
            try:
                w.transport.abort()
            except Exception:
                pass


# ---------------------------------------------------------------- websocket
class WSClosed(Exception):
    def __init__(self, code, reason=""):
        super().__init__(f"{code} {reason}")
        self.code, self.reason = code, reason


class WS:
    def __init__(self, r, w, client):
        self.r, self.w, self.client = r, w, client
        self.closed = None

    @staticmethod
    async def connect(port, path="/graphql", protocol="graphql-transport-ws", headers=(), timeout=10):
        r, w = await asyncio.open_connection("127.0.0.1", port, limit=1 << 24)
        key = base64.b64encode(os.urandom(16)).decode()
        h = f"GET {path} HTTP/1.1\r\nhost: 127.0.0.1:{port}\r\nupgrade: websocket\r\nconnection: Upgrade\r\nsec-websocket-key: {key}\r\nsec-websocket-version: 13\r\n"
        if protocol:
            h += f"sec-websocket-protocol: {protocol}\r\n"
        for k, v in headers:
            h += f"{k}: {v}\r\n"
        w.write((h + "\r\n").encode())
        await w.drain()
        first, hs = await asyncio.wait_for(_read_headers(r), timeout)
        st = int(first.split(" ")[1])
        if st != 101:
            data = b""
            async for c in read_body_chunks(r, hs):
                data += c
            w.close()
            return Response(st, hs, data)
        ws = WS(r, w, True)
        ws.resp_headers = hs
        return ws

    async def send_frame(self, op, data=b""):
        n = len(data)
        mb = 0x80 if self.client else 0
        h = bytes([0x80 | op])
        if n < 126:
            h += bytes([mb | n])
        elif n < 65536:
            h += bytes([mb | 126]) + struct.pack(">H", n)
        else:
            h += bytes([mb | 127]) + struct.pack(">Q", n)
        if self.client:
            m = os.urandom(4)
            h += m
            data = bytes(b ^ m[i % 4] for i, b in enumerate(data))
        self.w.write(h + data)
        await self.w.drain()

    async def send(self, obj):
        await self.send_frame(1, (obj if isinstance(obj, str) else json.dumps(obj)).encode())

    async def close(self, code=1000, reason=""):
        try:
            await self.send_frame(8, struct.pack(">H", code) + reason.encode())
        except Exception:
            pass

    def abort(self):
        try:
            self.w.transport.abort()
        except Exception:
            pass

    async def _frame(self):
        try:
            h = await self.r.readexactly(2)
            op, n = h[0] & 15, h[1] & 127
            if n == 126:
                n = struct.unpack(">H", await self.r.readexactly(2))[0]
            elif n == 127:
                n = struct.unpack(">Q", await self.r.readexactly(8))[0]
            m = await self.r.readexactly(4) if h[1] & 128 else None
            d = await self.r.readexactly(n)
        except (asyncio.IncompleteReadError, ConnectionError):
            raise WSClosed(1006, "eof")
        if m:
            d = bytes(b ^ m[i % 4] for i, b in enumerate(d))
        return op, d

    async def recv(self, timeout=10, raw=False):
        """next text message (JSON decoded); raises WSClosed; returns None on timeout. Pings are answered."""
        t0 = time.time()
        while True:
            if getattr(self, "_pend", None) is None:
                self._pend = asyncio.ensure_future(self._frame())
            left = max(0.0, timeout - (time.time() - t0))
            done, _ = await asyncio.wait([self._pend], timeout=left)
            if not done:
                return None
            t, self._pend = self._pend, None
            op, d = t.result()
            if op == 9:
                await self.send_frame(10, d)
                continue
            if op == 8:
                code = struct.unpack(">H", d[:2])[0] if len(d) >= 2 else 1005
                self.closed = (code, d[2:].decode("utf8", "replace"))
                raise WSClosed(*self.closed)
            if op == 1:
                if raw:
                    return d.decode()
                try:
                    return json.loads(d)
                except Exception:
                    return d.decode()
