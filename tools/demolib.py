"""Self-contained helpers for demonstrations (standard library only): runs the router built from the current directory."""
import contextlib, http.client, http.server, json, os, shutil, socket, subprocess, sys, tempfile, threading, time

ENV = None


def build():
    global ENV
    r = subprocess.run(["bash", "-c", '. /opt/vp/env.sh; cargo build "${FLAGS[@]}" --tests --bin hive_router 2>&1 | tail -5; exit ${PIPESTATUS[0]}'],
                       stdout=subprocess.PIPE, text=True)
    if r.returncode:
        print(r.stdout)
        sys.exit("build failed")
    return os.path.join(os.getcwd(), "target/debug/hive_router")


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Mock:
    """HTTP server; handler(path, headers, body_json, raw) -> (status, headers dict, bytes|obj)"""

    def __init__(self, handler):
        outer = self
        self.reqs = []

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_POST(self):
                n = int(self.headers.get("content-length") or 0)
                raw = self.rfile.read(n)
                try:
                    j = json.loads(raw)
                except Exception:
                    j = None
                outer.reqs.append((self.path, dict(self.headers), j))
                st, hs, body = handler(self.path, self.headers, j, raw)
                if not isinstance(body, bytes):
                    body = json.dumps(body).encode()
                try:
                    self.send_response(st)
                    hs = dict(hs)
                    hs.setdefault("content-type", "application/json")
                    for k, v in hs.items():
                        self.send_header(k, v)
                    self.send_header("content-length", str(len(body)))
                    self.end_headers()
                    self.wfile.write(body)
                except Exception:
                    pass

            do_GET = do_POST

            def log_message(self, *a):
                pass

        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()


class Resp:
    def __init__(self, status, headers, body):
        self.status, self.headers, self.body = status, headers, body

    @property
    def json(self):
        return json.loads(self.body)


def req(port, method, path, headers=(), body=None, timeout=30):
    c = http.client.HTTPConnection("127.0.0.1", port, timeout=timeout)
    c.putrequest(method, path, skip_accept_encoding=True)
    for k, v in (headers.items() if isinstance(headers, dict) else headers):
        c.putheader(k, v)
    if body is not None:
        c.putheader("content-length", str(len(body)))
    c.endheaders(body)
    r = c.getresponse()
    b = r.read()
    c.close()
    return Resp(r.status, r.getheaders(), b)


def gql(port, query, variables=None, headers=(), **kw):
    h = [("content-type", "application/json"), ("accept", "application/json")] + list(headers)
    b = {"query": query}
    if variables is not None:
        b["variables"] = variables
    b.update(kw)
    return req(port, "POST", "/graphql", h, json.dumps(b).encode())


@contextlib.contextmanager
def router(config, sdl, env=None):
    binp = build()
    d = tempfile.mkdtemp(prefix="demo-")
    port = free_port()
    open(d + "/supergraph.graphql", "w").write(sdl)
    cfg = dict(config)
    cfg["http"] = dict(cfg.get("http", {}), port=port, host="127.0.0.1", workers=2)
    cfg.setdefault("supergraph", {"source": "file", "path": d + "/supergraph.graphql"})
    cfg.setdefault("log", {"level": "error"})
    json.dump(cfg, open(d + "/c.yaml", "w"))
    e = {k: v for k, v in os.environ.items() if not k.startswith("HIVE_")}
    e.update(ROUTER_CONFIG_FILE_PATH=d + "/c.yaml", **(env or {}))
    p = subprocess.Popen([binp], cwd=d, env=e, stdout=open(d + "/log", "w"), stderr=subprocess.STDOUT)
    try:
        t0 = time.time()
        while True:
            try:
                if req(port, "GET", "/readiness", timeout=2).status == 200:
                    break
            except OSError:
                pass
            if p.poll() is not None or time.time() - t0 > 60:
                sys.exit("router did not start: " + open(d + "/log").read()[-2000:])
            time.sleep(0.05)
        yield type("R", (), dict(port=port, dir=d, sg=d + "/supergraph.graphql", proc=p))
    finally:
        p.kill()
        p.wait()
        shutil.rmtree(d, ignore_errors=True)


def parallel(*fns):
    out = [None] * len(fns)

    def run(i):
        out[i] = fns[i]()
    ts = [threading.Thread(target=run, args=(i,)) for i in range(len(fns))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


JOIN = '''schema @link(url: "https://specs.apollo.dev/link/v1.0") @link(url: "https://specs.apollo.dev/join/v0.3", for: EXECUTION) %s { query: Query %s }
directive @join__enumValue(graph: join__Graph!) repeatable on ENUM_VALUE
directive @join__field(graph: join__Graph requires: join__FieldSet provides: join__FieldSet type: String external: Boolean override: String usedOverridden: Boolean overrideLabel: String) repeatable on FIELD_DEFINITION | INPUT_FIELD_DEFINITION
directive @join__graph(name: String!, url: String!) on ENUM_VALUE
directive @join__implements(graph: join__Graph!, interface: String!) repeatable on OBJECT | INTERFACE
directive @join__type(graph: join__Graph!, key: join__FieldSet, extension: Boolean! = false, resolvable: Boolean! = true, isInterfaceObject: Boolean! = false) repeatable on OBJECT | INTERFACE | UNION | ENUM | INPUT_OBJECT | SCALAR
directive @join__unionMember(graph: join__Graph!, member: String!) repeatable on UNION
directive @link(url: String as: String for: link__Purpose import: [link__Import]) repeatable on SCHEMA
directive @inaccessible on FIELD_DEFINITION | OBJECT | INTERFACE | UNION | ARGUMENT_DEFINITION | SCALAR | ENUM | ENUM_VALUE | INPUT_OBJECT | INPUT_FIELD_DEFINITION
directive @authenticated on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM
directive @requiresScopes(scopes: [[federation__Scope!]!]!) on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM
directive @cost(weight: Int!) on ARGUMENT_DEFINITION | ENUM | FIELD_DEFINITION | INPUT_FIELD_DEFINITION | OBJECT | SCALAR
directive @listSize(assumedSize: Int, slicingArguments: [String!], sizedFields: [String!], requireOneSlicingArgument: Boolean = true) on FIELD_DEFINITION
scalar join__FieldSet
scalar link__Import
scalar federation__Scope
enum link__Purpose { SECURITY EXECUTION }
'''


def sdl(body, port, graphs=("A", "B"), links="", roots=""):
    g = "enum join__Graph {\n" + "\n".join(f'  {x} @join__graph(name: "{x.lower()}", url: "http://127.0.0.1:{port}/{x}")' for x in graphs) + "\n}\n"
    return JOIN % (links, roots) + g + body
