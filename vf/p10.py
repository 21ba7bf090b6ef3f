"""P10: JWT authentication (spec/Jwt.tla): random keys, providers, rotations, tokens, expiry, caches, concurrent requests."""
import random
from .core import *
from .mini import *
from .jwtlib import *

MAT = {f"s{i}": (b"verif-secret-%d-" % i) * 4 for i in range(5)}      # HMAC material; "r0", "r1" are the RSA keys
LOC = [{"source": "header", "name": "Authorization", "prefix": "Bearer"}, {"source": "header", "name": "X-Tok"},
       {"source": "cookies", "name": "tok"}, {"source": "header", "name": "X-Alt", "prefix": "JWT:"}]
HS, RS = ["HS256", "HS384", "HS512"], ["RS256", "RS512"]


def mkkey(rng, m=None):
    m = m or rng.choice(["s0", "s1", "s2", "s3", "s4", "r0", "r1"])
    alg = rng.choice((HS if m[0] == "s" else RS) + [None, HS[0] if m[0] == "s" else RS[0]])
    kid = rng.choice([None, "k1", "k1", "k2", m, m])
    return dict(kid=kid or "", alg=alg or "", kty="oct" if m[0] == "s" else "RSA", m=m)


# keys of no use for signatures that a provider may list beside the others
NOISE = [dict(rsa_jwk(1, "enc", "RSA-OAEP"), use="enc"), dict(jwk(b"x" * 32, "kw", "A256KW"), use="enc"), {"kty": "AKP", "kid": "pq", "alg": "ML-DSA-44", "pub": "AAAA"},
         {"kty": "EC", "use": "enc", "crv": "P-256", "kid": "ec", "alg": "ECDH-ES", "x": b64(b"1" * 32), "y": b64(b"2" * 32)}]


def jset(keys, noise):
    return json.dumps({"keys": noise[:1] + [jkey(k) for k in keys] + noise[1:]})


def jkey(k):
    return jwk(MAT[k["m"]], k["kid"] or None, k["alg"] or None) if k["kty"] == "oct" else rsa_jwk(int(k["m"][1]), k["kid"] or None, k["alg"] or None)


def mktoken(rng, i, cfg, keys, now):
    """-> abstract token (with sub), compact form, claims"""
    k = rng.choice(keys) if keys and rng.random() < 0.85 else mkkey(rng)
    m = k["m"]
    alg = k["alg"] if k["alg"] and rng.random() < 0.93 else rng.choice(HS if m[0] == "s" else RS)
    kid = k["kid"] if rng.random() < 0.75 else rng.choice(["", "k1", "k2", "zz", m])
    good = rng.random() < 0.6
    exp = int(now) + (3600 if good or rng.random() < 0.6 else rng.choice([-30, -59, -58, -57, -56, -54, -62, -100, 2, 4, 3]))
    claims = {"sub": f"u{i}", "exp": exp, "role": rng.choice(["x", "y"]), "n": {"a": [1, i]}}
    fine = True
    if not good and rng.random() < 0.12:
        del claims["exp"]
        fine = False
    if cfg["issOn"] or rng.random() < 0.3:
        if good or rng.random() < 0.7:
            claims["iss"] = cfg["iss"][0] if cfg["iss"] and (good or rng.random() < 0.6) else rng.choice(["i1", "i2", "evil"])
    aud = []
    if cfg["audOn"] or rng.random() < 0.3:
        pool = ["a1", "a2", "a3"]
        if good and cfg["aud"]:
            aud = [rng.choice(cfg["aud"])]
        elif rng.random() < 0.8:
            aud = rng.sample(pool, rng.choice([1, 1, 2]))
        if aud:
            claims["aud"] = aud[0] if len(aud) == 1 and rng.random() < 0.6 else aud
    if rng.random() < 0.3:
        claims["iat"] = int(now) - 5
        claims["jti"] = f"j{i}"
    tok = dict(kid=kid, alg=alg, m=m, fine=fine, exp=exp, iss=claims.get("iss", ""), aud=aud, sub=f"u{i}")
    x = rng.random()
    if x < 0.06 and m[0] == "r":          # algorithm confusion: the public key used as HMAC secret
        t = token(RSA[int(m[1])][0].to_bytes(256, "big"), claims, kid or None, "HS256")
        tok.update(alg="HS256", m="")
        return tok, t, claims
    t = token(MAT[m], claims, kid or None, alg) if m[0] == "s" else rsa_token(int(m[1]), claims, kid or None, alg)
    if x < 0.12:
        h, p, s = t.split(".")
        how = rng.randrange(6)
        tok["m"] = ""
        if how == 0:      # claims changed after signing
            c2 = dict(claims, sub=f"u{i}", role="admin")
            t = f"{h}.{b64(json.dumps(c2).encode())}.{s}"
        elif how == 1:
            t = f"{h}.{p}."
        elif how == 2:
            t = b64(b'{"typ":"JWT","alg":"none"}') + f".{p}."
        elif how == 3:
            t = f"{h}.{p}"
        elif how == 4:
            t = "garbage"
        else:
            t = f"{h}.{p}.{s[:-6]}AAAAAA" if not s.endswith("AAAAAA") else f"{h}.{p}.BBBBBB"
    return tok, t, claims


async def history(seed, dur):
    rng = random.Random(seed)
    cfg = dict(require=rng.random() < 0.4, issOn=rng.random() < 0.3, audOn=rng.random() < 0.3, iss=[], aud=[], algs=HS + ["RS256", "RS384", "RS512"])
    config = {"enabled": True, "forward_claims_to_upstream_extensions": {"enabled": True, "field_name": rng.choice(["jwt", "who"])}}
    if rng.random() < 0.8 or cfg["require"]:
        config["require_authentication"] = cfg["require"]
    if cfg["issOn"]:
        cfg["iss"] = config["issuers"] = rng.sample(["i1", "i2"], rng.choice([1, 2]))
    if cfg["audOn"]:
        cfg["aud"] = config["audiences"] = rng.sample(["a1", "a2", "a3"], rng.choice([1, 2]))
    if rng.random() < 0.3:
        cfg["algs"] = config["allowed_algorithms"] = rng.sample(HS + RS, 3)
    locs = LOC[:1]
    if rng.random() < 0.6:
        locs = config["lookup_locations"] = rng.sample(LOC, rng.choice([1, 2, 3]))
    field = config["forward_claims_to_upstream_extensions"]["field_name"]
    events, t0 = [], int(time.time())

    def ev(e, **kw):
        events.append(dict(ev=e, t=int((time.time() - t0) * 1000), **kw))

    hits, claims_of = {}, {}

    async def hook(g, body, req):       # the subgraph answers with who it was told is asking
        cl = (body.get("extensions") or {}).get(field)
        w = ""
        if cl is not None:
            w = cl.get("sub", "?")
            if claims_of.get(w) != cl:
                w = "altered:" + str(w)
        m = re.search(r"k(\d+)", body["query"])
        if m:
            hits[int(m.group(1))] = 1
        await asyncio.sleep(rng.choice([0, 0.002, 0.02]))
        return Reply(200, [], {"data": {f"k{m.group(1)}" if m else "user": {"name": w}}})
    m = await Mini(seed, hook=hook, nulls=0).start()
    # providers
    nsrc = rng.choice([1, 1, 2, 3])
    noise = rng.sample(NOISE, rng.choice([1, 2])) if rng.random() < 0.5 else []
    provs, srcs, servers, current = [], [], [], {}
    for s in range(1, nsrc + 1):
        keys = [mkkey(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.35:
            provs.append({"source": "file", "path": f"jwks{s}.json"})
            srcs.append((s, keys, None))
            continue
        current[s] = (keys, "ok")
        pre = rng.random() < 0.6

        def handler(s):
            async def h(req):
                ev("fetch", s=s)
                keys, mode = current[s]
                await asyncio.sleep(rng.choice([0, 0, 0.01, 0.05]))
                if mode == "hang":
                    await asyncio.sleep(0.6)
                    return DROP
                if mode != "ok":
                    return {"drop": DROP, "500": Reply(500, [], b"oops"), "junk": Reply(200, [], b'{"keys": 3}'), "trunc": Reply(200, [], b'{"keys": [')}[mode]
                ev("serve", s=s, keys=keys)
                return Reply(200, [("content-type", "application/json")], jset(keys, noise))
            return h
        sv = await Server(handler(s)).start()
        servers.append(sv)
        provs.append({"source": "remote", "url": sv.url + "/jwks", "polling_interval": f"{rng.choice([150, 250, 400])}ms", "prefetch": pre})
        srcs.append((s, [], None))
    config["jwks_providers"] = provs
    ts = {"router": {"dedupe": {"enabled": rng.random() < 0.5}}, "all": {"dedupe_enabled": rng.random() < 0.5}}
    rt = Router({"jwt": config, "traffic_shaping": ts}, m.sdl())
    for s, keys, _ in srcs:
        if s not in current:
            with open(os.path.join(rt.dir, f"jwks{s}.json"), "w") as f:
                f.write(jset(keys, noise))
    allk = lambda: [k for s, ks, _ in srcs for k in (current[s][0] if s in current else ks)]
    toks, compact = {}, {}
    start = time.time()
    for i in range(rng.choice([4, 8, 12])):
        tok, c, cl = mktoken(rng, i, cfg, allk(), start)
        tok["exp"] = (tok["exp"] - t0) * 1000
        toks[f"t{i}"], compact[f"t{i}"], claims_of[f"u{i}"] = tok, c, cl
    hist_reset = dict(ev="reset", t=int((start - t0) * 1000), cfg=cfg, toks=toks, sets=[ks for _, ks, _ in srcs], src=dict(seed=seed, noise=[k['alg'] for k in noise], jwt=config, compact=compact))
    await rt.start()
    ids = [0]

    async def one():
        ids[0] += 1
        r = ids[0]
        at, hs = [], []
        for lc in locs:
            x = rng.random()
            tn = rng.choice(list(toks))
            if x < (0.15 if len(locs) == 1 else 0.45):
                at.append("absent")
                if lc["source"] == "cookies" and rng.random() < 0.5:
                    hs.append(("Cookie", "other=1; toke=" + compact[tn]))
                continue
            if lc.get("prefix") and x < (0.22 if len(locs) == 1 else 0.5):
                at.append("mismatch")
                hs.append((lc["name"], rng.choice(["Basic ", "bearer ", ""]) + compact[tn]))
                continue
            at.append(tn)
            if lc["source"] == "cookies":
                hs.append(("Cookie", rng.choice(["", "a=b; ", "x=1;y=2; "]) + f"{lc['name']}={compact[tn]}" + rng.choice(["", "; z=1"])))
            elif lc.get("prefix"):
                hs.append((lc["name"], lc["prefix"] + rng.choice([" ", " ", "  "] if lc["prefix"] == "Bearer" else [""]) + compact[tn]))
            else:
                hs.append((lc["name"].lower(), compact[tn]))
        ev("send", r=r, at=at)
        own = rng.random() < 0.5      # a document of its own, or one shared with concurrent requests
        q = ("{ k%d: user(id: \"c\") { name } }" % r) if own else rng.choice(['{ user(id: "c") { name } }', '{ user(id: "d") { name } }'])
        res = await rt.gql(q, headers=hs)
        j = res.json() or {}
        refused = j.get("data") is None
        if refused and res.status not in (400, 401, 403):
            raise ToolError(f"unexpected answer {res.status} {res.body[:300]}")
        w = "" if refused else (j["data"][f"k{r}" if own else "user"] or {}).get("name", "none")
        ev("answer", r=r, who=w, refused=refused, hits=hits.get(r, 0), src=dict(status=res.status, body=res.body.decode("utf8", "replace")[:300]))
    try:
        end = time.time() + dur
        rot = time.time() + rng.choice([0.2, 0.5])
        while time.time() < end:
            await asyncio.gather(*[one() for _ in range(rng.choice([1, 1, 2, 4]))])
            await asyncio.sleep(rng.choice([0, 0.01, 0.05, 0.1]))
            if time.time() > rot and current:
                s = rng.choice(list(current))
                keys, mode = current[s]
                x = rng.random()
                if x < 0.35:
                    current[s] = (keys, rng.choice(["drop", "500", "junk", "trunc", "hang"]))
                elif x < 0.6:
                    current[s] = (keys, "ok")
                else:
                    ks = list(keys)
                    if ks and rng.random() < 0.6:
                        ks.remove(rng.choice(ks))
                    else:
                        ks.append(mkkey(rng, rng.choice([t["m"] for t in toks.values() if t["m"]] or ["s0"])))
                    current[s] = (ks, "ok")
                rot = time.time() + rng.choice([0.3, 0.8, 2])
        ev("end")
    finally:
        rt.stop()
        for sv in servers:
            await sv.stop()
        await m.stop()
    return [hist_reset] + events


async def p10(c):
    c.model("MCJwt")
    dur, k = (9, 16) if not THOROUGH else (25, 64)
    sem = asyncio.Semaphore(8)

    async def go(i):
        async with sem:
            return await history(SEED * 10000 + i, dur)
    hs = await asyncio.gather(*[go(i) for i in range(k)])
    ans = [e for h in hs for e in h if e["ev"] == "answer"]
    c.note(requests=len(ans), accepted=sum(1 for e in ans if e["who"]), refused=sum(1 for e in ans if e["refused"]), key_loads=sum(1 for h in hs for e in h if e["ev"] == "serve"))
    for h in hs[:3]:
        c.sample([h[0]["src"]["jwt"]] + h[1:4])
    c.validate_many("TraceJwt", hs, describe=lambda t: json.dumps(dict(t[0]["src"], compact=0)))
