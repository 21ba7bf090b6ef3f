"""Tokens and key sets for the JWT and authorization checks (HMAC keys only)."""
import base64, hashlib, hmac, json


def b64(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def jwk(secret, kid=None, alg="HS256"):
    k = {"kty": "oct", "use": "sig", "k": b64(secret)}
    if alg:
        k["alg"] = alg
    if kid:
        k["kid"] = kid
    return k


def token(secret, claims, kid=None, alg="HS256", header=None, tamper=None):
    h = {"typ": "JWT", "alg": alg}
    if kid:
        h["kid"] = kid
    h.update(header or {})
    s = b64(json.dumps(h).encode()) + "." + b64(json.dumps(claims).encode())
    dig = {"HS256": hashlib.sha256, "HS384": hashlib.sha384, "HS512": hashlib.sha512}.get(alg)
    sig = hmac.new(secret, s.encode(), dig).digest() if dig else b""
    t = s + "." + b64(sig)
    return tamper(t) if tamper else t


# test keys (RSA 2048): (n, d)
RSA = [
    (0xbc719d288a3adbf258703a88fa6bcc3e7be91dcb40f904a4bd24ffd6aa5b03a41d8df9b36c38509f9269d25c530b293e274a9ecf2cf4a3a76791cbd1b2b9643052f2b4c4b09a9e08a4c6c60872ed61c709dce2622402390d1a4056c06db63810120f1081cc15184c1631be5f1cda6ae1fd38856036524382cbc56b41439c11eff9383b79e6e1c571e297be6e364a3bf242bac82b0c35e2ba134c988676a3d79dfdb37b32cd093864d2ed315cf71176a5d1da14ebe00f239937080ee48d1f5c9c77dc581dfad0618fc6ee559dac65449f74162083901da8a14370485ec084e3a0301933db077636e7a3d48cd960c8b39ad78adb3331b4654cc6fcff3c6cf25c19,
     0x970f9ca43aeb241609bf2dad50d1c950ed93da466d3731f9bd86437099ef8be3abad7c55d092f44e76d84dc1a4f07587558803f6a05b1c35be58a9c2d83ab58de77098687409fe557f81b88e5d52dde6e8892110fb3cacef4bf3f7971a5bd0655194b1eedae2ae2f903b2018aed0888dd0a7d6836208600621c3884f311b936423793470adb845ccb73651f12f6645362111c703f609a3d5be2d453b3adbd27ebfc7441b142ad3b7a2b387f4a297959b598eeaf329d5dfd860b0ec13f4b6e770664428998170d4dfb2a0b7736d8ac993fd17cd3dfa8d7a15ae8ccbe67d3f7aa11b5f602a9bfce9d79bf4d9f28f5693f7838c85aeb8aa78c14d03ec1a19a03f7),
    (0xe5f5c089715c0cc471d87a4564571e1581aaaba70acc6ba86112e9e9dc199250e33e04f14392efc53bb26b8743fc9f5c9ac82e45a1a6381b5e5bddff65d48de55a1b1b18d8eb78fa743a1c4506fc6650b78e42a8abbf268585f90f8d2a8b3375a15cce291eedf6eb3c84433088ab8b31961e4279a76967f944199f1cfcdff88f421780ea43e072f975aede07517ac6b977d03b1744d78584b1f10e1a3fb0d69b433b9f649cf07eeab4f90fc00441e826c966a703f57c369df587a9beba6c69adf8d25f716009da5c602fbdabc52a1b9fa9c3fa9aeffd88f272280ed5dbfa81efcb74560aa89c4d846f030c9f1680229b4f4830093b860f28eca0528bf796caa7,
     0xb445631a5bf37d4ec2b0a1a9a46f66f6152066501cf703ae8beaf7d48ce6befd0a27a4583e510205ec36827517a70286e60fe7b64e72afa944df5fb8c76b49917281ad4c5d40bb261bd732322ab7d2bd9427c1b9d86991193b5d7403864679a0cd4ea38f38dff3a1955f5a0cc217389736c7a1f51c785539e358f29316e9bd3f945a2a2202525adaeb2125b8ee74c9cbc0412f6430b8250b8337accbbfc5d23b7cae67b006a018b3e4c89a8abd561adeaff27bf7ef1feb5b21d10c3a6db53fe48a7d2bd70121860a5cc7278d83c97f43e30f9020a4d80e41c9563b5a114b8f79ca02ec44e6162b90b803e5ec632443ef6e20af168d7217729b1a3373eb5ff49),
]
_DI = {"256": (hashlib.sha256, bytes.fromhex("3031300d060960864801650304020105000420")),
       "512": (hashlib.sha512, bytes.fromhex("3051300d060960864801650304020305000440"))}


def rsa_jwk(i, kid=None, alg="RS256"):
    k = {"kty": "RSA", "use": "sig", "n": b64(RSA[i][0].to_bytes(256, "big")), "e": "AQAB"}
    if alg:
        k["alg"] = alg
    if kid:
        k["kid"] = kid
    return k


def rsa_sign(i, data, alg):
    h, pre = _DI[alg[2:]]
    t = pre + h(data).digest()
    em = b"\x00\x01" + b"\xff" * (256 - 3 - len(t)) + b"\x00" + t
    return pow(int.from_bytes(em, "big"), RSA[i][1], RSA[i][0]).to_bytes(256, "big")


def rsa_token(i, claims, kid=None, alg="RS256"):
    h = {"typ": "JWT", "alg": alg}
    if kid:
        h["kid"] = kid
    s = b64(json.dumps(h).encode()) + "." + b64(json.dumps(claims).encode())
    return s + "." + b64(rsa_sign(i, s.encode(), alg))
