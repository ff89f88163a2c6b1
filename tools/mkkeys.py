"""Makes the key pairs used by the signature suites (needs the openssl command; run once, the result
is committed as lib/keys.json)."""
import json, os, re, subprocess, sys, tempfile


def sh(*a, inp=None):
    return subprocess.run(a, input=inp, capture_output=True, check=True).stdout


def field(txt, name):
    m = re.search(name + r":\s*((?:\n?\s+[0-9a-f:]+)+)", txt)
    return bytes.fromhex(re.sub(r"[\s:]", "", m.group(1)))


def rsa(d, bits, exp):
    p = os.path.join(d, "k")
    sh("openssl", "genpkey", "-algorithm", "RSA", "-pkeyopt", "rsa_keygen_bits:%d" % bits, "-pkeyopt", "rsa_keygen_pubexp:%d" % exp, "-out", p)
    der = sh("openssl", "pkcs8", "-topk8", "-nocrypt", "-in", p, "-outform", "DER")
    txt = sh("openssl", "pkey", "-in", p, "-text", "-noout").decode()
    n = field(txt, "modulus").lstrip(b"\0")
    e = exp.to_bytes((exp.bit_length() + 7) // 8, "big")
    return der, bytes([len(e)]) + e + n


def dsa(d):
    p, q = os.path.join(d, "p"), os.path.join(d, "k")
    sh("openssl", "genpkey", "-genparam", "-algorithm", "DSA", "-pkeyopt", "dsa_paramgen_bits:1024", "-pkeyopt", "dsa_paramgen_q_bits:160", "-out", p)
    sh("openssl", "genpkey", "-paramfile", p, "-out", q)
    der = sh("openssl", "pkcs8", "-topk8", "-nocrypt", "-in", q, "-outform", "DER")
    txt = sh("openssl", "pkey", "-in", q, "-text", "-noout").decode()
    pad = lambda b: b.lstrip(b"\0").rjust(128, b"\0")
    f = lambda n: field(txt, n)
    return der, bytes([8]) + f("Q").lstrip(b"\0").rjust(20, b"\0") + pad(f("P")) + pad(f("G")) + pad(f("pub"))


def ec(d, curve, n):
    p = os.path.join(d, "k")
    sh("openssl", "genpkey", "-algorithm", "EC", "-pkeyopt", "ec_paramgen_curve:" + curve, "-out", p)
    der = sh("openssl", "pkcs8", "-topk8", "-nocrypt", "-in", p, "-outform", "DER")
    pub = sh("openssl", "pkey", "-in", p, "-pubout", "-outform", "DER")
    return der, pub[-2 * n:]


def ed(d, alg, n):
    p = os.path.join(d, "k")
    sh("openssl", "genpkey", "-algorithm", alg, "-out", p)
    der = sh("openssl", "pkey", "-in", p, "-outform", "DER")
    pub = sh("openssl", "pkey", "-in", p, "-pubout", "-outform", "DER")[-n:]
    seed = der[-n:]
    if alg == "ED25519":
        return bytes.fromhex("3053020101300506032b657004220420") + seed + bytes.fromhex("a123032100") + pub, pub
    return seed, pub


out = {}
with tempfile.TemporaryDirectory() as d:
    for alg in (1, 3, 5, 8, 10, 13, 14, 15, 16):
        ks = []
        for i in range(2):
            if alg in (1, 5, 8, 10):
                k = rsa(d, 2048, 65537)
            elif alg == 3:
                k = dsa(d)
            elif alg in (13, 14):
                k = ec(d, "P-256", 32) if alg == 13 else ec(d, "P-384", 48)
            else:
                k = ed(d, "ED25519", 32) if alg == 15 else ed(d, "ED448", 57)
            ks.append([k[0].hex(), k[1].hex()])
        out[alg] = ks
json.dump(out, open(sys.argv[1], "w"), indent=0)
