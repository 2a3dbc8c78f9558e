"""Generated checks of python3/frodokem.py and nist_kat.py (C07, C23, C26), driven by Hypothesis.

Every check is a function of JSON arguments; Hypothesis draws the arguments, a replay passes them again."""
import argparse
import ctypes
import hashlib
import json
import os
import random
import sys
import time
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, "/opt/vp/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.join(REPO, "python3"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings, strategies as st  # noqa: E402
from spec import Spec  # noqa: E402

SIZES = (640, 976, 1344)
SPECS = {}
for _n in SIZES:
    for _a in (True, False):
        SPECS[f"{_n}-{'AES' if _a else 'SHAKE'}"] = Spec(_n, _a)


class Bad(Exception):
    pass


class Stop(KeyboardInterrupt):
    pass


CLASSES = {}


def hit(k):
    CLASSES[k] = CLASSES.get(k, 0) + 1


def new(variant):
    from frodokem import FrodoKEM
    try:
        return FrodoKEM("FrodoKEM-" + variant)
    except Exception as e:  # noqa: BLE001
        raise Bad(f"FrodoKEM-{variant} cannot be constructed: {e!r}")


# ------------------------------------------------------------------ the C library

class CLib:
    glue = None

    def __init__(self, name, path, size):
        self.name = name
        if CLib.glue is None:
            CLib.glue = ctypes.CDLL(GLUE, mode=ctypes.RTLD_GLOBAL)
            CLib.glue.glue_used.restype = ctypes.c_size_t
        self.h = ctypes.CDLL(path)
        self.f = {k: getattr(self.h, f"crypto_kem_{k}_Frodo{size}") for k in ("keypair", "enc", "dec")}
        self.s = SPECS[f"{size}-AES"]

    def keypair(self, rnd):
        pk, sk = ctypes.create_string_buffer(self.s.npk), ctypes.create_string_buffer(self.s.nsk)
        CLib.glue.glue_set(rnd, len(rnd))
        if self.f["keypair"](pk, sk):
            raise Bad(f"{self.name}: crypto_kem_keypair fails")
        return pk.raw, sk.raw

    def enc(self, pk, mu):
        ct, ss = ctypes.create_string_buffer(self.s.nct), ctypes.create_string_buffer(self.s.l)
        CLib.glue.glue_set(mu, len(mu))
        if self.f["enc"](ct, ss, pk):
            raise Bad(f"{self.name}: crypto_kem_enc fails")
        return ct.raw, ss.raw

    def dec(self, sk, ct):
        ss = ctypes.create_string_buffer(self.s.l)
        if self.f["dec"](ss, ct, sk):
            raise Bad(f"{self.name}: crypto_kem_dec fails")
        return ss.raw


GLUE, LIBDIR = None, None
LIBS = {}


def clibs(variant):
    if variant not in LIBS:
        n, fam = variant.split("-")
        LIBS[variant] = [CLib(g, os.path.join(LIBDIR, g, f"frodo{n}.so"), int(n))
                         for g in BUILDS if (g[0] == "a") == (fam == "AES")]
    return LIBS[variant]


# ------------------------------------------------------------------ helpers

def fill(kind, seed, n):
    """n bytes of a given shape."""
    if n == 0 or kind == "zero":
        return bytes(n)
    if kind == "ones":
        return b"\xff" * n
    r = random.Random(seed)
    if kind == "rep":
        return bytes([r.randrange(256)]) * n
    if kind == "sparse":
        b = bytearray(n)
        for _ in range(1 + r.randrange(3)):
            b[r.randrange(n)] ^= 1 << r.randrange(8)
        return bytes(b)
    if kind == "dense":
        b = bytearray(b"\xff" * n)
        for _ in range(1 + r.randrange(3)):
            b[r.randrange(n)] ^= 1 << r.randrange(8)
        return bytes(b)
    return r.randbytes(n)


def norm(m, q):
    return [[int(x) % q for x in row] for row in m]


def first(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        for j, (u, v) in enumerate(zip(x, y)):
            if u != v:
                return f"entry ({i},{j}) is {u}, specified {v}"
    return f"{len(a)}x{len(a[0]) if a else 0} instead of {len(b)}x{len(b[0])}"


def bdiff(a, b):
    a, b = bytes(a), bytes(b)
    if len(a) != len(b):
        return f"{len(a)} bytes instead of {len(b)}"
    i = next(i for i in range(len(a)) if a[i] != b[i])
    return f"byte {i} of {len(a)} is {a[i]:02x}, expected {b[i]:02x}"


def call(what, f, *a):
    try:
        return f(*a)
    except Exception as e:  # noqa: BLE001
        raise Bad(f"{what} raises {type(e).__name__}: {e}")


class Rng:
    def __init__(self, data):
        self.data, self.pos = data, 0

    def __call__(self, k):
        r = self.data[self.pos:self.pos + k]
        self.pos += k
        return r + b"\xa5" * (k - len(r))


# ------------------------------------------------------------------ C07: whole operations, several on one object

SHAPES = ["rand", "rand", "rand", "zero", "ones", "rep", "sparse", "dense"]


def make_rnd(sp, op, prev=None):
    z = prev["z"] if prev and prev.get("z") and op["rel"] in ("same", "samesk") else None
    return b"".join(z if z and k == "z" else fill(op[k], op["seed"] * 4 + i, m) for i, (k, m) in
                    enumerate((("s", sp.l), ("se", sp.l), ("z", 16))))


def relative(sp, op, prev):
    """The previous operation's public key, unchanged or changed in one place; None if the operation is unrelated."""
    if not prev or op["rel"] == "none" or not prev.get("pk"):
        return None
    b = bytearray(prev["pk"])
    r = random.Random(op["seed"] ^ 0x77)
    if op["rel"] == "seed":
        b[op["at"] % 16] ^= 1 << r.randrange(8)
    elif op["rel"] == "swap":
        i, j = op["at"] % 16, (op["at"] + 1 + r.randrange(15)) % 16
        b[i], b[j] = b[j], b[i]
    elif op["rel"] == "b":
        i = {"c2": r.randrange(16, sp.npk), "c1": r.randrange(16, sp.npk), "first": 16, "last": sp.npk - 1}[op["where"]]
        b[i] ^= 1 << r.randrange(8)
    elif op["rel"] == "newb":
        b[16:] = fill(op["se"], op["seed"] + 11, sp.nb)
    return bytes(b)


def make_pk(sp, op, prev=None):
    pk = relative(sp, op, prev)
    if pk:
        return pk
    if op["key"] == "honest":
        return sp.keypair(make_rnd(sp, op))[0]
    if op["key"] == "extreme":
        r = random.Random(op["seed"])
        c = [0, 1, sp.q - 1, sp.q // 2, sp.q // 2 - 1]
        m = np.array([[r.choice(c) for _ in range(8)] for _ in range(sp.n)])
        return fill(op["z"], op["seed"], 16) + sp.pack(m)
    return fill(op["s"], op["seed"], sp.npk)


def key_for(sp, op, prev):
    """(pk, sk, mu, ct) where decapsulating ct under sk recovers mu."""
    mu = fill(op["m"], op["seed"] + 7, sp.l)
    if prev and op["rel"] == "samesk" and prev.get("sk"):
        sk = prev["sk"]
        pk = sk[sp.l:sp.l + sp.npk]
        return pk, sk, mu, sp.enc(pk, mu)[0]
    pk = relative(sp, op, prev)
    if pk is None:
        pk, sk = sp.keypair(make_rnd(sp, op))
        return pk, sk, mu, sp.enc(pk, mu)[0]
    pkh = sp.shake(pk, sp.l)
    _, bp, c = sp._inner(pk[:16], pk[16:], pkh, mu)
    S = sp.solve(bp, (c - sp.encode(mu)) % sp.q, np.ones((sp.n, 8), dtype=np.int64))
    if S is None:
        pk, sk = sp.keypair(make_rnd(sp, op))
        return pk, sk, mu, sp.enc(pk, mu)[0]
    hit("related secret key")
    sk = fill(op["s"], op["seed"], sp.l) + pk + (S.T % 65536).astype("<u2").tobytes() + pkh
    return pk, sk, mu, sp.pack(bp) + sp.pack(c)


def make_dec(sp, op, prev=None):
    """A secret key and a ciphertext of the drawn kind."""
    r = random.Random(op["seed"] ^ 0x5A5A)
    kind = op["kind"]
    pk, sk, mu, ct = key_for(sp, op, prev)
    if kind == "valid":
        return sk, ct
    if kind == "random":
        return fill(op["s"], op["seed"], sp.nsk), fill(op["m"], op["seed"] + 9, sp.nct)
    if kind == "randomct":
        return sk, fill(op["m"], op["seed"] + 9, sp.nct)
    if kind == "altered":
        b = bytearray(ct)
        where = op["where"]
        if where == "c1":
            p = r.randrange(sp.nb)
        elif where == "c2":
            p = sp.nb + r.randrange(8 * sp.D)
        elif where == "first":
            p = 0
        else:
            p = sp.nct - 1
        b[p] ^= 1 << r.randrange(8)
        return sk, bytes(b)
    if kind == "twin":
        # the same difference in two entries of C or of B'
        c = sp.unpack(ct[sp.nb:], 8, 8)
        bp = sp.unpack(ct[:sp.nb], 8, sp.n)
        d = 1 << r.randrange(sp.D)
        t = c if op["where"] in ("c2", "last") else bp
        for _ in range(2):
            i, j = r.randrange(8), r.randrange(t.shape[1])
            t[i, j] = (t[i, j] ^ d) if r.randrange(2) else (t[i, j] + d) % sp.q
        new_ct = sp.pack(bp) + sp.pack(c)
        return sk, new_ct
    if kind == "field":
        b = bytearray(sk)
        o = {"c1": 0, "c2": sp.l, "first": sp.l + sp.npk, "last": sp.nsk - 1}[op["where"]]
        b[min(o + r.randrange(16), sp.nsk - 1)] ^= 1 << r.randrange(8)
        return bytes(b), ct
    # crafted: S solved for so that decryption meets exactly the drawn noise
    s, seed, b, stt, pkh = sp.split(sk)
    step = sp.q >> (sp.B + 1)
    pool = {"inside": [0, 1, -1, step - 1, -step, -step + 1, step // 2],
            "edge": [0, step - 1, -step, step, -step - 1],
            "ties": [-step, step]}[op["noise"]]
    e = np.array([[r.choice(pool) for _ in range(8)] for _ in range(8)])
    if op["where"] in ("first", "last"):
        z = np.zeros((8, 8), dtype=np.int64)
        i, j = (0, 0) if op["where"] == "first" else (7, 7)
        z[i, j] = e[i, j]
        e = z
    _, bp, c = sp._inner(seed, b, pkh, mu)
    base = np.array([[r.choice([0, 1, -1, 3, 32767, -32768]) for _ in range(8)] for _ in range(sp.n)])
    S = sp.solve(bp, (c - sp.encode(mu) - e) % sp.q, base)
    if S is None:
        return sk, ct
    st16 = (S.T % 65536).astype("<u2").tobytes()
    return s + seed + b + st16 + pkh, ct


def quietly(kem, printing, f, *a):
    """f(*a) with the intermediate values printed (to nowhere) or not."""
    if not printing:
        return f(*a)
    import contextlib
    import io
    kem.print_intermediate_values = True
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a)
    finally:
        kem.print_intermediate_values = False


def c07_ops(a):
    v = a["variant"]
    sp = SPECS[v]
    kem = new(v)
    kem.randombytes = None
    prev = {}
    for n, op in enumerate(a["ops"]):
        w = f"{v} operation {n + 1} ({op['op']})"
        hit(f"{v}/{op['op']}")
        if n:
            hit(f"related: {op['rel']}")
        if op["print"] and hasattr(kem, "print_intermediate_values"):
            hit("printing")
        if op["op"] == "keypair":
            rnd = make_rnd(sp, op, prev)
            kem.randombytes = rng = Rng(rnd)
            pk, sk = call(w, quietly, kem, op["print"], kem.kem_keygen)
            prev = {"pk": bytes(pk), "sk": bytes(sk), "z": rnd[2 * sp.l:]}
            if rng.pos != len(rnd):
                raise Bad(f"{w}: takes {rng.pos} random bytes instead of {len(rnd)}")
            for lib in clibs(v):
                x = lib.keypair(rnd)
                if x[0] != bytes(pk):
                    raise Bad(f"{w}: public key of Python and C ({lib.name}) differ: {bdiff(pk, x[0])}")
                if x[1] != bytes(sk):
                    raise Bad(f"{w}: secret key of Python and C ({lib.name}) differ: {bdiff(sk, x[1])}")
        elif op["op"] == "enc":
            pk = make_pk(sp, op, prev)
            prev = {"pk": pk}
            mu = fill(op["m"], op["seed"] + 3, sp.l)
            kem.randombytes = rng = Rng(mu)
            ct, ss = call(w, quietly, kem, op["print"], kem.kem_encaps, pk)
            if rng.pos != len(mu):
                raise Bad(f"{w}: takes {rng.pos} random bytes instead of {len(mu)}")
            for lib in clibs(v):
                x = lib.enc(pk, mu)
                if x[0] != bytes(ct):
                    raise Bad(f"{w}: ciphertext of Python and C ({lib.name}) differ: {bdiff(ct, x[0])}")
                if x[1] != bytes(ss):
                    raise Bad(f"{w}: shared secret of Python and C ({lib.name}) differ: {bdiff(ss, x[1])}")
        else:
            sk, ct = make_dec(sp, op, prev)
            prev = {"pk": sk[sp.l:sp.l + sp.npk], "sk": sk}
            ss = call(w, quietly, kem, op["print"], kem.kem_decaps, sk, ct)
            want, ok = sp.dec(sk, ct)
            hit(f"dec/{op['kind']}/{'accept' if ok else 'reject'}")
            for lib in clibs(v):
                x = lib.dec(sk, ct)
                if x != bytes(ss):
                    raise Bad(f"{w} {op['kind']}: shared secret of Python and C ({lib.name}) differ: {bdiff(ss, x)}")


def s_seed():
    return st.integers(0, 2 ** 40)


def s_op(variant, kinds=("keypair", "enc", "dec", "dec")):
    sh = st.sampled_from(SHAPES)
    return st.fixed_dictionaries({
        "op": st.sampled_from(kinds), "seed": s_seed(), "s": sh, "se": sh, "z": sh, "m": sh,
        "key": st.sampled_from(["honest", "extreme", "raw"]),
        "kind": st.sampled_from(["crafted", "crafted", "valid", "altered", "twin", "field", "random", "randomct"]),
        "where": st.sampled_from(["c2", "c1", "first", "last"]),
        "noise": st.sampled_from(["inside", "edge", "ties"]),
        "rel": st.sampled_from(["seed", "none", "same", "samesk", "b", "newb", "swap"]), "at": st.integers(0, 15),
        "print": st.sampled_from([False] * 7 + [True])})


# ------------------------------------------------------------------ C07: building blocks

def values(sp, a):
    r = random.Random(a["seed"])
    n = a["n1"] * a["n2"]
    k = a["shape"]
    step = sp.q >> (sp.B + 1)
    if k == "tie":
        pool = [step * j % sp.q for j in range(1, 2 ** (sp.B + 1), 2)]
        pool = pool + [(x + d) % sp.q for x in pool for d in (-1, 1)]
    elif k == "extreme":
        pool = [0, 1, sp.q - 1, sp.q // 2, sp.q // 2 - 1, sp.q // 2 + 1]
    elif k == "bit":
        pool = [1 << i for i in range(sp.D)] + [sp.q - 1 - (1 << i) for i in range(sp.D)]
    else:
        pool = None
    v = [r.choice(pool) if pool else r.randrange(sp.q) for _ in range(n)]
    if a["lone"]:
        keep = r.randrange(n)
        v = [x if i == keep else 0 for i, x in enumerate(v)]
    return [v[i * a["n2"]:(i + 1) * a["n2"]] for i in range(a["n1"])]


def c07_block(a):
    v, f = a["variant"], a["fn"]
    sp = SPECS[v]
    kem = new(v)
    hit(f"{v}/{f}")
    for rep in range(a["rep"]):
        b = dict(a, seed=a["seed"] + rep)
        if f == "encode":
            mu = fill(a["fill"], b["seed"], sp.l)
            got, want = norm(call("encode", kem.encode, mu), sp.q), sp.encode(mu).tolist()
            if got != want:
                raise Bad(f"{v} encode({mu.hex()}): {first(got, want)}")
        elif f == "decode":
            m = values(sp, dict(b, n1=8, n2=8))
            got, want = bytes(call("decode", kem.decode, m)), sp.decode(m)
            if got != want:
                raise Bad(f"{v} decode: {bdiff(got, want)} for the matrix {m}")
        elif f == "roundtrip":
            mu = fill(a["fill"], b["seed"], sp.l)
            got = bytes(call("decode(encode)", lambda: kem.decode(kem.encode(mu))))
            if got != mu:
                raise Bad(f"{v} decode(encode({mu.hex()})) = {got.hex()}")
        elif f == "pack":
            m = values(sp, b)
            got, want = bytes(call("pack", kem.pack, m)), sp.pack(m)
            if got != want:
                raise Bad(f"{v} pack of a {a['n1']}x{a['n2']} matrix: {bdiff(got, want)}")
            back = norm(call("unpack", kem.unpack, want, a["n1"], a["n2"]), sp.q)
            if back != m:
                raise Bad(f"{v} unpack of a {a['n1']}x{a['n2']} matrix: {first(back, m)}")
        elif f == "unpack":
            raw = fill(a["fill"], b["seed"], a["n1"] * a["n2"] * sp.D // 8)
            want = sp.unpack(raw, a["n1"], a["n2"]).tolist()
            got = norm(call("unpack", kem.unpack, raw, a["n1"], a["n2"]), sp.q)
            if got != want:
                raise Bad(f"{v} unpack to {a['n1']}x{a['n2']}: {first(got, want)}")
        elif f == "sample":
            r = random.Random(b["seed"])
            x = [r.randrange(65536) for _ in range(a["n1"] * a["n2"])]
            want = sp.sample(x).reshape(a["n1"], a["n2"]).tolist()
            got = [[int(y) for y in row] for row in call("sample_matrix", kem.sample_matrix, x, a["n1"], a["n2"])]
            if norm(got, sp.q) != norm(want, sp.q):
                raise Bad(f"{v} sample_matrix {a['n1']}x{a['n2']}: {first(norm(got, sp.q), norm(want, sp.q))}")
        elif f == "gen":
            seed = bytearray(fill(a["fill"], a["seed"], 16))
            for i in range(rep):  # close to the ones before, on the same object
                seed[a["at"][i] % 16] ^= 1 + (b["seed"] >> i) % 255
            seed = bytes(seed)
            want = sp.gen(seed)
            got = np.array(call("gen", kem.gen, seed)).astype(np.int64) % sp.q
            if got.shape != want.shape or not (got == want).all():
                d = np.argwhere(got != want) if got.shape == want.shape else [[-1, -1]]
                raise Bad(f"{v} matrix A for seed {seed.hex()}: first difference at {list(map(int, d[0]))}")


def s_block(fns):
    return st.fixed_dictionaries({
        "variant": st.sampled_from(sorted(SPECS)), "fn": st.sampled_from(fns), "seed": s_seed(),
        "fill": st.sampled_from(SHAPES), "shape": st.sampled_from(["rand", "tie", "extreme", "bit"]),
        "lone": st.booleans(), "n1": st.sampled_from([8, 16, 24]), "n2": st.integers(1, 40), "rep": st.sampled_from([3, 2, 1]),
        "at": st.lists(st.integers(0, 15), min_size=3, max_size=3)})


def c07_enum(a):
    """Every 16-bit value through sample, every residue through decode (at a drawn rotation of positions)."""
    v = a["variant"]
    sp = SPECS[v]
    kem = new(v)
    if a["fn"] == "sample":
        want = sp.sample(np.arange(65536)).tolist()
        for r in range(65536):
            got = call("sample", kem.sample, r)
            if int(got) != want[r]:
                raise Bad(f"{v} sample({r}) = {got}, specified {want[r]}")
        hit(f"{v}/all sample values")
    else:
        for c in range(a["part"], sp.q // 64, 4):
            m = [[(c * 64 + ((i * 8 + j + a["rot"]) % 64)) % sp.q for j in range(8)] for i in range(8)]
            got, want = bytes(call("decode", kem.decode, m)), sp.decode(m)
            if got != want:
                raise Bad(f"{v} decode: {bdiff(got, want)} for entries {c * 64}..{c * 64 + 63} rotated by {a['rot']}")
        hit(f"{v}/a quarter of the residues through decode")


# ------------------------------------------------------------------ C23

def c23_name(a):
    from frodokem import FrodoKEM
    name = a["name"]
    if name in {s.variant for s in SPECS.values()}:
        hit("valid name")
        try:
            k = FrodoKEM(name)
        except Exception as e:  # noqa: BLE001
            raise Bad(f"FrodoKEM({name!r}) raises {e!r}")
        for attr, w in (("len_pk_bytes", SPECS[name[9:]].npk), ("len_sk_bytes", SPECS[name[9:]].nsk),
                        ("len_ct_bytes", SPECS[name[9:]].nct), ("len_ss_bytes", SPECS[name[9:]].l)):
            if hasattr(k, attr) and getattr(k, attr) != w:
                raise Bad(f"FrodoKEM({name!r}).{attr} is {getattr(k, attr)}, documented {w}")
        return
    hit("wrong name")
    try:
        FrodoKEM(name)
    except Exception:  # noqa: BLE001
        return
    raise Bad(f"FrodoKEM({name!r}) is accepted although it names no variant")


def s_name():
    good = [s.variant for s in SPECS.values()]
    part = st.sampled_from(["FrodoKEM", "640", "976", "1344", "AES", "SHAKE", "-", " ", "frodokem", "Frodo", "eFrodoKEM",
                            "aes", "shake", "512", "AES128", "", "\n", "\0", "0640", "SHAKE128"])
    pos = st.integers(0, 20)
    near = st.builds(lambda g, p, c, k: (g[:p] + c + g[p:], g[:p] + g[p + 1:], g[:p] + c + g[p + 1:])[k],
                     st.sampled_from(good), pos, st.characters(max_codepoint=0x250), st.integers(0, 2))
    case = st.builds(lambda g, f: f(g), st.sampled_from(good),
                     st.sampled_from([str.lower, str.upper, str.swapcase, lambda g: g + " ", lambda g: " " + g,
                                      lambda g: g[9:], lambda g: g[:-1], lambda g: g[::-1], lambda g: g * 2,
                                      lambda g: g.replace("-", "_"), lambda g: g.replace("Frodo", "eFrodo"),
                                      lambda g: g.rsplit("-", 1)[0], lambda g: g.replace("-", ""),
                                      lambda g: g + "\n", lambda g: g + "\0", lambda g: g + "\t", lambda g: "\ufeff" + g,
                                      lambda g: g.replace("-", "\u2010"), lambda g: g.replace("K", "\u212a"),
                                      lambda g: "".join(chr(0xFF10 + ord(x) - 48) if x.isdigit() else x for x in g),
                                      lambda g: "".join(chr(0x660 + ord(x) - 48) if x.isdigit() else x for x in g),
                                      lambda g: g.replace("-", "-0", 1), lambda g: g + "-" + g, lambda g: g + "," + g,
                                      lambda g: g + "128", lambda g: g.replace("KEM", ""), lambda g: g.title(), lambda g: g[0]]))
    grid = st.builds("{}-{}-{}".format, st.sampled_from(["FrodoKEM", "eFrodoKEM", "FrodoPKE", "Frodo"]),
                     st.sampled_from(["640", "976", "1344", "1024", "64", "6400", "0"]),
                     st.sampled_from(["AES", "SHAKE", "AES128", "SHA3", "CSHAKE", ""]))
    return st.fixed_dictionaries({"name": st.one_of(case, grid, near, st.lists(part, max_size=6).map("".join),
                                                    st.text(max_size=24), st.sampled_from(good))})


def wrong(sp, field, a):
    right = {"pk": sp.npk, "sk": sp.nsk, "ct": sp.nct}[field]
    others = [getattr(s, "n" + f) for s in SPECS.values() for f in ("pk", "sk", "ct")] + [s.l for s in SPECS.values()]
    k = a["how"]
    n = {"delta": right + a["delta"], "empty": 0, "other": others[a["delta"] % len(others)],
         "part": {"pk": sp.nb, "sk": sp.nsk - sp.l, "ct": sp.nb}[field], "row": right - 2 * sp.n,
         "double": 2 * right, "c2": {"pk": 16, "sk": sp.nsk - sp.npk, "ct": 8 * sp.D}[field],
         "word": right + 16 * (a["delta"] or 1), "any": a["len"]}[k]
    return max(0, n), right


WARM = {}


def warm(v):
    """An object that has already done a whole exchange (one of the small variants: it takes long)."""
    if not v.startswith("640"):
        return new(v)
    if v not in WARM:
        kem = new(v)
        pk, sk = call("kem_keygen", kem.kem_keygen)
        ct, ss = call("kem_encaps", kem.kem_encaps, pk)
        call("kem_decaps", kem.kem_decaps, sk, ct)
        WARM[v] = kem
    hit("warm object")
    return WARM[v]


def c23_len(a):
    v = a["variant"]
    sp = SPECS[v]
    kem = warm(v) if a["warm"] else new(v)
    field = a["field"]
    n, right = wrong(sp, field, a)
    if n == right:
        n += 1
    hit(f"{field}/{a['how']}")
    data = fill(a["fill"], a["seed"], n)
    try:
        if field == "pk":
            kem.kem_encaps(data)
        elif field == "sk":
            kem.kem_decaps(data, fill("rand", a["seed"] + 1, sp.nct))
        else:
            kem.kem_decaps(fill("rand", a["seed"] + 1, sp.nsk), data)
    except Exception:  # noqa: BLE001
        return
    raise Bad(f"{v}: a {field} of {n} bytes is accepted where {right} are required")


def s_len():
    return st.fixed_dictionaries({
        "variant": st.sampled_from(sorted(SPECS)), "field": st.sampled_from(["pk", "sk", "ct"]),
        "how": st.sampled_from(["delta", "delta", "other", "other", "empty", "part", "row", "double", "c2", "word", "any"]),
        "delta": st.integers(-40, 40), "len": st.integers(0, 50000), "fill": st.sampled_from(SHAPES), "seed": s_seed(),
        "warm": st.booleans()})


def c23_both(a):
    """Two wrong lengths at once (swapped arguments, lengths whose sum is right)."""
    v = a["variant"]
    sp = SPECS[v]
    kem = new(v)
    d = a["d"] or 1
    ns, nc = {"sum": (sp.nsk + d, sp.nct - d), "swap": (sp.nct, sp.nsk), "same": (sp.nsk + d, sp.nct + d)}[a["how"]]
    hit(f"both/{a['how']}")
    try:
        kem.kem_decaps(fill(a["fill"], a["seed"], max(ns, 0)), fill(a["fill"], a["seed"] + 1, max(nc, 0)))
    except Exception:  # noqa: BLE001
        return
    raise Bad(f"{v}: a secret key of {ns} and a ciphertext of {nc} bytes are accepted")


def s_both():
    return st.fixed_dictionaries({"variant": st.sampled_from(sorted(SPECS)), "how": st.sampled_from(["sum", "swap", "same"]),
                                  "d": st.integers(-64, 64), "fill": st.sampled_from(SHAPES), "seed": s_seed()})


def c23_good(a):
    """Correct lengths are accepted whatever the bytes, also after rejected calls, and outputs have the documented lengths."""
    v = a["variant"]
    sp = SPECS[v]
    kem = new(v)
    for i in range(a["bad"]):
        try:
            kem.kem_encaps(bytes(sp.npk - 1 - i))
        except Exception:  # noqa: BLE001
            pass
        try:
            kem.kem_decaps(bytes(sp.nsk), bytes(sp.nct + 1 + i))
        except Exception:  # noqa: BLE001
            pass
    op = a["op"]
    hit(f"good/{v}/{op}")
    if op == "keypair":
        if a["inject"]:
            kem.randombytes = Rng(fill(a["fill"], a["seed"], 2 * sp.l + 16))
        pk, sk = call("kem_keygen", kem.kem_keygen)
        lens, want = (len(pk), len(sk)), (sp.npk, sp.nsk)
    elif op == "enc":
        if a["inject"]:
            kem.randombytes = Rng(fill(a["fill"], a["seed"] + 5, sp.l))
        ct, ss = call("kem_encaps of a public key of the right length", kem.kem_encaps, fill(a["fill"], a["seed"], sp.npk))
        lens, want = (len(ct), len(ss)), (sp.nct, sp.l)
    else:
        ss = call("kem_decaps of arguments of the right lengths", kem.kem_decaps, fill(a["fill"], a["seed"], sp.nsk),
                  fill(a["fill2"], a["seed"] + 1, sp.nct))
        lens, want = (len(ss),), (sp.l,)
    if lens != want:
        raise Bad(f"{v} {op}: returns {lens} bytes, documented {want}")


def s_good(variants):
    return st.fixed_dictionaries({"variant": st.sampled_from(variants), "op": st.sampled_from(["dec", "enc", "keypair"]),
                                  "fill": st.sampled_from(SHAPES), "fill2": st.sampled_from(SHAPES), "seed": s_seed(),
                                  "bad": st.integers(0, 2), "inject": st.booleans()})


# ------------------------------------------------------------------ C26: the known-answer listing

class Drbg:
    """AES-256 CTR_DRBG without derivation function (SP 800-90A), as the NIST KAT programs use it."""

    def __init__(self, entropy):
        self.key, self.v = bytes(32), 0
        self.update(entropy)

    def block(self):
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
        self.v = (self.v + 1) % 2**128
        return Cipher(algorithms.AES(self.key), modes.ECB()).encryptor().update(self.v.to_bytes(16, "big"))

    def update(self, data=bytes(48)):
        t = bytes(a ^ b for a, b in zip(self.block() + self.block() + self.block(), data))
        self.key, self.v = t[:32], int.from_bytes(t[32:], "big")

    def __call__(self, n):
        out = b""
        while len(out) < n:
            out += self.block()
        self.update()
        return out[:n]


def kat_stream():
    """What randombytes returns during the first vector of the KAT programs."""
    return Drbg(Drbg(bytes(range(48)))(48))


def c26_rng(a):
    """Requests to the generator of the listing: the specified bytes in order, anything else refused."""
    from nist_kat import NISTKAT
    if not hasattr(NISTKAT, "NISTRNG"):
        hit("skipped/NISTRNG")
        return
    gens = [call("NISTRNG()", NISTKAT.NISTRNG) for _ in range(a["gens"])]
    state = [None] * len(gens)   # (l, number of requests served)
    for g, kind, n in a["ops"]:
        g %= len(gens)
        if kind == "kg":
            n = 2 * (16, 24, 32)[n % 3] + 16
        elif kind == "mu":
            n = (16, 24, 32)[n % 3]
        elif kind == "next":
            n = 2 * (16, 24, 32)[n % 3] + 16 if state[g] is None else state[g][0]
        hit("request/" + kind)
        if state[g] is None:
            good = n in (48, 64, 80)
            after = ((n - 16) // 2, 1)
        else:
            good = state[g][1] == 1 and n == state[g][0]
            after = (state[g][0], 2)
        try:
            r = gens[g].randombytes(n)
        except Exception as e:  # noqa: BLE001
            if good:
                raise Bad(f"request of {n} bytes in state {state[g]} raises {e!r}")
            continue
        if not good:
            raise Bad(f"a request of {n} bytes in state {state[g]} (security bytes, requests served) is not refused")
        d = kat_stream()
        want = d(2 * after[0] + 16)
        if after[1] == 2:
            want = d(after[0])
        if bytes(r) != want:
            raise Bad(f"request {after[1]} of {n} bytes: {bdiff(r, want)}")
        state[g] = after


def s_kat_rng():
    return st.fixed_dictionaries({"gens": st.integers(1, 3), "ops": st.lists(st.tuples(
        st.integers(0, 2), st.sampled_from(["kg", "next", "next", "next", "mu", "any"]), st.integers(0, 100)), min_size=1, max_size=8)})


def c26_run(a):
    """The listing of an exchange: the values the KEM returned for the generator's bytes, and no success when they disagree."""
    import contextlib
    import io
    from nist_kat import NISTKAT
    sp = SPECS[a["variant"]]
    r = random.Random(a["seed"])
    pk, sk, ct, ss = (fill(a["fill"], a["seed"] + i, n) for i, n in enumerate((sp.npk, sp.nsk, sp.nct, sp.l)))
    ss2 = bytearray(ss)
    if a["differ"]:
        ss2[r.randrange(len(ss2))] ^= 1 << r.randrange(8)
    seen = []

    from frodokem import FrodoKEM

    class Kem(FrodoKEM):
        def kem_keygen(self):
            seen.append(("kg", self.randombytes(2 * sp.l + 16)))
            return pk, sk

        def kem_encaps(self, k):
            seen.append(("enc", k, self.randombytes(sp.l)))
            return ct, ss

        def kem_decaps(self, s, c):
            seen.append(("dec", s, c))
            return bytes(ss2)

    if a["clib"] and clibs(a["variant"]):
        lib = clibs(a["variant"])[a["seed"] % len(clibs(a["variant"]))]

        class Kem(FrodoKEM):  # noqa: F811
            def kem_keygen(self):
                nonlocal pk, sk
                b = self.randombytes(2 * sp.l + 16)
                seen.append(("kg", b))
                pk, sk = lib.keypair(b)
                return pk, sk

            def kem_encaps(self, k):
                nonlocal ct, ss
                b = self.randombytes(sp.l)
                seen.append(("enc", k, b))
                ct, ss = lib.enc(k, b)
                return ct, ss

            def kem_decaps(self, s, c):
                seen.append(("dec", s, c))
                return lib.dec(s, c) if not a["differ"] else bytes(sp.l)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            NISTKAT.run(Kem(sp.variant))
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    hit("listing/" + ("differ" if a["differ"] else "agree") + ("/C library" if a["clib"] else ""))
    if a["differ"]:
        if err is None:
            raise Bad("the listing ends normally although the two shared secrets differ")
        return
    if err is not None:
        raise Bad(f"the listing raises {err!r}")
    d = kat_stream()
    want = [("kg", d(2 * sp.l + 16)), ("enc", pk, d(sp.l)), ("dec", sk, ct)]
    if seen != want:
        raise Bad("the listing does not run key generation, encapsulation and decapsulation once each with the KAT bytes and their results")
    lines = [x.rstrip() for x in out.getvalue().splitlines()]
    exp = [f"{k} = {v.hex().upper()}" for k, v in (("pk", pk), ("sk", sk), ("ct", ct), ("ss", ss))]
    if [x for x in lines if x[:5] in ("pk = ", "sk = ", "ct = ", "ss = ")] != exp:
        raise Bad("the printed pk, sk, ct and ss are not the values of the exchange, in this order and in upper-case hexadecimal")
    if "count = 0" not in lines or not any(x.startswith("seed =") for x in lines):
        raise Bad("the listing lacks its count or seed line")


def c26_main(a):
    """The program run as documented: one complete listing for each of the six variants."""
    import contextlib
    import io
    import runpy
    import frodokem
    import nist_kat
    K = frodokem.FrodoKEM
    vals, seen = {}, []
    for i, v in enumerate(sorted(SPECS)):
        sp = SPECS[v]
        vals[sp.variant] = [fill(a["fill"], a["seed"] + 7 * i + j, n) for j, n in enumerate((sp.npk, sp.nsk, sp.nct, sp.l))]
    byname = {sp.variant: sp for sp in SPECS.values()}

    def kg(self):
        seen.append((self.variant, self.randombytes(2 * byname[self.variant].l + 16)))
        return tuple(vals[self.variant][:2])

    def enc(self, pk):
        seen.append((self.variant, self.randombytes(byname[self.variant].l)))
        return tuple(vals[self.variant][2:])

    def dec(self, sk, ct):
        return vals[self.variant][3]

    old = {n: K.__dict__[n] for n in ("kem_keygen", "kem_encaps", "kem_decaps") if n in K.__dict__}
    out = io.StringIO()
    try:
        K.kem_keygen, K.kem_encaps, K.kem_decaps = kg, enc, dec
        with contextlib.redirect_stdout(out):
            runpy.run_path(nist_kat.__file__, run_name="__main__")
    except BaseException as e:  # noqa: BLE001
        raise Bad(f"the program stops with {e!r}")
    finally:
        for n in ("kem_keygen", "kem_encaps", "kem_decaps"):
            if n in old:
                setattr(K, n, old[n])
            else:
                delattr(K, n)
    hit("program")
    got, name = [], None
    for x in out.getvalue().splitlines():
        x = x.strip()
        if x in byname:
            name = x
        if x[:5] in ("pk = ", "sk = ", "ct = ", "ss = "):
            got.append((name, x))
    want = [(v, f"{k} = {x.hex().upper()}") for v in byname for k, x in zip(("pk", "sk", "ct", "ss"), vals[v])]
    if sorted(got) != sorted(want):
        names = [n for n, x in got if x.startswith("pk = ")]
        raise Bad(f"the program does not list the exchange of each of the six variants once, under its name: {names}")
    bytes_ = []
    for v in byname:
        d = kat_stream()
        bytes_ += [(v, d(2 * byname[v].l + 16)), (v, d(byname[v].l))]
    if sorted(bytes_) != sorted(seen):
        raise Bad("the program does not give each variant the bytes of the KAT generator")


def s_kat_main():
    return st.fixed_dictionaries({"seed": s_seed(), "fill": st.sampled_from(SHAPES)})


def s_kat_run():
    return st.fixed_dictionaries({"variant": st.sampled_from(sorted(SPECS)), "seed": s_seed(), "fill": st.sampled_from(SHAPES),
                                  "differ": st.booleans(), "clib": st.sampled_from([False, False, False, True])})


# ------------------------------------------------------------------ driver

def campaign(which, variant):
    if which == "c07ops":
        ops = st.lists(s_op(variant), min_size=2, max_size=4)
        return c07_ops, st.fixed_dictionaries({"variant": st.just(variant), "ops": ops})
    if which == "c07block":
        return c07_block, s_block(["decode", "encode", "roundtrip", "pack", "unpack", "sample"])
    if which == "c07gen":
        return c07_block, s_block(["gen"])
    if which == "c07enum":
        cases = [{"variant": v, "fn": "sample", "part": 0, "rot": 0} for v in sorted(SPECS)] + \
                [{"variant": v, "fn": "decode", "part": p, "rot": 0} for v in sorted(SPECS) for p in range(4)]
        return c07_enum, cases
    if which == "c23name":
        return c23_name, s_name()
    if which == "c23len":
        return c23_len, s_len()
    if which == "c23both":
        return c23_both, s_both()
    if which == "c26rng":
        return c26_rng, s_kat_rng()
    if which == "c26main":
        return c26_main, s_kat_main()
    if which == "c26run":
        return c26_run, s_kat_run()
    if which == "c23good":
        return c23_good, s_good([variant])
    raise SystemExit(3)


def main():
    global GLUE, LIBDIR, BUILDS
    p = argparse.ArgumentParser()
    for o in ("--which", "--variant", "--glue", "--libs", "--builds", "--out", "--replay"):
        p.add_argument(o, default="")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--cases", type=int, default=10)
    p.add_argument("--deadline", type=float, default=0)
    p.add_argument("--shrink", type=float, default=20)
    o = p.parse_args()
    GLUE, LIBDIR, BUILDS = o.glue, o.libs, [b for b in o.builds.split(",") if b]
    fn, strat = campaign(o.which, o.variant)
    t0 = time.time()
    st_ = {"n": 0, "seen": set(), "samples": [], "fail": None, "when": 0.0}

    def note(args):
        st_["n"] += 1
        h = hashlib.sha256(json.dumps(args, sort_keys=True).encode()).digest()[:10]
        if h not in st_["seen"] and len(st_["samples"]) < 3:
            st_["samples"].append(json.dumps(args)[:400])
        st_["seen"].add(h)

    def body(args):
        if st_["fail"] is None:
            note(args)
            if o.deadline and time.time() - t0 > o.deadline:
                raise Stop()
        elif time.time() - st_["when"] > o.shrink:
            raise Stop()
        try:
            fn(args)
        except Bad as e:
            if st_["fail"] is None:
                st_["when"] = time.time()
            if st_["fail"] is None or len(json.dumps(args)) <= len(json.dumps(st_["fail"]["data"]["args"])):
                st_["fail"] = {"msg": str(e)[:1500], "note": json.dumps(args)[:1000], "data": {"args": args}}
            raise

    if o.replay:
        d = json.load(open(o.replay))
        try:
            fn(d["args"])
        except Bad as e:
            st_["fail"] = {"msg": str(e), "note": "", "data": d}
        st_["n"] = 1
    if not o.replay or st_["fail"] is None:
        if isinstance(strat, list):
            for i in range(min(o.cases, len(strat))):
                args = dict(strat[i], rot=o.seed % 64)
                try:
                    body(args)
                except (Bad, Stop):
                    break
        else:
            test = settings(max_examples=o.cases, database=None, deadline=None, print_blob=False,
                            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                            verbosity=hypothesis.Verbosity.quiet)(given(strat)(body))
            try:
                hypothesis.seed(o.seed)(test)()
            except (Bad, Stop):
                pass
            except hypothesis.errors.Flaky:
                pass
            except BaseException:
                if st_["fail"] is None:
                    raise
    json.dump({"evaluations": st_["n"], "planned": o.cases, "distinct_nontrivial": len(st_["seen"]),
               "samples": st_["samples"], "classes": CLASSES, "failure": st_["fail"], "wall": time.time() - t0},
              open(o.out, "w"))


if __name__ == "__main__":
    main()
