"""Builds /repo's current sources with the project's own Makefile, one directory per configuration, and turns each
archive into a shared object that the harness loads. Nothing is written under /repo."""

import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIZES = (640, 976, 1344)

ENV = {
    "VERIF_REPO": REPO,
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": os.environ.get("HOME", "/root"),
    "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8",
}

GEN = {
    "aeso": ["GENERATION_A=AES128"],
    "aess": ["GENERATION_A=AES128", "USE_OPENSSL=FALSE"],
    "shake": ["GENERATION_A=SHAKE128", "USE_OPENSSL=FALSE"],
    "shakeo": ["GENERATION_A=SHAKE128"],
}
OPT = {"ref": "REFERENCE", "gen": "FAST_GENERIC", "fast": "FAST"}
_G = "CC=/usr/bin/gcc"
_C = "CC=/usr/bin/clang-18"
_SAN = "-g -fno-omit-frame-pointer -fPIC"
MODE = {
    "gccO3": ([_G, "EXTRA_CFLAGS=-O3 -fPIC"], "/usr/bin/gcc", ""),
    "gccO1": ([_G, "EXTRA_CFLAGS=-O1 -fPIC"], "/usr/bin/gcc", ""),
    "gccO0": ([_G, "EXTRA_CFLAGS=-O0 -fPIC"], "/usr/bin/gcc", ""),
    "gccOs": ([_G, "EXTRA_CFLAGS=-Os -fPIC"], "/usr/bin/gcc", ""),
    "gccO2": ([_G, "EXTRA_CFLAGS=-O2 -fPIC"], "/usr/bin/gcc", ""),
    "gccOg": ([_G, "EXTRA_CFLAGS=-Og -fPIC -fstack-protector-all"], "/usr/bin/gcc", ""),
    "gccOz": ([_G, "EXTRA_CFLAGS=-Oz -fPIC -fomit-frame-pointer"], "/usr/bin/gcc", ""),
    "gcclto": ([_G, "EXTRA_CFLAGS=-O3 -flto -fPIC"], "/usr/bin/gcc", "-O3 -flto"),
    "gccpat": ([_G, "EXTRA_CFLAGS=-O2 -fPIC -ftrivial-auto-var-init=pattern"], "/usr/bin/gcc", ""),
    "gcczero": ([_G, "EXTRA_CFLAGS=-O3 -fPIC -ftrivial-auto-var-init=zero -funroll-all-loops"], "/usr/bin/gcc", ""),
    # arrays placed as tightly as the compiler can
    "gccub": ([_G, "EXTRA_CFLAGS=-Os -g -fPIC -fsanitize=undefined -fno-sanitize-recover=all"], "/usr/bin/gcc", "-fsanitize=undefined"),
    "native": (["CC=gcc", "EXTRA_CFLAGS=-O3 -fPIC"], "/usr/bin/gcc", ""),
    "clangO3": ([_C, "EXTRA_CFLAGS=-O3 -fPIC"], "/usr/bin/clang-18", ""),
    "clangO1": ([_C, "EXTRA_CFLAGS=-O1 -fPIC"], "/usr/bin/clang-18", ""),
    "clangO2": ([_C, "EXTRA_CFLAGS=-O2 -fPIC -ftrivial-auto-var-init=pattern"], "/usr/bin/clang-18", ""),
    "clangOs": ([_C, "EXTRA_CFLAGS=-Os -fPIC"], "/usr/bin/clang-18", ""),
    "clangOz": ([_C, "EXTRA_CFLAGS=-Oz -fPIC"], "/usr/bin/clang-18", ""),
    "unks": ([_G, "ARCH=ARM", "EXTRA_CFLAGS=-O2 -fPIC -U__BYTE_ORDER__"], "/usr/bin/gcc", ""),
    "clangO0": ([_C, "EXTRA_CFLAGS=-O0 -fPIC"], "/usr/bin/clang-18", ""),
    # ARCH=ARM selects the portable target; the Makefile then forces FAST_GENERIC unless OPT_LEVEL says otherwise
    "arm": ([_G, "ARCH=ARM", "EXTRA_CFLAGS=-O2 -fPIC"], "/usr/bin/gcc", ""),
    "x86": ([_G, "ARCH=x86", "EXTRA_CFLAGS=-O2 -fPIC"], "/usr/bin/gcc", ""),
    # byte order unknown to the preprocessor: run-time conversion
    "unk": ([_G, "ARCH=ARM", "EXTRA_CFLAGS=-O2 -fPIC -U__BYTE_ORDER__ -fno-strict-aliasing"], "/usr/bin/gcc", ""),
    "asan": ([_C, f"EXTRA_CFLAGS=-O1 {_SAN} -fsanitize=address,undefined -fno-sanitize-recover=all"],
             "/usr/bin/clang-18", ""),
    "tsan": ([_C, f"EXTRA_CFLAGS=-O0 {_SAN} -fsanitize=thread"], "/usr/bin/clang-18", ""),
    "trace": ([_C, "EXTRA_CFLAGS=-O1 -fPIC -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores,trace-cmp"],
              "/usr/bin/clang-18", ""),
    # comparison feedback for the generators
    "cmp": ([_C, "EXTRA_CFLAGS=-O1 -fPIC -fsanitize-coverage=trace-pc-guard,trace-cmp"], "/usr/bin/clang-18", ""),
    "trace0": ([_C, "EXTRA_CFLAGS=-O0 -fPIC -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores,trace-cmp"],
               "/usr/bin/clang-18", ""),
}

EVP = [f"-Wl,--wrap=EVP_{w}" for w in ("CIPHER_CTX_new CIPHER_fetch EncryptInit EncryptInit_ex EncryptInit_ex2 CipherInit_ex EncryptUpdate "
                                       "CipherUpdate Cipher EncryptFinal_ex").split()]

# internal functions the checks may call directly, if they still exist with this signature
SIGS = {
    "frodo_pack": ("frodo_macrify.h", "void (*{n})(unsigned char *, const size_t, const uint16_t *, const size_t, const unsigned char)"),
    "frodo_unpack": ("frodo_macrify.h", "void (*{n})(uint16_t *, const size_t, const unsigned char *, const size_t, const unsigned char)"),
    "frodo_sample_n": ("frodo_macrify.h", "void (*{n})(uint16_t *, const size_t)"),
    "frodo_mul_add_as_plus_e": ("frodo_macrify.h", "int (*{n})(uint16_t *, const uint16_t *, const uint16_t *, const uint8_t *)"),
    "frodo_mul_add_sa_plus_e": ("frodo_macrify.h", "int (*{n})(uint16_t *, const uint16_t *, uint16_t *, const uint8_t *)"),
    "frodo_mul_add_sb_plus_e": ("frodo_macrify.h", "void (*{n})(uint16_t *, const uint16_t *, const uint16_t *, const uint16_t *)"),
    "frodo_mul_bs": ("frodo_macrify.h", "void (*{n})(uint16_t *, const uint16_t *, const uint16_t *)"),
    "frodo_key_encode": ("frodo_macrify.h", "void (*{n})(uint16_t *, const uint16_t *)"),
    "frodo_key_decode": ("frodo_macrify.h", "void (*{n})(uint16_t *, const uint16_t *)"),
    "shake128": ("sha3/fips202.h", "void (*{n})(unsigned char *, unsigned long long, const unsigned char *, unsigned long long)"),
    "shake256": ("sha3/fips202.h", "void (*{n})(unsigned char *, unsigned long long, const unsigned char *, unsigned long long)"),
    "shake128_absorb": ("sha3/fips202.h", "void (*{n})(uint64_t *, const unsigned char *, unsigned int)"),
    "shake256_absorb": ("sha3/fips202.h", "void (*{n})(uint64_t *, const unsigned char *, unsigned int)"),
    "shake128_squeezeblocks": ("sha3/fips202.h", "void (*{n})(unsigned char *, unsigned long long, uint64_t *)"),
    "shake256_squeezeblocks": ("sha3/fips202.h", "void (*{n})(unsigned char *, unsigned long long, uint64_t *)"),
    "shake128_4x": ("sha3/fips202x4.h", "void (*{n})(unsigned char *, unsigned char *, unsigned char *, unsigned char *, unsigned long long, const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, unsigned long long)"),
    "shake128_absorb4x": ("sha3/fips202x4.h", "void (*{n})(__m256i *, const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, unsigned long long)"),
    "shake128_squeezeblocks4x": ("sha3/fips202x4.h", "void (*{n})(unsigned char *, unsigned char *, unsigned char *, unsigned char *, unsigned long long, __m256i *)"),
    "AES128_load_schedule": ("aes/aes.h", "void (*{n})(const uint8_t *, uint8_t *)"),
    "AES256_load_schedule": ("aes/aes.h", "void (*{n})(const uint8_t *, uint8_t *)"),
    "AES128_ECB_enc_sch": ("aes/aes.h", "void (*{n})(const uint8_t *, const size_t, const uint8_t *, uint8_t *)"),
    "AES256_ECB_enc_sch": ("aes/aes.h", "void (*{n})(const uint8_t *, const size_t, const uint8_t *, uint8_t *)"),
    "AES128_free_schedule": ("aes/aes.h", "void (*{n})(uint8_t *)"),
    "AES256_free_schedule": ("aes/aes.h", "void (*{n})(uint8_t *)"),
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", env=ENV, **kw)
    if r.returncode:
        raise BuildError(f"{' '.join(map(str, cmd))[:300]} (exit {r.returncode})\n{r.stdout[-3000:]}")
    return r.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        if os.path.isfile(top):
            fs = [top]
        else:
            fs = sorted(os.path.join(d, f) for d, _, files in os.walk(top) for f in files)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


_repo_hash = None


def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Makefile")])
    return _repo_hash


class Locked:
    def __init__(self, d):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, os.path.basename(d) + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def group(gen, opt, mode):
    """Builds one configuration; returns {size: path of the shared object, 'random': path}."""
    name = f"{gen}.{opt}.{mode}"
    d = os.path.join(BUILD, name)
    mk, cc, ldextra = MODE[mode]
    make_vars = [f"OPT_LEVEL={OPT[opt]}", *GEN[gen], *mk]
    out = {n: os.path.join(d, f"frodo{n}.so") for n in SIZES}
    out["random"] = os.path.join(d, "random.so")
    key = hashlib.sha256(json.dumps([repo_hash(), make_vars, cc, ldextra, "v6"]).encode()).hexdigest()
    with Locked(d):
        stamp = os.path.join(d, "stamp")
        try:
            if open(stamp).read() == key:
                return out
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for s in ("src", "tests", "Makefile"):
            os.symlink(os.path.join(REPO, s), os.path.join(d, s))
        run(["make", "-j3", "lib640", "lib976", "lib1344", *make_vars], cwd=d)
        run(["make", "lib640_for_KATs", "lib976_for_KATs", "lib1344_for_KATs", *make_vars], cwd=d)
        libs = ["-lcrypto"] if gen.endswith("o") else []
        heap = [f"-Wl,--wrap={w}" for w in ("malloc calloc realloc free aligned_alloc memalign posix_memalign _mm_malloc _mm_free").split()]
        for n in SIZES:
            run([cc, "-shared", "-o", out[n], *ldextra.split(), "-Wl,-Bsymbolic", *heap, "-Wl,--whole-archive",
                 f"{d}/frodo{n}/libfrodo_for_testing.a", "-Wl,--no-whole-archive", *libs], cwd=d)
            if libs:  # the same with the provider's functions redirected too, for C25
                run([cc, "-shared", "-o", os.path.join(d, f"fault{n}.so"), *ldextra.split(), "-Wl,-Bsymbolic", *heap, *EVP, "-Wl,--whole-archive",
                     f"{d}/frodo{n}/libfrodo_for_testing.a", "-Wl,--no-whole-archive", *libs], cwd=d)
            run([cc, "-shared", "-fPIC", "-o", os.path.join(d, f"api{n}.so"), f'-DAPI="api_frodo{n}.h"', "-I", os.path.join(REPO, "src"),
                 os.path.join(VERIF, "harness", "api.c")], cwd=d)
        wraps = ("usleep sleep nanosleep clock_nanosleep open open64 openat openat64 __open_2 __open64_2 read __read_chk pread getrandom getentropy close "
                 "fopen fopen64 fread __fread_chk fclose syscall poll").split()
        run([cc, "-shared", "-o", out["random"], *ldextra.split(), "-Wl,-Bsymbolic",
             *[f"-Wl,--wrap={w}" for w in wraps], f"{d}/objs/random/random.o"], cwd=d)
        shutil.rmtree(os.path.join(d, "objs"), ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(key)
    return out


def groups(specs, jobs=4):
    specs = list(dict.fromkeys(specs))
    with cf.ThreadPoolExecutor(jobs) as ex:
        return dict(zip(specs, ex.map(lambda s: group(*s), specs)))


def allowed_internals():
    """Names of the internal functions that still have the expected signature."""
    d = os.path.join(BUILD, "sigs")
    key = hashlib.sha256(json.dumps([repo_hash(), SIGS]).encode()).hexdigest()
    with Locked(d):
        p = os.path.join(d, "ok.json")
        try:
            j = json.load(open(p))
            if j["key"] == key:
                return j["ok"]
        except (OSError, ValueError, KeyError):
            pass
        os.makedirs(d, exist_ok=True)

        def one(n):
            hdr, sig = SIGS[n]
            src = (f'#include <stddef.h>\n#include <stdint.h>\n#include "{hdr}"\n'
                   + sig.format(n="p_" + n) + f" = {n};\n")
            c = os.path.join(d, n + ".c")
            with open(c, "w") as f:
                f.write(src)
            r = subprocess.run(["/usr/bin/gcc", "-std=gnu11", "-mavx2", "-Werror=incompatible-pointer-types", "-DNIX",
                                "-D_AMD64_", "-D_FAST_", "-D_AES128_FOR_A_", "-I", os.path.join(REPO, "src"),
                                "-fsyntax-only", c], env=ENV, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return r.returncode == 0

        with cf.ThreadPoolExecutor(8) as ex:
            names = list(SIGS)
            ok = [n for n, good in zip(names, ex.map(one, names)) if good]
        with open(p, "w") as f:
            json.dump({"key": key, "ok": ok}, f)
    return ok


HDIR = os.path.join(VERIF, "harness")
SRCS = ["engine.cpp", "cmpdict.cpp", "model.cpp", "libs.cpp", "main.cpp", "props_kem.cpp", "props_prim.cpp", "props_long.cpp", "props_side.cpp",
        "props_rand.cpp", "props_mips.cpp", "props_fault.cpp"]
FLAVOUR = {
    "plain": ("/usr/bin/g++", "-O2", ""),
    "asan": ("/usr/bin/clang++-18", "-O1 -g -fsanitize=address -DFLAVOUR_ASAN", "-fsanitize=undefined"),
    "tsan": ("/usr/bin/clang++-18", "-O1 -g -fsanitize=thread -DFLAVOUR_TSAN", ""),
}


MIPS = os.path.join(VERIF, "mips")
MIPS_CC = ("/usr/bin/clang-18 -target mips-linux-gnu -march=mips32r2 -msoft-float -mno-abicalls -fno-pic -G0 -ffreestanding "
           "-fno-builtin -nostdlibinc -isystem " + MIPS + "/include -Wno-unused-command-line-argument")


def mips(gen, opt, mode):
    """The portable sources, built by the project's Makefile for a big-endian machine; {size: elf}."""
    d = os.path.join(BUILD, f"mips.{gen}.{opt}.{mode}")
    out = {n: os.path.join(d, f"frodo{n}.elf") for n in SIZES}
    flags = {"be": "-O2", "be0": "-O0", "beunk": "-O2 -U__BYTE_ORDER__ -fno-strict-aliasing"}[mode]
    make_vars = [f"OPT_LEVEL={OPT[opt]}", *GEN[gen], f"CC={MIPS_CC}", "AR=/usr/bin/llvm-ar-18 rcs", "RANLIB=true", "ARCH=ARM",
                 f"EXTRA_CFLAGS={flags}"]
    key = hashlib.sha256(json.dumps([repo_hash(), tree_hash([MIPS]), make_vars, "v1"]).encode()).hexdigest()
    with Locked(d):
        stamp = os.path.join(d, "stamp")
        try:
            if open(stamp).read() == key:
                return out
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for s in ("src", "tests", "Makefile"):
            os.symlink(os.path.join(REPO, s), os.path.join(d, s))
        for n in SIZES:
            os.makedirs(os.path.join(d, f"frodo{n}"))
        run(["make", "-j3", "lib640_for_KATs", "lib976_for_KATs", "lib1344_for_KATs", *make_vars], cwd=d)
        run([*MIPS_CC.split(), "-O2", "-c", os.path.join(MIPS, "shim.c"), "-o", os.path.join(d, "shim.o")], cwd=d)
        for n in SIZES:
            run(["/usr/bin/ld.lld", "-m", "elf32btsmip", "-static", "--image-base=0x100000", "-e", f"crypto_kem_keypair_Frodo{n}", "-o",
                 out[n], "--whole-archive", f"frodo{n}/libfrodo_for_testing.a", "--no-whole-archive", "shim.o"], cwd=d)
        shutil.rmtree(os.path.join(d, "objs"), ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(key)
    return out


def glue():
    """The controllable random source that the Python checks load before the C library."""
    d = os.path.join(BUILD, "glue")
    so = os.path.join(d, "glue.so")
    with Locked(d):
        src = os.path.join(VERIF, "py", "glue.c")
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            os.makedirs(d, exist_ok=True)
            run(["/usr/bin/gcc", "-O1", "-shared", "-fPIC", "-o", so + ".tmp", os.path.join(VERIF, "py", "glue.c")])
            os.replace(so + ".tmp", so)
    return so


def harness(flavour="plain"):
    cxx, flags, ld = FLAVOUR[flavour]
    d = os.path.join(BUILD, "harness." + flavour)
    exe = os.path.join(d, "pbt")
    key = hashlib.sha256((tree_hash([HDIR]) + cxx + flags + ld).encode()).hexdigest()
    with Locked(d):
        stamp = os.path.join(d, "stamp")
        try:
            if open(stamp).read() == key:
                return exe
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)

        def one(s):
            o = os.path.join(d, s + ".o")
            extra = ["-O3", "-mavx2"] if s == "model.cpp" and flavour == "plain" else ["-mavx2"]
            run([cxx, "-std=gnu++17", "-Wall", "-Wextra", *flags.split(), *extra, "-c", os.path.join(HDIR, s), "-o", o])
            return o

        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, SRCS))
        run([cxx, *flags.split(), *ld.split(), "-rdynamic", "-o", exe, *objs, "-lcrypto", "-ldl", "-lpthread"])
        with open(stamp, "w") as f:
            f.write(key)
    return exe


if __name__ == "__main__":
    import sys
    import time
    t = time.time()
    for a in sys.argv[1:]:
        print(group(*a.split(".")))
    print(allowed_internals())
    print(time.time() - t)
