"""What each check runs: which builds, which generated property, how many cases."""

SIZES = (640, 976, 1344)
COST = {640: 1.0, 976: 0.45, 1344: 0.25}

# (generator of A, implementation, compiler mode)
AES_Q = [("aeso", "ref", "gccO3"), ("aeso", "gen", "gccO1"), ("aeso", "fast", "native"),
         ("aess", "ref", "arm"), ("aess", "gen", "gccO3"), ("aess", "fast", "native")]
SHAKE_Q = [("shake", "ref", "gccO3"), ("shake", "gen", "arm"), ("shake", "fast", "native")]
AES_T = AES_Q + [("aeso", "ref", "clangO3"), ("aeso", "fast", "gccO0"), ("aess", "gen", "clangO3"),
                 ("aess", "gen", "unk"), ("aess", "fast", "gccOs"), ("aess", "ref", "x86"), ("aess", "fast", "clangO3")]
SHAKE_T = SHAKE_Q + [("shake", "ref", "clangO3"), ("shake", "gen", "unk"), ("shake", "fast", "gccO0"),
                     ("shake", "fast", "clangO3"), ("shakeo", "fast", "gccO3"), ("shake", "gen", "x86"),
                     ("shake", "ref", "gccOs")]


def builds(tier):
    return (AES_Q, SHAKE_Q) if tier == "quick" else (AES_T, SHAKE_T)


def schemes(tier, aes=None, shake=None):
    a, s = builds(tier)
    a, s = aes or a, shake or s
    for n in SIZES:
        yield n, "aes", [x + (n,) for x in a]
        yield n, "shake", [x + (n,) for x in s]


def scale(tier, q, t):
    return q if tier == "quick" else t


def by_scheme(Job, prop, tier, cases, split=1, **kw):
    """One job per scheme (or several with different seeds), each over all builds of the scheme."""
    out = []
    for n, fam, libs in schemes(tier, kw.pop("aes", None), kw.pop("shake", None)) if ("aes" in kw or "shake" in kw) else schemes(tier):
        k = max(3, int(cases * COST[n]))
        parts = max(1, split)
        for i in range(parts):
            out.append(Job(prop, libs, max(2, k // parts), tag=f"{fam}{n}/{i}", **kw))
    return out


FED_AES = [("aess", "fast", "cmp"), ("aeso", "ref", "cmp"), ("aeso", "gen", "cmp")]
FED_SHAKE = [("shake", "fast", "cmp"), ("shake", "ref", "cmp"), ("shake", "gen", "cmp")]


def fed(Job, prop, tier, cases, split=1, extra=(), **kw):
    """The same property on builds that report their comparisons: the generators draw from the constants compared with,
    and cases that reach something new are mutated."""
    a = FED_AES + [x for x in extra if x[0][0] == "a"]
    s = FED_SHAKE + [x for x in extra if x[0][0] == "s"]
    return [Job(prop, j.libs, j.cases, tag="fed-" + j.tag, **kw) for j in by_scheme(Job, prop, tier, cases, split, aes=a, shake=s)]


BULK = {("aess", 640): 1.0, ("shake", 640): 0.65, ("aess", 976): 0.6, ("shake", 976): 0.35, ("aess", 1344): 0.4, ("shake", 1344): 0.22}


def bulk(Job, prop, tier, cases, split=4):
    """One key, very many seeds or messages, on the fast builds."""
    return [Job(prop, [(g, "fast", "native", n)], max(2, int(cases * w / split)), opts={"keybase": 10 * i + k},
                tag=f"{prop}{g}{n}/{k}") for i, ((g, n), w) in enumerate(BULK.items()) for k in range(split)]


RULE_BULK = "Bulk jobs keep the key and draw very many seeds or messages uniformly. "

RULE_KEM = ("Each case is a list of recorded choices drawn from the seed: build, structured or random byte strings "
            "(zero, all-one, repeated, counting, random, sparse, block-repeated, small, mixtures of a few bytes, single "
            "bytes set at the ends or anywhere) for every field. Jobs tagged fed run builds that report their comparisons; "
            "there bytes are also drawn from the constants compared with, and cases reaching new code are mutated. ")

ASSUME_MODEL = ["the specification model in harness/model.cpp (on OpenSSL's SHAKE and AES) is right",
                "x86-64 host; builds listed under coverage.builds"]


def C01(tier, Job):
    return {"jobs": by_scheme(Job, "C01", tier, scale(tier, 900, 15000), 2) + fed(Job, "C01", tier, scale(tier, 700, 15000)) +
            bulk(Job, "C01b", tier, scale(tier, 26000, 1000000)),
            "rule": RULE_KEM + RULE_BULK + "Key generation, encapsulation and decapsulation are each run by a build drawn from the "
                    "scheme's builds; half the messages are searched for large decryption noise. Non-trivial: always "
                    "(a full honest exchange). Oracle: equal shared secrets.",
            "assumptions": ["x86-64 host"]}


def C02(tier, Job):
    return {"jobs": by_scheme(Job, "C02", tier, scale(tier, 1400, 20000), 2) + fed(Job, "C02", tier, scale(tier, 1500, 25000)) +
            bulk(Job, "C02b", tier, scale(tier, 40000, 1500000)),
            "rule": RULE_KEM + RULE_BULK + "Oracle: pk, sk and the number of random bytes taken equal the specification model's. "
                    "Non-trivial: always.", "assumptions": ASSUME_MODEL}


def C03(tier, Job):
    return {"jobs": by_scheme(Job, "C03", tier, scale(tier, 1400, 20000), 2) + fed(Job, "C03", tier, scale(tier, 1800, 25000)) +
            bulk(Job, "C03b", tier, scale(tier, 40000, 1500000)),
            "rule": RULE_KEM + RULE_BULK + "Public keys are honest, arbitrary bytes, or matrices of extreme entries. Oracle: ct and "
                    "ss equal the specification model's. Non-trivial: always.", "assumptions": ASSUME_MODEL}


def C04(tier, Job):
    return {"jobs": by_scheme(Job, "C04", tier, scale(tier, 1400, 18000), 2) + fed(Job, "C04", tier, scale(tier, 1600, 25000)) +
            bulk(Job, "C04b", tier, scale(tier, 40000, 1500000)),
            "rule": RULE_KEM + RULE_BULK + "Secret keys are honest, damaged in any field, random, or solved for so that the "
                    "ciphertext decodes with a chosen noise; ciphertexts are valid, altered or random. Oracle: ss "
                    "equals the specification model's. Non-trivial: always (accept and reject counted in classes).",
            "assumptions": ASSUME_MODEL}


def C05(tier, Job):
    jobs = []
    for n, fam, libs in schemes(tier):
        if tier == "quick":
            # every coefficient once per implementation level, spread over builds
            for i, lib in enumerate(libs):
                if fam == "aes" and lib[0] == "aeso" and lib[1] != "fast":
                    continue
                jobs.append(Job("C05", [lib], 8 * n + 64, opts={"enum": 0, "keys": 1, "keybase": i + 1},
                                tag=f"enum{fam}{n}/{i}") if lib[1] == "fast" and (fam == "aes") == (lib[0] == "aess")
                            else Job("C05", [lib], int(700 * COST[n]), opts={"keys": 4, "keybase": i + 1},
                                     tag=f"mut{fam}{n}/{i}"))
            jobs.append(Job("C05", libs, int(800 * COST[n]), opts={"keys": 12, "keybase": 50}, tag=f"mix{fam}{n}"))
            for k in range(2):
                fast = [x for x in libs if x[1] == "fast"][-1]
                jobs.append(Job("C05", [fast], (64 + 128) * (15 if n == 640 else 16) // 2, tag=f"edge{fam}{n}/{k}",
                                opts={"edges": k, "stride": 2, "keys": 1, "keybase": 9}))
        else:
            D = 15 if n == 640 else 16
            bits = 8 * (D * n + 8 * D)
            fast = [x for x in libs if x[1] == "fast" and x[2] == "native" and x[0] in ("aess", "shake")][0]
            for k in range(4):
                jobs.append(Job("C05", [fast], bits // 4 + 1, opts={"enumbits": k, "stride": 4, "keys": 1, "keybase": 7},
                                tag=f"bits{fam}{n}/{k}"))
            for i, lib in enumerate(libs):
                jobs.append(Job("C05", [lib], 8 * n + 64, opts={"enum": 0, "keys": 1, "keybase": i + 1},
                                tag=f"enum{fam}{n}/{i}"))
                jobs.append(Job("C05", [lib], int(6000 * COST[n]), opts={"keys": 8, "keybase": i + 1},
                                tag=f"mut{fam}{n}/{i}"))
                jobs.append(Job("C05", [lib], (64 + 128) * D, opts={"edges": 0, "keys": 1, "keybase": 9}, tag=f"edge{fam}{n}/{i}"))
    jobs += fed(Job, "C05", tier, scale(tier, 500, 8000), opts={"keys": 6, "keybase": 60})
    return {"jobs": jobs,
            "rule": "An honest ciphertext made by the build itself is altered: enumerated coefficient by coefficient "
                    "(thorough: also bit by bit), in every bit of C and of the entries at the ends of the rows of B', or by structured mutations (bit, one or two coefficients with equal or "
                    "cancelling differences, whole-row and whole-matrix differences, swaps, halves exchanged or zeroed, "
                    "message-preserving and message-changing steps). Oracle: the result is SHAKE(ct||s) and not the "
                    "original secret. Non-trivial: the ciphertext differs (by construction).",
            "exhaustive": "per fast build and scheme, every coefficient position is altered at least once",
            "assumptions": ["OpenSSL's SHAKE for SHAKE(ct||s)"]}


def C06(tier, Job):
    # builds no other check runs: each case goes through all of them
    a, s = builds(tier)
    xa = [("aess", "ref", "x86"), ("aess", "gen", "unk"), ("aeso", "gen", "clangO3"), ("aess", "fast", "gccOs"), ("aeso", "ref", "gccpat"),
          ("aess", "fast", "clangO2"), ("aess", "fast", "gccO0")]
    xs = [("shake", "gen", "x86"), ("shake", "ref", "unks"), ("shake", "fast", "clangO3"), ("shakeo", "fast", "gccO3"), ("shake", "fast", "gccOs"),
          ("shake", "fast", "gccpat"), ("shake", "gen", "clangOs")]
    if tier == "thorough":
        zoo = ("gccO2", "gccOg", "gccOz", "gcclto", "gcczero", "gccpat", "clangO1", "clangO2", "clangOs", "clangOz", "clangO0")
        xa += [(g, o, m) for i, m in enumerate(zoo) for g in ("aeso", "aess") for o in ("ref", "gen", "fast") if o == "fast" or g == "aeso" or i % 3 == 0]
        xs += [("shake", o, m) for m in zoo for o in ("ref", "gen", "fast")]
    a, s = (list(dict.fromkeys(y + x)) for y, x in ((a, xa), (s, xs)))
    return {"jobs": by_scheme(Job, "C06", tier, scale(tier, 200, 1200), 2, aes=a, shake=s) + fed(Job, "C06", tier, scale(tier, 500, 8000), extra=(("aess", "fast", "native"), ("shake", "fast", "native"))),
            "rule": RULE_KEM + "Every build of the scheme runs the same call on the same input and randomness. Oracle: "
                    "identical outputs, return codes and randomness use. Non-trivial: always (at least two builds).",
            "assumptions": ["x86-64 host"]}


def C08(tier, Job):
    vg = [("aeso", "fast", "gccO3"), ("aess", "ref", "gccO1"), ("aess", "gen", "gccO0"), ("aess", "fast", "clangO3"),
          ("shake", "ref", "gccO3"), ("shake", "gen", "gccOs"), ("shake", "fast", "gccO1"), ("shake", "fast", "clangO0")]
    if tier == "thorough":
        vg += [("aeso", "ref", "clangO3"), ("aess", "ref", "arm"), ("shake", "gen", "clangO3"), ("aess", "gen", "clangO0"),
               ("shake", "ref", "gccO0"), ("aess", "fast", "gccO3"), ("shake", "fast", "gccO3"), ("aeso", "gen", "gccO3")]
    tr = [("aeso", "gen", "trace"), ("aess", "fast", "trace0"), ("shake", "ref", "trace0"), ("shake", "gen", "trace"),
          ("shake", "fast", "trace"), ("aeso", "ref", "trace0")]
    jobs = []
    for lib in vg:
        for n in SIZES:
            k = {640: 10, 976: 6, 1344: 5}[n] * scale(tier, 1, 12)
            if lib[0] == "aess" and lib[1] != "fast":
                k = max(3, k // 2)
            jobs.append(Job("C08v", [lib + (n,)], k, valgrind=True, limit=400, tag=f"vg{'.'.join(lib)}.{n}"))
    for lib in tr:
        for n in SIZES:
            k = {640: 30, 976: 14, 1344: 8}[n] * scale(tier, 1, 12)
            jobs.append(Job("C08t", [lib + (n,)], k, limit=200, tag=f"tr{'.'.join(lib)}.{n}"))
    jobs.sort(key=lambda j: not j.valgrind)
    return {"jobs": jobs,
            "rule": "(1) Under valgrind the secret inputs (s, seedSE, mu, S) are marked undefined and every branch or "
                    "address that depends on them is an error, for generated keys, public keys and ciphertexts "
                    "(valid, altered, random, crafted). (2) Instrumented builds record every basic block and every "
                    "load/store address; calls that share the public inputs but differ in the secrets must give the "
                    "same record. Non-trivial: always (secrets differ or are tainted).",
            "assumptions": ["instruction timing does not depend on operands", "valgrind's definedness tracking",
                            "code inside OpenSSL is not instrumented"]}


def C09(tier, Job):
    libs = [("aeso", "fast", "native"), ("aess", "ref", "gccO1"), ("aess", "gen", "gccO3"), ("aess", "fast", "clangO3"),
            ("shake", "ref", "gccO0"), ("shake", "gen", "gccOs"), ("shake", "fast", "gccO3"), ("shake", "ref", "clangO3")]
    if tier == "thorough":
        libs += [("aeso", "ref", "clangO0"), ("aess", "gen", "gccO0"), ("shake", "fast", "gccO0"), ("shake", "gen", "clangO3"),
                 ("aess", "fast", "native"), ("shake", "fast", "native")]
    jobs = [Job("C09", [x + (n,)], int(scale(tier, 130, 3000) * COST[n]), opts={"win": 12, "mwin": 48}, tag=f"{'.'.join(x)}.{n}") for x in libs for n in SIZES]
    jobs += fed(Job, "C09", tier, scale(tier, 250, 6000), opts={"win": 12, "mwin": 48})
    return {"jobs": jobs,
            "rule": "The call runs on a stack of its own; that stack, the memory the library took from the heap (freed or not) and the library's static memory are then searched for any 12-byte piece of s, seedSE, mu "
                    "or k and any 48-byte piece of S, E, S', E', E'', V, C-B'S (also transposed) and the unsampled "
                    "noise, as computed by the specification model. Non-trivial: at least one piece with enough "
                    "distinct bytes not to occur by chance.",
            "assumptions": ["registers, OpenSSL's own memory and memory of the caller are not searched"]}


def C10(tier, Job):
    jobs = by_scheme(Job, "C10", tier, scale(tier, 260, 4000), 1) + fed(Job, "C10", tier, scale(tier, 260, 4000))
    san = [("aess", "ref", "asan"), ("aess", "gen", "asan"), ("aess", "fast", "asan"), ("shake", "ref", "asan"),
           ("shake", "gen", "asan"), ("shake", "fast", "asan"), ("aeso", "fast", "asan")]
    for x in san:
        for n in SIZES:
            jobs.append(Job("C10", [x + (n,)], int(scale(tier, 60, 1000) * COST[n]), flavour="asan", tag=f"{'.'.join(x)}.{n}"))
    for x in [("aess", "ref", "gccub"), ("aess", "gen", "gccub"), ("aess", "fast", "gccub"), ("shake", "ref", "gccub"),
                           ("shake", "gen", "gccub"), ("shake", "fast", "gccub")]:
        for n in SIZES:
            jobs.append(Job("C10", [x + (n,)], int(scale(tier, 50, 1000) * COST[n]), tag=f"{'.'.join(x)}.{n}"))
    vg = [("aess", "ref", "gccO1"), ("aess", "fast", "gccO3"), ("aeso", "gen", "gccO3"), ("shake", "ref", "gccO3"), ("shake", "gen", "gccO1"),
          ("shake", "fast", "gccO3")]
    jobs = [Job("C10", [x + (n,)], {640: 6, 976: 4, 1344: 3}[n] * scale(tier, 1, 15), valgrind=True, limit=400, tag=f"vg{'.'.join(x)}.{n}")
            for n in (1344, 976, 640) for x in vg] + jobs
    return {"jobs": jobs,
            "rule": RULE_KEM + "Every buffer is placed flush against an inaccessible page or at any offset up to 33 from "
                    "it; inputs are read-only; each call runs twice with different prior output contents. Oracle: no "
                    "fault, no sanitizer report, slack intact, outputs independent of prior contents; under valgrind no "
                    "uninitialised value is used or returned. Non-trivial: always.", "assumptions": ["undefined behaviour that the sanitizers of clang and gcc do not detect is not seen"]}


def C11(tier, Job):
    r = "@BUILD@/aess.ref.gccO3/random.so"
    jobs = [Job("C11", [], 98304 // 8, opts={"random": r, "enum": k, "stride": 8}, tag=f"enum{k}") for k in range(8)]
    jobs += [Job("C11", [], scale(tier, 12000, 120000), opts={"random": r}, tag=f"rnd{k}") for k in range(4)]
    jobs += [Job("C11h", [], scale(tier, 1500, 20000), opts={"random": r, "racy": 1}, limit=60, tag=f"hist{k}") for k in range(4)]
    jobs += [Job("C11", [], scale(tier, 15, 200), opts={"random": r, "large": 1}, limit=60, tag="large")]
    return {"jobs": jobs, "groups": [("aess", "ref", "gccO3")], "level": "fault_enumeration",
            "rule": "The object randombytes is linked against a simulated device. Schedules of up to two failed opens and "
                    "four read outcomes (full, one byte, half, all but one, EINTR, EAGAIN, EIO, zero) over three requests "
                    "and two descriptor numbers are enumerated (all 98304); "
                    "longer schedules and histories are random, some with storms (16 to 65000 times the same read outcome, up to 1100 failed opens); requests around 2 and 4 GiB are sampled. Oracle: each "
                    "request returns the next bytes of the device, nothing else is written, one descriptor. Histories of "
                    "requests alone, by 2-6 threads at once and by forked children: every word delivered is the "
                    "device's and none is delivered twice. Non-trivial: a fault was actually injected, or threads or "
                    "forks take part.",
            "exhaustive": "the 98304 schedules described in the rule",
            "assumptions": ["the read and open family of system calls is how the source reaches the device"]}


def C12(tier, Job):
    return {"jobs": by_scheme(Job, "C12", tier, scale(tier, 500, 8000), 1) + fed(Job, "C12", tier, scale(tier, 200, 4000)), "level": "fault_enumeration",
            "rule": RULE_KEM + "Histories of 1-5 operations; the random source fails at any of the requests the operation "
                    "makes, once or persistently, with any code, after writing any part. Oracle: non-zero return; the "
                    "same operation afterwards gives what it gave before; decapsulation never asks. Non-trivial: at "
                    "least one fault (by construction).", "assumptions": []}


def C13(tier, Job):
    jobs = []
    for n, fam, libs in schemes(tier):
        for lib in libs:
            k = {640: 10, 976: 5, 1344: 3}[n] * scale(tier, 1, 20)
            jobs.append(Job("C13", [lib], k, opts={"rounds": 3, "racy": 1}, limit=300, tag=f"{'.'.join(map(str, lib))}"))
    for g in ("aess", "shake", "aeso"):
        for o in ("ref", "gen", "fast"):
            for n in (640, 976, 1344):
                if tier == "quick" and (n == 1344 or g == "aeso" and (n == 976 or o == "gen")):
                    continue
                jobs.append(Job("C13", [(g, o, "tsan", n)], scale(tier, {640: 3, 976: 1, 1344: 2}[n], {640: 40, 976: 20, 1344: 10}[n]),
                                flavour="tsan", opts={"rounds": 1, "racy": 1}, limit=400, tag=f"tsan{g}{o}{n}"))
    return {"jobs": jobs, "workers": 3,
            "rule": "2 to 8 threads run 1-3 generated operations each, several rounds, with own or shared keys, as the first "
                    "calls into a freshly loaded library. Oracle: "
                    "every output equals that of the same call run alone in a freshly loaded library; ThreadSanitizer reports no race. Non-trivial: "
                    "always (at least two threads).",
            "assumptions": ["thread schedules are the operating system's; ThreadSanitizer generalises over them for the "
                            "accesses that occur"]}


def C24(tier, Job):
    jobs = []
    for n, _, libs in schemes(tier):
        for lib in libs:
            fast = lib[1] == "fast"
            if tier == "quick" and not fast and lib[0] != "aeso" and n != 640:
                continue
            jobs.append(Job("C24", [lib], max(2, int(scale(tier, 16 if fast else 4, 400) * COST[n])), opts={"factor": 5 if fast and n == 640 else 3},
                            tag=".".join(map(str, lib))))
    return {"jobs": jobs,
            "rule": "Histories of 1-4 operations (honest and malformed inputs, failing random source), repeated 54 or 250 times "
                    "with fresh inputs, same or new keys, or the same inputs. Oracle: neither the heap in use nor the "
                    "open descriptors nor the threads grow between rounds 2, 2f, 2f^2 and 2f^3 (f 3 or 5) every time. Non-trivial: "
                    "always.", "assumptions": ["memory is taken from malloc"]}


def C14(tier, Job):
    # (build, operations, the operation that makes up nine tenths of them)
    long_ = [("aess", "fast", "native", 640, 78000, h) for h in range(3)]
    long_ += [("shake", "fast", "native", 640, scale(tier, 9000, 78000), h) for h in range(3)]
    long_ += [("aeso", "fast", "native", 640, scale(tier, 5000, 78000), h) for h in range(3)]
    long_ += [("shake", "ref", "gccO3", 640, scale(tier, 4000, 70000), 3), ("aess", "fast", "native", 976, scale(tier, 10000, 210000), 3),
              ("shake", "fast", "native", 1344, scale(tier, 6000, 100000), 3), ("aess", "gen", "arm", 640, scale(tier, 1200, 20000), 3)]
    jobs = [Job("C14n", [x[:4]], scale(tier, 1, 2), opts={"ops": x[4], "heavy": x[5]}, limit=60,
                tag=f"long{'.'.join(map(str, x[:4]))}/{x[5]}") for x in long_]
    return {"jobs": jobs + by_scheme(Job, "C14", tier, scale(tier, 130, 1800), 2) + fed(Job, "C14", tier, scale(tier, 80, 1500)),
            "rule": "Histories of 2-14 operations over a pool of inputs that are close to one another (same key twice, "
                    "keys differing in one bit, near the end, in a permutation, or with the same XOR), with reused "
                    "output buffers and poisoned stack and heap; and single histories of up to 78000 operations, mostly of one kind. Oracle: the same call in a process forked before any "
                    "library call. Non-trivial: at least two operations (by construction).", "assumptions": []}


def prim(Job, tier, prop, libs, cases, sizes=(640,), **kw):
    sfx = "m" if "medium" in kw.get("opts", {}) else ""
    return [Job(prop, [x + (n,)], cases, tag=f"{prop}{sfx}{'.'.join(x)}.{n}", **kw) for x in libs for n in sizes]


ALLB = [("aeso", "ref", "gccO3"), ("aess", "gen", "arm"), ("shake", "ref", "gccO0"), ("shake", "fast", "native"), ("aess", "fast", "clangO3")]


def C15(tier, Job):
    jobs = prim(Job, tier, "C15", ALLB + [("shake", "gen", "cmp")], scale(tier, 50000, 500000)) + \
        prim(Job, tier, "C15", [("shake", "fast", "asan")], scale(tier, 3000, 60000), flavour="asan")
    jobs = [Job("C15L", [("shake", "ref", "gccO3", 640)], scale(tier, 1, 4), opts={"huge": 1}, limit=400, tag="huge")] + jobs
    jobs += prim(Job, tier, "C15L", [("shake", "ref", "gccO3"), ("shake", "fast", "native"), ("aess", "fast", "clangO3")], scale(tier, 40, 400))
    jobs += prim(Job, tier, "C15L", [("shake", "ref", "gccO3"), ("aess", "fast", "clangO3")], scale(tier, 5000, 50000), opts={"medium": 1})
    if tier == "thorough":
        jobs.append(Job("C15L", [("aeso", "ref", "gccO3", 640)], 1, opts={"huge": 2}, limit=600, tag="hugeout"))
    return {"jobs": jobs,
            "rule": "Input and output lengths small, around multiples of both rates, or uniform; one-shot and "
                    "absorb/squeeze with any split; C15L: lengths up to 600 blocks uniformly, of 64 KiB to 16 MiB around powers of two of bytes and of "
                    "blocks, and inputs around 2 and 4 GiB. Oracle: OpenSSL's SHAKE; canaries after the output. Non-trivial: the "
                    "functions exist with their signature.", "assumptions": ["OpenSSL's SHAKE"]}


def C16(tier, Job):
    L = [("shake", "fast", "native"), ("shake", "fast", "gccO3"), ("shake", "fast", "clangO3"), ("shake", "fast", "gccO0")]
    jobs = prim(Job, tier, "C16", L + [("shake", "fast", "cmp")], scale(tier, 15000, 150000)) + \
        prim(Job, tier, "C16", [("shake", "fast", "asan")], scale(tier, 2000, 40000), flavour="asan")
    jobs += prim(Job, tier, "C16L", [("shake", "fast", "native"), ("shake", "fast", "gccO3")], scale(tier, 25, 250))
    jobs += prim(Job, tier, "C16L", [("shake", "fast", "native"), ("shake", "fast", "clangO3")], scale(tier, 3000, 30000), opts={"medium": 1})
    if tier == "thorough":
        jobs.append(Job("C16L", [("shake", "fast", "gccO3", 640)], 2, opts={"huge": 1}, limit=900, tag="huge"))
    jobs += [Job("C02", [("shake", "fast", "native", n)], int(scale(tier, 150, 3000) * COST[n]), tag=f"api{n}") for n in SIZES]
    return {"jobs": jobs,
            "rule": "Four inputs, unrelated, equal, or differing in one byte or lane; lengths around multiples of the "
                    "rate, also of 64 KiB to 8 MiB. Oracle: OpenSSL's SHAKE128 per lane; canaries. The same code is also observed through key "
                    "generation of the AVX2 builds. Non-trivial: the functions exist with their signature.",
            "assumptions": ["OpenSSL's SHAKE"]}


def C17(tier, Job):
    L = [("aess", "ref", "arm"), ("aess", "fast", "native"), ("aess", "gen", "gccO0"), ("aess", "fast", "clangO3"), ("aess", "gen", "unk")]
    jobs = prim(Job, tier, "C17", L + [("aess", "fast", "cmp"), ("aess", "ref", "cmp")], scale(tier, 12000, 80000)) + \
        prim(Job, tier, "C17", [("aess", "ref", "asan"), ("aess", "fast", "asan")], scale(tier, 300, 6000), flavour="asan")
    jobs += prim(Job, tier, "C17L", [("aess", "fast", "native"), ("aess", "fast", "clangO3")], scale(tier, 60, 600))
    jobs += prim(Job, tier, "C17L", [("aess", "ref", "gccO3"), ("aess", "gen", "arm")], scale(tier, 25, 250), opts={"top": 17})
    jobs += prim(Job, tier, "C17L", [("aess", "fast", "native"), ("aess", "gen", "arm")], scale(tier, 2500, 25000), opts={"medium": 1})
    if tier == "thorough":
        jobs.append(Job("C17L", [("aess", "fast", "gccO3", 640)], 2, opts={"huge": 1}, limit=900, tag="huge"))
    jobs += [Job("C02", [(g, o, m, n)], int(scale(tier, 120, 3000) * COST[n]), tag=f"api{m}{n}")
             for g, o, m in (("aess", "ref", "arm"), ("aess", "fast", "native")) for n in SIZES]
    return {"jobs": jobs,
            "rule": "Keys and plaintexts structured or random, 0 to 2^20 blocks, in place or not, any data "
                    "alignment, schedules reloaded and freed. Oracle: OpenSSL's AES-ECB; canaries; schedule zero after "
                    "free. Non-trivial: the functions exist with their signature.", "assumptions": ["OpenSSL's AES"]}


def C18(tier, Job):
    jobs = prim(Job, tier, "C18", ALLB + [("shake", "ref", "cmp")], scale(tier, 60000, 400000)) + \
        prim(Job, tier, "C18", [("shake", "gen", "asan")], scale(tier, 4000, 60000), flavour="asan")
    jobs += prim(Job, tier, "C18L", [("shake", "ref", "gccO3"), ("shake", "fast", "native"), ("aess", "gen", "arm")], scale(tier, 60, 800))
    jobs += prim(Job, tier, "C18L", [("shake", "ref", "gccO3"), ("shake", "fast", "native")], scale(tier, 3000, 30000), opts={"medium": 1})
    jobs += [Job("C03", [x + (n,)], int(scale(tier, 120, 2000) * COST[n]), tag=f"api{n}")
             for x in (("shake", "fast", "native"),) for n in SIZES]
    return {"jobs": jobs,
            "rule": "Vectors of 0 to 2^19 16-bit values, widths 1-16, lengths exact, truncating or padding, buffers between "
                    "guard pages. Oracle: an independent bit-by-bit packer, and unpack(pack(v)) = v mod 2^width. "
                    "Non-trivial: the functions exist with their signature.", "assumptions": []}


def C19(tier, Job):
    jobs = by_scheme(Job, "C19", tier, scale(tier, 600, 6000), 1) + fed(Job, "C19", tier, scale(tier, 250, 4000))
    jobs += [Job("C19i", [x + (n,)], scale(tier, 40000, 200000), tag=f"int{'.'.join(x)}{n}")
             for x in (("shake", "ref", "gccO3"), ("shake", "fast", "native"), ("aess", "gen", "gccO3")) for n in SIZES]
    return {"jobs": jobs,
            "rule": "Messages and error matrices with entries at, one below and one above the bound, in one, some or all "
                    "positions; through the API with a secret key solved for so that the decryption noise is exactly that "
                    "matrix, and directly. Oracle: the specification's rounding. Non-trivial: a key with that noise "
                    "exists.", "assumptions": ASSUME_MODEL}


def C20(tier, Job):
    jobs = by_scheme(Job, "C20", tier, scale(tier, 500, 6000), 1) + by_scheme(Job, "C20e", tier, scale(tier, 500, 4000), 1)
    jobs += fed(Job, "C20", tier, scale(tier, 200, 4000))
    jobs += [Job("C20i", [x + (n,)], scale(tier, 4000, 30000), tag=f"int{'.'.join(x)}{n}")
             for x in (("shake", "ref", "gccO3"), ("shake", "fast", "native"), ("aess", "gen", "gccO3"), ("aess", "ref", "arm")) for n in SIZES]
    return {"jobs": jobs,
            "rule": "Through key generation and encapsulation S, E, S', E', E'' are recovered from the outputs and compared "
                    "with the specification's distribution table; directly, all 65536 values in a drawn order and "
                    "vectors of edge values of any length. Oracle: inversion of the published distribution. "
                    "Non-trivial: always.",
            "exhaustive": "all 65536 input values of the sampler, per parameter set and build, when frodo_sample_n keeps its signature",
            "assumptions": ASSUME_MODEL}


def C21(tier, Job):
    jobs = by_scheme(Job, "C21", tier, scale(tier, 600, 7000), 1) + by_scheme(Job, "C21i", tier, scale(tier, 900, 9000), 1)
    jobs += fed(Job, "C21", tier, scale(tier, 250, 4000)) + fed(Job, "C21i", tier, scale(tier, 400, 6000))
    return {"jobs": jobs,
            "rule": "Seeds structured or random; operands zero, extreme, random, noise, sparse, alternating, one-hot; "
                    "through encapsulation (B arbitrary) and decapsulation (S solved for), and directly on the four "
                    "products. Oracle: schoolbook products modulo q with A from OpenSSL's AES or SHAKE. Non-trivial: the "
                    "crafted case is accepted by the model, or a direct product.", "assumptions": ASSUME_MODEL}


def C22(tier, Job):
    jobs, mips = [], []
    modes = ("be", "beunk") if tier == "quick" else ("be", "beunk", "be0")
    for g, fam in (("aess", "aes"), ("shake", "shake")):
        for o in ("ref", "gen"):
            for m in modes:
                mips.append((g, o, m))
                for n in SIZES:
                    if m == "be0" and (n != 640 or g == "aess"):
                        continue
                    k = scale(tier, {640: 14, 976: 8, 1344: 5}, {640: 400, 976: 200, 1344: 110})[n]
                    if m == "be0":
                        k = 40
                    jobs.append(Job("C22", [], k, limit=400, tag=f"emu{g}.{o}.{m}.{n}",
                                    opts={"elf": f"@BUILD@/mips.{g}.{o}.{m}/frodo{n}.elf", "size": n, "gen": fam,
                                          "needs": f"{g}.{o}.{m}"}))
    jobs.sort(key=lambda j: -j.opts["size"])
    for g in ("aess", "shake"):
        for o in ("ref", "gen"):
            for n in SIZES:
                for pr in ("C02", "C03", "C04"):
                    jobs.append(Job(pr, [(g, o, "unk", n)], max(4, int(scale(tier, 60, 1500) * COST[n])),
                                    tag=f"unk{g}.{o}.{n}.{pr}"))
    return {"jobs": jobs, "mips": mips, "tolerate_infra": True,
            "rule": RULE_KEM + "The portable sources are built for a big-endian 32-bit MIPS, with the byte order known and "
                    "unknown to the preprocessor, and run in an emulator; and for the host with the byte order unknown. "
                    "Any of the three operations, any buffer placement. Oracle: outputs equal the specification model's. "
                    "Non-trivial: always.",
            "assumptions": ASSUME_MODEL + ["the MIPS32r2 emulator in harness/props_mips.cpp; clang's MIPS back end"]}


PYARGS = ["/usr/local/bin/python3-vt", "@VERIF@/py/pyprops.py", "--glue", "@BUILD@/glue/glue.so", "--libs", "@BUILD@"]
VARIANTS = [f"{n}-{g}" for n in (1344, 976, 640) for g in ("AES", "SHAKE")]


def py(Job, prop, which, cases, variant="", builds=(), tag="", deadline=None):
    return Job(prop, [], cases, kind="py", argv=PYARGS + ["--which", which, "--variant", variant],
               opts={"builds": [".".join(b) for b in builds]}, deadline=deadline, tag=tag or f"{which}{variant}")


def C07(tier, Job):
    B = [("aeso", "ref", "gccO3"), ("aess", "fast", "native"), ("shake", "ref", "gccO3"), ("shake", "fast", "native")]
    jobs = []
    per = {"640-AES": 34, "640-SHAKE": 46, "976-AES": 14, "976-SHAKE": 17, "1344-AES": 8, "1344-SHAKE": 10}
    for v in VARIANTS:
        for i in range(scale(tier, 2, 8)):
            jobs.append(py(Job, "C07", "c07ops", scale(tier, (per[v] + 1) // 2, 8 * per[v]), v, B, tag=f"ops{v}/{i}",
                           deadline=scale(tier, 200, 2400)))
    jobs.append(py(Job, "C07", "c07gen", scale(tier, 24, 300), "", B, deadline=scale(tier, 100, 1200)))
    for i in range(scale(tier, 2, 6)):
        jobs.append(py(Job, "C07", "c07block", scale(tier, 1500, 20000), "", B, tag=f"block{i}", deadline=scale(tier, 100, 1200)))
    jobs.append(py(Job, "C07", "c07enum", 30, "", B, deadline=scale(tier, 200, 1200)))
    return {"jobs": jobs, "groups": B,
            "rule": "Hypothesis draws 1-3 operations on one FrodoKEM object: key generation, encapsulation (honest, extreme, "
                    "arbitrary public keys) and decapsulation (valid, altered, twin differences, damaged keys, random, S "
                    "solved for so that the noise is at the decoding bound); and arguments of the building blocks. "
                    "Oracle: the C library on the same bytes (two builds per scheme); for the blocks an independent numpy "
                    "specification. Non-trivial: always (distinct argument records are counted).",
            "exhaustive": "all 65536 values of sample and all residues of decode, for each of the six variants",
            "assumptions": ["py/spec.py, hashlib's SHAKE, the AES of the cryptography package"]}


def C23(tier, Job):
    jobs = [py(Job, "C23", "c23good", scale(tier, {"640": 16, "976": 8, "1344": 4}, {"640": 300, "976": 120, "1344": 70})[v.split("-")[0]],
               v, tag=f"good{v}", deadline=scale(tier, 150, 2000)) for v in VARIANTS]
    jobs += [py(Job, "C23", "c23name", scale(tier, 4000, 60000), deadline=scale(tier, 150, 2000)),
             py(Job, "C23", "c23both", scale(tier, 2500, 30000), deadline=scale(tier, 150, 2000))]
    jobs += [py(Job, "C23", "c23len", scale(tier, 3000, 40000), tag=f"len{i}", deadline=scale(tier, 150, 2000)) for i in range(2)]
    return {"jobs": jobs,
            "rule": "Hypothesis draws variant names (edits of the six names, recombinations, arbitrary text) and lengths "
                    "(near the right one, of other fields and variants, missing or repeated parts, arbitrary, two wrong at "
                    "once). Oracle: an exception for every name and length that is not documented; for the documented ones "
                    "acceptance of any bytes and outputs of the documented lengths. Non-trivial: always.",
            "assumptions": ["Python is not run with -O (the reference rejects with assert)"]}


def C25(tier, Job):
    jobs = []
    for g, o, m in (("aeso", "ref", "gccO3"), ("aeso", "gen", "gccO1"), ("aeso", "fast", "native")):
        for n in SIZES:
            jobs.append(Job("C25", [(g, o, m, n)], int(scale(tier, 500, 8000) * COST[n]), tag=f"{o}{n}"))
    # builds without OpenSSL: any allocation they make
    jobs += [Job("C25", [x], scale(tier, 60, 1000), tag=".".join(map(str, x)))
             for x in (("aess", "fast", "native", 640), ("aess", "gen", "arm", 976), ("shake", "ref", "gccO3", 640), ("shake", "fast", "native", 1344))]
    return {"jobs": jobs,
            "rule": "One of the three operations with inputs from the model; the k-th allocation or the k-th call into the AES "
                    "provider (creation, key, encryption of a batch of rows; leaving the output alone, half written or junk) fails, "
                    "once or from then on, in a process that used the library before or not. Oracle: the process aborts or exits, "
                    "or the call returns non-zero, or its output is the specified one; no crash, no hang; the next call is right. "
                    "Non-trivial: a fault was injected.",
            "assumptions": ["OpenSSL reports its own failures truthfully"]}


def C26(tier, Job):
    B = [("aess", "fast", "native"), ("shake", "fast", "native")]
    return {"jobs": [py(Job, "C26", "c26rng", scale(tier, 1500, 20000)), py(Job, "C26", "c26run", scale(tier, 900, 8000), builds=B),
                     py(Job, "C26", "c26main", scale(tier, 25, 300))],
            "groups": B,
            "rule": "Histories of requests to 1-3 generators (right lengths, wrong ones, too many); listings of exchanges of a KEM that "
                    "returns drawn values, or of the C library, with equal or differing shared secrets; the whole program with such a KEM. Oracle: an independent AES-256 "
                    "CTR_DRBG seeded as the NIST programs do; the values the KEM returned. Non-trivial: always.",
            "assumptions": ["AES of the `cryptography` package"]}


PLANS = {k: v for k, v in globals().items() if k[0] == "C" and k[1:].isdigit()}
