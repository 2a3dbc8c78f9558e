// C22: the portable sources run on an emulated big-endian 32-bit machine (MIPS32r2, no FPU) against the specification.
#include "gens.hpp"
#include <elf.h>
#include <memory>

namespace {
inline uint32_t be32(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return __builtin_bswap32(v); }
inline uint16_t be16(const uint8_t *p) { uint16_t v; memcpy(&v, p, 2); return __builtin_bswap16(v); }
inline void wbe32(uint8_t *p, uint32_t v) { v = __builtin_bswap32(v); memcpy(p, &v, 4); }
inline void wbe16(uint8_t *p, uint16_t v) { v = __builtin_bswap16(v); memcpy(p, &v, 2); }

struct Machine {
    static const uint32_t MEM = 48u << 20, RET = 0xFFFF0000u;
    std::vector<uint8_t> m, image;
    std::map<std::string, uint32_t> sym;
    uint32_t heap_top = 0;
    uint32_t r[32], hi, lo;
    uint64_t steps = 0;
    Bytes rnd;
    size_t used = 0;
    unsigned rcalls = 0;

    bool load(const std::string &path) {
        FILE *f = fopen(path.c_str(), "rb");
        if (!f) return false;
        Bytes b;
        uint8_t tmp[65536];
        size_t n;
        while ((n = fread(tmp, 1, sizeof tmp, f)) > 0) b.insert(b.end(), tmp, tmp + n);
        fclose(f);
        if (b.size() < 52 || memcmp(b.data(), "\177ELF\1\2", 6)) return false;
        m.assign(MEM, 0);
        uint32_t phoff = be32(&b[28]), shoff = be32(&b[32]);
        unsigned phn = be16(&b[44]), shn = be16(&b[48]);
        for (unsigned i = 0; i < phn; i++) {
            const uint8_t *p = &b[phoff + 32 * i];
            if (be32(p) != PT_LOAD) continue;
            uint32_t off = be32(p + 4), va = be32(p + 8), fs = be32(p + 16), ms = be32(p + 20);
            if ((uint64_t)va + ms > MEM - (16u << 20)) return false;
            memcpy(&m[va], &b[off], fs);
            heap_top = std::max(heap_top, va + ms);
        }
        for (unsigned i = 0; i < shn; i++) {
            const uint8_t *s = &b[shoff + 40 * i];
            if (be32(s + 4) != SHT_SYMTAB) continue;
            uint32_t off = be32(s + 16), size = be32(s + 20), link = be32(s + 24);
            uint32_t stroff = be32(&b[shoff + 40 * link + 16]);
            for (uint32_t o = 0; o < size; o += 16) {
                const char *nm = (const char *)&b[stroff + be32(&b[off + o])];
                uint32_t v = be32(&b[off + o + 4]);
                if (*nm && v) sym[nm] = v;
            }
        }
        image.assign(m.begin(), m.begin() + heap_top);
        return true;
    }
    uint8_t *at(uint32_t a, uint32_t n) {
        if ((uint64_t)a + n > MEM || a < 0x1000) fail("emulated code accesses address 0x%08x", a);
        return &m[a];
    }
    void host() {
        switch (r[2]) {
        case 1: {
            uint32_t n = r[5];
            uint8_t *p = at(r[4], n);
            rcalls++;
            for (uint32_t i = 0; i < n; i++, used++) p[i] = used < rnd.size() ? rnd[used] : 0xA5;
            r[2] = 0;
            break;
        }
        case 2: fail("emulated code aborts");
        case 3: { uint8_t *d = at(r[4], r[6]), *s = at(r[5], r[6]); memmove(d, s, r[6]); break; }
        case 4: { uint8_t *d = at(r[4], r[6]); memset(d, (int)r[5], r[6]); break; }
        default: fail("emulated code makes an unknown host call");
        }
    }
    uint32_t call(const std::string &fn, std::initializer_list<uint32_t> args) {
        auto it = sym.find(fn);
        if (it == sym.end()) { fprintf(stderr, "no symbol %s\n", fn.c_str()); exit(3); }
        memset(r, 0, sizeof r);
        hi = lo = 0;
        r[29] = MEM - 4096;
        r[31] = RET;
        unsigned k = 4;
        for (uint32_t a : args) r[k++] = a;
        run(it->second);
        return r[2];
    }
    void run(uint32_t pc) {
        uint32_t npc = pc + 4;
        uint8_t *M = m.data();
        while (pc != RET) {
            if ((pc & 3) || pc >= MEM) fail("emulated code jumps to 0x%08x", pc);
            uint32_t w = be32(M + pc);
            uint32_t nn = npc + 4;
            steps++;
            unsigned rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sh = w >> 6 & 31;
            uint32_t A = r[rs], B = r[rt];
            int32_t si = (int16_t)w;
            uint32_t ui = w & 0xffff;
#define BR(c) do { if (c) nn = npc + ((uint32_t)si << 2); } while (0)
            switch (w >> 26) {
            case 0:
                switch (w & 63) {
                case 0x00: r[rd] = B << sh; break;
                case 0x02: r[rd] = rs ? (sh ? B >> sh | B << (32 - sh) : B) : B >> sh; break;
                case 0x03: r[rd] = (uint32_t)((int32_t)B >> sh); break;
                case 0x04: r[rd] = B << (A & 31); break;
                case 0x06: { unsigned q = A & 31; r[rd] = sh ? (q ? B >> q | B << (32 - q) : B) : B >> q; break; }
                case 0x07: r[rd] = (uint32_t)((int32_t)B >> (A & 31)); break;
                case 0x08: nn = A; break;
                case 0x09: r[rd] = pc + 8; nn = A; break;
                case 0x0a: if (B == 0) r[rd] = A; break;
                case 0x0b: if (B != 0) r[rd] = A; break;
                case 0x0c: host(); break;
                case 0x0d: fail("emulated code executes break at 0x%08x", pc); break;
                case 0x0f: break;
                case 0x10: r[rd] = hi; break;
                case 0x11: hi = A; break;
                case 0x12: r[rd] = lo; break;
                case 0x13: lo = A; break;
                case 0x18: { int64_t v = (int64_t)(int32_t)A * (int32_t)B; lo = (uint32_t)v; hi = (uint32_t)((uint64_t)v >> 32); break; }
                case 0x19: { uint64_t v = (uint64_t)A * B; lo = (uint32_t)v; hi = (uint32_t)(v >> 32); break; }
                case 0x1a: if (B && !(A == 0x80000000u && B == 0xffffffffu)) { lo = (uint32_t)((int32_t)A / (int32_t)B); hi = (uint32_t)((int32_t)A % (int32_t)B); } break;
                case 0x1b: if (B) { lo = A / B; hi = A % B; } break;
                case 0x20: case 0x21: r[rd] = A + B; break;
                case 0x22: case 0x23: r[rd] = A - B; break;
                case 0x24: r[rd] = A & B; break;
                case 0x25: r[rd] = A | B; break;
                case 0x26: r[rd] = A ^ B; break;
                case 0x27: r[rd] = ~(A | B); break;
                case 0x2a: r[rd] = (int32_t)A < (int32_t)B; break;
                case 0x2b: r[rd] = A < B; break;
                case 0x34: if (A == B) fail("emulated code traps at 0x%08x", pc); break;
                case 0x36: if (A != B) fail("emulated code traps at 0x%08x", pc); break;
                default: bad(w, pc);
                }
                break;
            case 0x01:
                switch (rt) {
                case 0x00: BR((int32_t)A < 0); break;
                case 0x01: BR((int32_t)A >= 0); break;
                case 0x10: r[31] = pc + 8; BR((int32_t)A < 0); break;
                case 0x11: r[31] = pc + 8; BR((int32_t)A >= 0); break;
                default: bad(w, pc);
                }
                break;
            case 0x02: nn = (npc & 0xf0000000u) | (w & 0x3ffffff) << 2; break;
            case 0x03: r[31] = pc + 8; nn = (npc & 0xf0000000u) | (w & 0x3ffffff) << 2; break;
            case 0x04: BR(A == B); break;
            case 0x05: BR(A != B); break;
            case 0x06: BR((int32_t)A <= 0); break;
            case 0x07: BR((int32_t)A > 0); break;
            case 0x08: case 0x09: r[rt] = A + (uint32_t)si; break;
            case 0x0a: r[rt] = (int32_t)A < si; break;
            case 0x0b: r[rt] = A < (uint32_t)si; break;
            case 0x0c: r[rt] = A & ui; break;
            case 0x0d: r[rt] = A | ui; break;
            case 0x0e: r[rt] = A ^ ui; break;
            case 0x0f: r[rt] = ui << 16; break;
            case 0x1c:
                switch (w & 63) {
                case 0x00: case 0x01: case 0x04: case 0x05: {
                    uint64_t acc = (uint64_t)hi << 32 | lo;
                    uint64_t v = (w & 1) ? (uint64_t)A * B : (uint64_t)((int64_t)(int32_t)A * (int32_t)B);
                    acc = (w & 4) ? acc - v : acc + v;
                    lo = (uint32_t)acc; hi = (uint32_t)(acc >> 32);
                    break;
                }
                case 0x02: r[rd] = A * B; break;
                case 0x20: r[rd] = A ? (uint32_t)__builtin_clz(A) : 32; break;
                case 0x21: r[rd] = ~A ? (uint32_t)__builtin_clz(~A) : 32; break;
                default: bad(w, pc);
                }
                break;
            case 0x1f:
                switch (w & 63) {
                case 0x00: { unsigned sz = rd + 1; uint32_t mk = sz == 32 ? ~0u : (1u << sz) - 1; r[rt] = A >> sh & mk; break; }
                case 0x04: { unsigned sz = rd - sh + 1; uint32_t mk = (sz >= 32 ? ~0u : (1u << sz) - 1) << sh; r[rt] = (B & ~mk) | (A << sh & mk); break; }
                case 0x20:
                    switch (sh) {
                    case 0x02: r[rd] = (B & 0x00ff00ffu) << 8 | (B >> 8 & 0x00ff00ffu); break;
                    case 0x10: r[rd] = (uint32_t)(int8_t)B; break;
                    case 0x18: r[rd] = (uint32_t)(int16_t)B; break;
                    default: bad(w, pc);
                    }
                    break;
                default: bad(w, pc);
                }
                break;
            case 0x20: r[rt] = (uint32_t)(int8_t)*at(A + si, 1); break;
            case 0x21: r[rt] = (uint32_t)(int16_t)be16(at(A + si, 2)); break;
            case 0x22: { uint32_t a = A + si, o = a & 3; uint32_t v = be32(at(a & ~3u, 4)); r[rt] = o ? (v << (8 * o)) | (B & ((1u << (8 * o)) - 1)) : v; break; }
            case 0x23: r[rt] = be32(at(A + si, 4)); break;
            case 0x24: r[rt] = *at(A + si, 1); break;
            case 0x25: r[rt] = be16(at(A + si, 2)); break;
            case 0x26: { uint32_t a = A + si, o = a & 3; uint32_t v = be32(at(a & ~3u, 4)); r[rt] = o == 3 ? v : (v >> (24 - 8 * o)) | (B & ~((1u << (8 * o + 8)) - 1)); break; }
            case 0x28: *at(A + si, 1) = (uint8_t)B; break;
            case 0x29: wbe16(at(A + si, 2), (uint16_t)B); break;
            case 0x2a: { uint32_t a = A + si, o = a & 3; uint8_t *p = at(a, 4 - o); for (unsigned i = 0; i < 4 - o; i++) p[i] = (uint8_t)(B >> (24 - 8 * i)); break; }
            case 0x2b: wbe32(at(A + si, 4), B); break;
            case 0x2e: { uint32_t a = A + si, o = a & 3; uint8_t *p = at(a - o, o + 1); for (unsigned i = 0; i <= o; i++) p[i] = (uint8_t)(B >> (8 * (o - i))); break; }
            case 0x33: break;
            default: bad(w, pc);
            }
            r[0] = 0;
            pc = npc;
            npc = nn;
        }
    }
    [[noreturn]] void bad(uint32_t w, uint32_t pc) {
        fprintf(stderr, "emulator: unknown instruction %08x at %08x\n", w, pc);
        exit(3);
    }
    void reset() { memcpy(m.data(), image.data(), image.size()); steps = 0; used = 0; rcalls = 0; }
};
}

PROP(C22) {
    static std::map<std::string, std::unique_ptr<Machine>> machines;
    std::string elf = c.opt["elf"];
    unsigned size = (unsigned)c.geti("size", 640);
    Gen g = c.opt["gen"] == "aes" ? GEN_AES : GEN_SHAKE;
    const Params &p = params(size);
    auto &mp = machines[elf];
    if (!mp) { mp.reset(new Machine); if (!mp->load(elf)) { fprintf(stderr, "cannot load %s\n", elf.c_str()); exit(3); } }
    Machine &m = *mp;
    m.reset();
    uint32_t a1 = (m.heap_top + 4095) & ~4095u, a2 = a1 + 65536, a3 = a2 + 65536;
    // any placement the caller may choose, kept to the natural alignment of the words inside
    uint32_t o1 = 2 * (uint32_t)s.draw(8), o2 = 2 * (uint32_t)s.draw(8), o3 = 2 * (uint32_t)s.draw(8);
    a1 += o1; a2 += o2; a3 += o3;
    memset(&m.m[a1], 0xEE, 60000); memset(&m.m[a2], 0xEE, 60000); memset(&m.m[a3], 0xEE, 60000);
    std::string sfx = "_Frodo" + std::to_string(size);
    unsigned op = s.weighted({30, 30, 40});
    static const char *ops[] = {"keypair", "enc", "dec"};
    c.add("op=%s", ops[op]);
    c.hit(ops[op]);
    auto get = [&](uint32_t a, size_t n) { return Bytes(m.m.begin() + a, m.m.begin() + a + n); };
    auto put = [&](uint32_t a, const Bytes &b) { memcpy(&m.m[a], b.data(), b.size()); };
    if (op == 0) {
        m.rnd = gen_rnd(s, c, p);
        if (m.call("crypto_kem_keypair" + sfx, {a1, a2})) fail("crypto_kem_keypair fails on the big-endian machine");
        KeyPair k = m_keypair(p, g, m.rnd);
        Bytes pk = get(a1, p.pk()), sk = get(a2, p.sk());
        if (pk != k.pk) fail("big-endian key generation: public key: %s", diffmsg(pk, k.pk).c_str());
        if (sk != k.sk) fail("big-endian key generation: secret key: %s", diffmsg(sk, k.sk).c_str());
    } else if (op == 1) {
        Bytes pk = gen_pk(s, c, p, g);
        m.rnd = gen_bytes(s, p.nss, &c, "mu");
        put(a3, pk);
        if (m.call("crypto_kem_enc" + sfx, {a1, a2, a3})) fail("crypto_kem_enc fails on the big-endian machine");
        EncOut e = m_enc(p, g, pk, m.rnd);
        Bytes ct = get(a1, p.ct()), ss = get(a2, p.nss);
        if (ct != e.ct) fail("big-endian encapsulation: ciphertext: %s", diffmsg(ct, e.ct).c_str());
        if (ss != e.ss) fail("big-endian encapsulation: shared secret: %s", diffmsg(ss, e.ss).c_str());
    } else {
        DecCase d = gen_dec(s, c, p, g);
        c.add("kind=%s", d.kind);
        m.rnd.clear();
        put(a2, d.ct);
        put(a3, d.sk);
        if (m.call("crypto_kem_dec" + sfx, {a1, a2, a3})) fail("crypto_kem_dec fails on the big-endian machine");
        DecOut w = m_dec(p, g, d.sk, d.ct);
        c.hit(std::string("dec/") + (w.accepted ? "accept" : "reject"));
        Bytes ss = get(a1, p.nss);
        if (ss != w.ss) fail("big-endian decapsulation (%s): %s", d.kind, diffmsg(ss, w.ss).c_str());
    }
    c.add("instructions=%lluM", (unsigned long long)(m.steps / 1000000));
}
