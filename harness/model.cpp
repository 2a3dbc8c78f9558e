#include "model.hpp"
#include <list>
#include <mutex>
#include <openssl/evp.h>

const Params &params(unsigned size) {
    static const Params p640{640, 15, 2, 16, 128, {9288, 8720, 7216, 5264, 3384, 1918, 958, 422, 164, 56, 17, 4, 1}};
    static const Params p976{976, 16, 3, 24, 256, {11278, 10277, 7774, 4882, 2545, 1101, 396, 118, 29, 6, 1}};
    static const Params p1344{1344, 16, 4, 32, 256, {18286, 14320, 6876, 2023, 364, 40, 2}};
    if (size == 640) return p640;
    if (size == 976) return p976;
    if (size == 1344) return p1344;
    fprintf(stderr, "bad size %u\n", size);
    abort();
}

void m_shake(unsigned bits, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen) {
    static EVP_MD *m128 = EVP_MD_fetch(nullptr, "SHAKE128", nullptr), *m256 = EVP_MD_fetch(nullptr, "SHAKE256", nullptr);
    thread_local EVP_MD_CTX *c = EVP_MD_CTX_new();
    if (!EVP_DigestInit_ex2(c, bits == 128 ? m128 : m256, nullptr)) abort();
    if (!EVP_DigestUpdate(c, in, inlen)) abort();
    uint8_t dummy;
    if (outlen && !EVP_DigestFinalXOF(c, out, outlen)) abort();
    if (!outlen) (void)dummy;
}

void m_aes_ecb(unsigned bits, const uint8_t *key, const uint8_t *in, uint8_t *out, size_t len) {
    static EVP_CIPHER *c128 = EVP_CIPHER_fetch(nullptr, "AES-128-ECB", nullptr), *c256 = EVP_CIPHER_fetch(nullptr, "AES-256-ECB", nullptr);
    thread_local EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    int l = 0;
    if (!EVP_EncryptInit_ex2(c, bits == 128 ? c128 : c256, key, nullptr, nullptr)) abort();
    EVP_CIPHER_CTX_set_padding(c, 0);
    if (len && !EVP_EncryptUpdate(c, out, &l, in, (int)len)) abort();
}

Vec16 m_le16(const Bytes &b) {
    Vec16 v(b.size() / 2);
    for (size_t i = 0; i < v.size(); i++) v[i] = (uint16_t)(b[2 * i] | (b[2 * i + 1] << 8));
    return v;
}
Bytes le16_bytes(const uint16_t *v, size_t n) {
    Bytes b(2 * n);
    for (size_t i = 0; i < n; i++) { b[2 * i] = (uint8_t)v[i]; b[2 * i + 1] = (uint8_t)(v[i] >> 8); }
    return b;
}

const Vec16 &m_genA(const Params &p, Gen g, const uint8_t *seedA) {
    struct Ent { unsigned n; Gen g; Bytes seed; Vec16 A; };
    thread_local std::list<Ent> cache;
    for (auto it = cache.begin(); it != cache.end(); ++it)
        if (it->n == p.n && it->g == g && !memcmp(it->seed.data(), seedA, 16)) {
            cache.splice(cache.begin(), cache, it);
            return cache.front().A;
        }
    Ent e{p.n, g, Bytes(seedA, seedA + 16), {}};
    size_t n = p.n;
    Bytes raw(2 * n * n, 0);
    if (g == GEN_AES) {
        Bytes pt(2 * n * n, 0);
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j += 8) {
                uint8_t *b = &pt[2 * (i * n + j)];
                b[0] = (uint8_t)i; b[1] = (uint8_t)(i >> 8);
                b[2] = (uint8_t)j; b[3] = (uint8_t)(j >> 8);
            }
        m_aes_ecb(128, seedA, pt.data(), raw.data(), pt.size());
    } else {
        uint8_t in[18];
        memcpy(in + 2, seedA, 16);
        for (size_t i = 0; i < n; i++) {
            in[0] = (uint8_t)i; in[1] = (uint8_t)(i >> 8);
            m_shake(128, &raw[2 * n * i], 2 * n, in, 18);
        }
    }
    e.A = m_le16(raw);
    cache.push_front(std::move(e));
    if (cache.size() > 4) cache.pop_back();
    return cache.front().A;
}

uint16_t m_sample(const Params &p, uint16_t r) {
    unsigned t = r >> 1, e = 0;
    unsigned T = p.chi[0] / 2 - 1;
    for (size_t z = 0; z + 1 < p.chi.size(); z++) {
        if (t > T) e++;
        T += p.chi[z + 1];
    }
    return (r & 1) ? (uint16_t)(0u - e) : (uint16_t)e;
}

// Whole vectors; the *_general forms below work bit by bit (C18 compares the code under test with those).
static const uint16_t *sample_table(const Params &p) {
    static std::vector<uint16_t> t[3];
    static std::once_flag once[3];
    unsigned k = p.n == 640 ? 0 : p.n == 976 ? 1 : 2;
    std::call_once(once[k], [&] { t[k].resize(65536); for (unsigned r = 0; r < 65536; r++) t[k][r] = m_sample(p, (uint16_t)r); });
    return t[k].data();
}
static void sample_all(const Params &p, Vec16 &r) {
    const uint16_t *t = sample_table(p);
    for (auto &x : r) x = t[x];
}

Bytes m_pack(const uint16_t *v, size_t n, unsigned D) {
    Bytes o((n * D + 7) / 8, 0);
    uint64_t acc = 0;
    unsigned have = 0;
    size_t k = 0;
    for (size_t i = 0; i < n; i++) {
        acc = acc << D | (v[i] & ((1u << D) - 1));
        for (have += D; have >= 8; have -= 8) o[k++] = (uint8_t)(acc >> (have - 8));
    }
    if (have) o[k] = (uint8_t)(acc << (8 - have));
    return o;
}
void m_pack_general(uint8_t *out, size_t outlen, const uint16_t *in, size_t inlen, unsigned lsb) {
    memset(out, 0, outlen);
    size_t bit = 0;
    for (size_t i = 0; i < inlen; i++)
        for (int l = (int)lsb - 1; l >= 0; l--, bit++) {
            if (bit / 8 >= outlen) return;
            if ((in[i] >> l) & 1) out[bit / 8] |= (uint8_t)(0x80 >> (bit % 8));
        }
}
Vec16 m_unpack(const uint8_t *b, size_t n, unsigned D) {
    Vec16 o(n);
    uint64_t acc = 0;
    unsigned have = 0;
    for (size_t i = 0; i < n; i++) {
        for (; have < D; have += 8) acc = acc << 8 | *b++;
        have -= D;
        o[i] = (uint16_t)(acc >> have) & (uint16_t)((1u << D) - 1);
    }
    return o;
}
void m_unpack_general(uint16_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned lsb) {
    size_t bit = 0;
    for (size_t i = 0; i < outlen; i++) {
        unsigned v = 0;
        for (unsigned l = 0; l < lsb; l++, bit++) {
            v <<= 1;
            if (bit / 8 < inlen) v |= (in[bit / 8] >> (7 - bit % 8)) & 1;
        }
        out[i] = (uint16_t)v;
    }
}

Vec16 m_encode(const Params &p, const Bytes &mu) {
    Vec16 K(64);
    for (unsigned i = 0; i < 64; i++) {
        unsigned t = 0;
        for (unsigned l = 0; l < p.B; l++) {
            unsigned b = i * p.B + l;
            t |= ((mu[b / 8] >> (b % 8)) & 1u) << l;
        }
        K[i] = (uint16_t)(t * (p.q() >> p.B));
    }
    return K;
}
Bytes m_decode(const Params &p, const Vec16 &m) {
    Bytes mu(8 * p.B, 0);
    for (unsigned i = 0; i < 64; i++) {
        unsigned x = m[i] & p.mask();
        unsigned t = ((x * 2u * (1u << p.B) + p.q()) / (2u * p.q())) % (1u << p.B);  // floor(x*2^B/q + 1/2)
        for (unsigned l = 0; l < p.B; l++) {
            unsigned b = i * p.B + l;
            if ((t >> l) & 1) mu[b / 8] |= (uint8_t)(1u << (b % 8));
        }
    }
    return mu;
}

Vec16 m_AS(const Params &p, const Vec16 &A, const uint16_t *ST, const uint16_t *E) {
    size_t n = p.n;
    Vec16 out(n * 8);
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < 8; k++) {
            uint16_t acc = 0;
            const uint16_t *a = &A[i * n], *s = &ST[k * n];
            for (size_t j = 0; j < n; j++) acc = (uint16_t)(acc + (uint32_t)a[j] * s[j]);
            out[i * 8 + k] = (uint16_t)(acc + E[i * 8 + k]) & p.mask();
        }
    return out;
}
Vec16 m_SA(const Params &p, const Vec16 &A, const uint16_t *S, const uint16_t *E) {
    size_t n = p.n;
    Vec16 out(E, E + 8 * n);
    for (size_t j = 0; j < n; j++)
        for (size_t k = 0; k < 8; k++) {
            uint16_t s = S[k * n + j];
            const uint16_t *a = &A[j * n];
            uint16_t *o = &out[k * n];
            for (size_t i = 0; i < n; i++) o[i] = (uint16_t)(o[i] + (uint32_t)a[i] * s);
        }
    for (auto &x : out) x &= p.mask();
    return out;
}
Vec16 m_SB(const Params &p, const uint16_t *S, const uint16_t *B, const uint16_t *E) {
    Vec16 out(64);
    for (unsigned k = 0; k < 8; k++)
        for (unsigned i = 0; i < 8; i++) {
            uint32_t acc = E[k * 8 + i];
            for (size_t j = 0; j < p.n; j++) acc += (uint32_t)S[k * p.n + j] * B[j * 8 + i];
            out[k * 8 + i] = (uint16_t)acc & p.mask();
        }
    return out;
}
Vec16 m_BS(const Params &p, const uint16_t *Bp, const uint16_t *ST) {
    Vec16 out(64);
    for (unsigned i = 0; i < 8; i++)
        for (unsigned j = 0; j < 8; j++) {
            uint32_t acc = 0;
            for (size_t k = 0; k < p.n; k++) acc += (uint32_t)Bp[i * p.n + k] * ST[j * p.n + k];
            out[i * 8 + j] = (uint16_t)acc & p.mask();
        }
    return out;
}

KeyPair m_keypair(const Params &p, Gen g, const Bytes &rnd) {
    KeyPair kp;
    Bytes seedA(16);
    m_shake(p.shake, seedA.data(), 16, &rnd[2 * p.nss], 16);
    Bytes in(1, 0x5f);
    in.insert(in.end(), rnd.begin() + p.nss, rnd.begin() + 2 * p.nss);
    Vec16 r = m_le16(m_shake(p.shake, in, 2 * 2 * 8 * (size_t)p.n));
    sample_all(p, r);
    kp.ST.assign(r.begin(), r.begin() + 8 * p.n);
    kp.E.assign(r.begin() + 8 * p.n, r.end());
    Vec16 B = m_AS(p, m_genA(p, g, seedA.data()), kp.ST.data(), kp.E.data());
    kp.pk = seedA;
    Bytes b = m_pack(B.data(), B.size(), p.D);
    kp.pk.insert(kp.pk.end(), b.begin(), b.end());
    kp.sk.assign(rnd.begin(), rnd.begin() + p.nss);
    kp.sk.insert(kp.sk.end(), kp.pk.begin(), kp.pk.end());
    Bytes sb = le16_bytes(kp.ST.data(), kp.ST.size());
    kp.sk.insert(kp.sk.end(), sb.begin(), sb.end());
    Bytes pkh = m_shake(p.shake, kp.pk, p.nss);
    kp.sk.insert(kp.sk.end(), pkh.begin(), pkh.end());
    return kp;
}

EncOut m_encrypt(const Params &p, Gen g, const uint8_t *seedA, const uint8_t *b, const uint8_t *pkh, const Bytes &mu) {
    EncOut o;
    Bytes in(pkh, pkh + p.nss);
    in.insert(in.end(), mu.begin(), mu.end());
    Bytes g2 = m_shake(p.shake, in, 2 * p.nss);
    o.seedSE.assign(g2.begin(), g2.begin() + p.nss);
    o.k.assign(g2.begin() + p.nss, g2.end());
    Bytes in2(1, 0x96);
    in2.insert(in2.end(), o.seedSE.begin(), o.seedSE.end());
    size_t n8 = 8 * (size_t)p.n;
    Vec16 r = m_le16(m_shake(p.shake, in2, 2 * (2 * n8 + 64)));
    sample_all(p, r);
    o.Sp.assign(r.begin(), r.begin() + n8);
    o.Ep.assign(r.begin() + n8, r.begin() + 2 * n8);
    o.Epp.assign(r.begin() + 2 * n8, r.end());
    o.Bp = m_SA(p, m_genA(p, g, seedA), o.Sp.data(), o.Ep.data());
    Vec16 B = m_unpack(b, n8, p.D);
    o.V = m_SB(p, o.Sp.data(), B.data(), o.Epp.data());
    Vec16 enc = m_encode(p, mu);
    o.C.resize(64);
    for (int i = 0; i < 64; i++) o.C[i] = (uint16_t)(o.V[i] + enc[i]) & p.mask();
    o.ct = m_pack(o.Bp.data(), n8, p.D);
    Bytes c2 = m_pack(o.C.data(), 64, p.D);
    o.ct.insert(o.ct.end(), c2.begin(), c2.end());
    Bytes f = o.ct;
    f.insert(f.end(), o.k.begin(), o.k.end());
    o.ss = m_shake(p.shake, f, p.nss);
    return o;
}
EncOut m_enc(const Params &p, Gen g, const Bytes &pk, const Bytes &mu) {
    Bytes pkh = m_shake(p.shake, pk, p.nss);
    return m_encrypt(p, g, pk.data(), pk.data() + 16, pkh.data(), mu);
}
Bytes m_reject(const Params &p, const Bytes &sk, const Bytes &ct) {
    Bytes f = ct;
    f.insert(f.end(), sk.begin(), sk.begin() + p.nss);
    return m_shake(p.shake, f, p.nss);
}
DecOut m_dec(const Params &p, Gen g, const Bytes &sk, const Bytes &ct) {
    DecOut o;
    size_t n8 = 8 * (size_t)p.n;
    Vec16 ST = m_le16(Bytes(sk.begin() + p.off_S(), sk.begin() + p.off_pkh()));
    Vec16 Bp = m_unpack(ct.data(), n8, p.D);
    Vec16 C = m_unpack(ct.data() + p.c1(), 64, p.D);
    Vec16 W = m_BS(p, Bp.data(), ST.data());
    Vec16 M(64);
    for (int i = 0; i < 64; i++) M[i] = (uint16_t)(C[i] - W[i]) & p.mask();
    o.mu = m_decode(p, M);
    EncOut e = m_encrypt(p, g, &sk[p.nss], &sk[p.nss + 16], &sk[p.off_pkh()], o.mu);
    o.accepted = e.ct == ct;
    o.k = e.k;
    o.ss = o.accepted ? e.ss : m_reject(p, sk, ct);
    return o;
}

bool m_solve_S(const Params &p, const Vec16 &Bp, const Vec16 &T, Vec16 &ST, Rng &r) {
    size_t n = p.n;
    const uint16_t mask = p.mask();
    // choose 8 pivot columns by Gaussian elimination mod 2 over randomly ordered columns
    std::vector<size_t> order(n);
    for (size_t i = 0; i < n; i++) order[i] = i;
    for (size_t i = n - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
    std::vector<size_t> piv;
    std::vector<uint8_t> basis(8, 0);  // reduced column vectors by leading bit
    for (size_t c : order) {
        uint8_t v = 0;
        for (int i = 0; i < 8; i++) v |= (uint8_t)((Bp[i * n + c] & 1) << i);
        for (int b = 7; b >= 0 && v; b--)
            if ((v >> b) & 1) {
                if (!basis[b]) { basis[b] = v; piv.push_back(c); break; }
                v ^= basis[b];
            }
        if (piv.size() == 8) break;
    }
    if (piv.size() < 8) return false;
    for (size_t c : piv)
        for (int j = 0; j < 8; j++) ST[j * n + c] = 0;
    Vec16 W = m_BS(p, Bp.data(), ST.data());
    uint16_t M[8][16];
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < 8; j++) {
            M[i][j] = Bp[i * n + piv[j]] & mask;
            M[i][8 + j] = (uint16_t)(T[i * 8 + j] - W[i * 8 + j]) & mask;
        }
    for (int c = 0; c < 8; c++) {
        int pr = -1;
        for (int i = c; i < 8; i++)
            if (M[i][c] & 1) { pr = i; break; }
        if (pr < 0) return false;
        for (int j = 0; j < 16; j++) std::swap(M[c][j], M[pr][j]);
        uint32_t inv = 1;
        for (int k = 0; k < 5; k++) inv = inv * (2 - M[c][c] * inv);
        for (int j = 0; j < 16; j++) M[c][j] = (uint16_t)(M[c][j] * inv) & mask;
        for (int i = 0; i < 8; i++)
            if (i != c && M[i][c]) {
                uint32_t f = M[i][c];
                for (int j = 0; j < 16; j++) M[i][j] = (uint16_t)(M[i][j] - f * M[c][j]) & mask;
            }
    }
    for (int c = 0; c < 8; c++)
        for (int j = 0; j < 8; j++) {
            uint16_t v = M[c][8 + j];
            if (p.D == 15 && r.below(2)) v |= 0x8000;  // the top bit of an entry of S is irrelevant mod q
            ST[j * n + piv[c]] = v;
        }
    return true;
}
