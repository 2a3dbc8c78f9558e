// Independent model of the FrodoKEM specification, on OpenSSL's SHAKE and AES.
#pragma once
#include "engine.hpp"

struct Params {
    unsigned n, D, B, nss, shake;  // nss: bytes of s, seedSE, mu, k, pkh, ss
    std::vector<uint16_t> chi;     // error distribution of the specification (Table 3), multiples of 2^-16
    unsigned q() const { return 1u << D; }
    uint16_t mask() const { return (uint16_t)((1u << D) - 1); }
    size_t pk() const { return 16 + (size_t)D * n; }
    size_t c1() const { return (size_t)D * n; }
    size_t ct() const { return (size_t)D * n + 8 * D; }
    size_t sk() const { return nss + pk() + 16 * (size_t)n + nss; }
    size_t off_S() const { return nss + pk(); }
    size_t off_pkh() const { return nss + pk() + 16 * (size_t)n; }
    size_t kgrand() const { return 2 * nss + 16; }
};
const Params &params(unsigned size);
enum Gen { GEN_AES, GEN_SHAKE };

void m_shake(unsigned bits, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
static inline Bytes m_shake(unsigned bits, const Bytes &in, size_t outlen) {
    Bytes o(outlen);
    m_shake(bits, o.data(), outlen, in.data(), in.size());
    return o;
}
void m_aes_ecb(unsigned bits, const uint8_t *key, const uint8_t *in, uint8_t *out, size_t len);

const Vec16 &m_genA(const Params &p, Gen g, const uint8_t *seedA);  // cached per thread
uint16_t m_sample(const Params &p, uint16_t r);
Bytes m_pack(const uint16_t *v, size_t n, unsigned D);
Vec16 m_unpack(const uint8_t *b, size_t n, unsigned D);
void m_pack_general(uint8_t *out, size_t outlen, const uint16_t *in, size_t inlen, unsigned lsb);
void m_unpack_general(uint16_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned lsb);
Vec16 m_encode(const Params &p, const Bytes &mu);
Bytes m_decode(const Params &p, const Vec16 &m);
Vec16 m_AS(const Params &p, const Vec16 &A, const uint16_t *ST, const uint16_t *E);    // n x 8
Vec16 m_SA(const Params &p, const Vec16 &A, const uint16_t *S, const uint16_t *E);     // 8 x n
Vec16 m_SB(const Params &p, const uint16_t *S, const uint16_t *B, const uint16_t *E);  // 8 x 8
Vec16 m_BS(const Params &p, const uint16_t *Bp, const uint16_t *ST);                   // 8 x 8
Vec16 m_le16(const Bytes &b);

struct KeyPair { Bytes pk, sk; Vec16 ST, E; };
struct EncOut { Bytes ct, ss, k, seedSE; Vec16 Sp, Ep, Epp, V, Bp, C; };
KeyPair m_keypair(const Params &p, Gen g, const Bytes &rnd);
EncOut m_encrypt(const Params &p, Gen g, const uint8_t *seedA, const uint8_t *b, const uint8_t *pkh, const Bytes &mu);
EncOut m_enc(const Params &p, Gen g, const Bytes &pk, const Bytes &mu);
struct DecOut { Bytes ss; bool accepted; Bytes mu, k; };
DecOut m_dec(const Params &p, Gen g, const Bytes &sk, const Bytes &ct);
Bytes m_reject(const Params &p, const Bytes &sk, const Bytes &ct);  // SHAKE(ct || s)
Bytes le16_bytes(const uint16_t *v, size_t n);

// Solve for S (as S^T, 8 x n) with B' S = T (mod q): random outside eight pivot columns. False if B' has no odd minor.
bool m_solve_S(const Params &p, const Vec16 &Bp, const Vec16 &T, Vec16 &ST, Rng &r);
