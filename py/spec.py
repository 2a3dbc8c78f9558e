"""The FrodoKEM specification (NIST round 3), written with numpy, hashlib and the AES of `cryptography`.
Independent of /repo; matrices are numpy arrays of uint16 (arithmetic modulo 2^16, then modulo q)."""
import hashlib

import numpy as np
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

CHI = {640: (9288, 8720, 7216, 5264, 3384, 1918, 958, 422, 164, 56, 17, 4, 1),
       976: (11278, 10277, 7774, 4882, 2545, 1101, 396, 118, 29, 6, 1),
       1344: (18286, 14320, 6876, 2023, 364, 40, 2)}


class Spec:
    def __init__(self, n, aes):
        self.n, self.aes = n, aes
        self.D = 15 if n == 640 else 16
        self.q = 1 << self.D
        self.B = {640: 2, 976: 3, 1344: 4}[n]
        self.l = self.B * 8                       # bytes of s, seedSE, mu, k, pkh, ss
        self.nb = self.D * n                      # bytes of packed n x 8
        self.npk = 16 + self.nb
        self.nsk = self.l + self.npk + 16 * n + self.l
        self.nct = self.nb + 8 * self.D
        self.variant = f"FrodoKEM-{n}-{'AES' if aes else 'SHAKE'}"
        # error value -> how many of the 2^15 values of t give it, by |value|
        edges, acc = [], 0
        for z, c in enumerate(CHI[n]):
            acc += c // 2 if z == 0 else c
            edges.append(acc)                     # t < edges[z]  <=>  |e| <= z
        assert edges[-1] == 32768
        t = np.arange(32768)
        self.table = np.searchsorted(np.array(edges), t, side="right").astype(np.int32)

    def shake(self, m, k):
        return (hashlib.shake_128 if self.n == 640 else hashlib.shake_256)(m).digest(k)

    def sample(self, r):
        r = np.asarray(r, dtype=np.uint16)
        e = self.table[(r >> 1).astype(np.int64)]
        return np.where(r & 1, -e, e)

    def gen(self, seed):
        n = self.n
        if self.aes:
            blk = np.zeros((n, n // 8, 8), dtype="<u2")
            blk[:, :, 0] = np.arange(n)[:, None]
            blk[:, :, 1] = np.arange(0, n, 8)[None, :]
            e = Cipher(algorithms.AES(bytes(seed)), modes.ECB()).encryptor()
            raw = e.update(blk.tobytes()) + e.finalize()
        else:
            raw = b"".join(hashlib.shake_128(i.to_bytes(2, "little") + bytes(seed)).digest(2 * n) for i in range(n))
        return np.frombuffer(raw, dtype="<u2").reshape(n, n).astype(np.uint16) % np.uint32(self.q)

    def pack(self, m):
        v = np.asarray(m).astype(np.int64).reshape(-1) & (self.q - 1)
        bits = (v[:, None] >> np.arange(self.D - 1, -1, -1)) & 1
        return np.packbits(bits.astype(np.uint8).reshape(-1)).tobytes()

    def unpack(self, b, r, c):
        bits = np.unpackbits(np.frombuffer(bytes(b), dtype=np.uint8))[:r * c * self.D].reshape(-1, self.D)
        return (bits.astype(np.int64) << np.arange(self.D - 1, -1, -1)).sum(axis=1).reshape(r, c)

    def encode(self, mu):
        x = int.from_bytes(mu, "little")
        return np.array([[(x >> ((i * 8 + j) * self.B) & (2 ** self.B - 1)) * (self.q >> self.B) for j in range(8)]
                         for i in range(8)], dtype=np.int64)

    def decode(self, m):
        x = 0
        for i in range(8):
            for j in range(8):
                v = ((int(m[i][j]) % self.q) * 2 ** self.B * 2 + self.q) // (2 * self.q) % 2 ** self.B
                x |= v << ((i * 8 + j) * self.B)
        return x.to_bytes(self.l, "little")

    def mm(self, a, b):
        a, b = np.asarray(a).astype(np.int64) % self.q, np.asarray(b).astype(np.int64) % self.q
        return (a.astype(np.uint64) @ b.astype(np.uint64)).astype(np.int64) % self.q

    def noise(self, tag, seed, count):
        return self.sample(np.frombuffer(self.shake(bytes([tag]) + seed, 2 * count), dtype="<u2"))

    def keypair(self, rnd):
        l, n = self.l, self.n
        s, se, z = rnd[:l], rnd[l:2 * l], rnd[2 * l:2 * l + 16]
        seed = self.shake(z, 16)
        r = self.noise(0x5F, se, 16 * n)
        st, e = r[:8 * n].reshape(8, n), r[8 * n:].reshape(n, 8)
        b = (self.mm(self.gen(seed), st.T) + e) % self.q
        pk = seed + self.pack(b)
        return pk, s + pk + st.astype("<i2").tobytes() + self.shake(pk, l)

    def _inner(self, seed, b, pkh, mu):
        l, n = self.l, self.n
        sk = self.shake(pkh + mu, 2 * l)
        r = self.noise(0x96, sk[:l], 16 * n + 64)
        sp, ep, epp = r[:8 * n].reshape(8, n), r[8 * n:16 * n].reshape(8, n), r[16 * n:].reshape(8, 8)
        bp = (self.mm(sp, self.gen(seed)) + ep) % self.q
        v = (self.mm(sp, self.unpack(b, n, 8)) + epp) % self.q
        return sk[l:], bp, (v + self.encode(mu)) % self.q

    def enc(self, pk, mu):
        k, bp, c = self._inner(pk[:16], pk[16:], self.shake(pk, self.l), mu)
        ct = self.pack(bp) + self.pack(c)
        return ct, self.shake(ct + k, self.l)

    def split(self, sk):
        l = self.l
        o = l + self.npk
        st = np.frombuffer(sk[o:o + 16 * self.n], dtype="<i2").reshape(8, self.n).astype(np.int64)
        return sk[:l], sk[l:l + 16], sk[l + 16:o], st, sk[o + 16 * self.n:]

    def dec(self, sk, ct):
        s, seed, b, st, pkh = self.split(sk)
        bp, c = self.unpack(ct[:self.nb], 8, self.n), self.unpack(ct[self.nb:], 8, 8)
        mu = self.decode((c - self.mm(bp, st.T)) % self.q)
        k, bpp, cp = self._inner(seed, b, pkh, mu)
        ok = bool((bp == bpp).all() and (c == cp).all())
        return self.shake(ct + (k if ok else s), self.l), ok

    def solve(self, bp, want, base):
        """S (n x 8) with bp*S = want mod q, equal to `base` outside eight rows; None if bp is singular modulo 2."""
        q = 1 << 16
        m = [[int(x) for x in row] for row in (np.asarray(bp) % 2)]
        cols, used = [], [False] * 8
        g = np.array(m, dtype=np.uint8)
        for j in range(self.n):
            p = next((i for i in range(8) if not used[i] and g[i, j]), None)
            if p is None:
                continue
            used[p] = True
            cols.append(j)
            for i in range(8):
                if i != p and g[i, j]:
                    g[i] ^= g[p]
            if len(cols) == 8:
                break
        if len(cols) < 8:
            return None
        s = np.array(base, dtype=np.int64).copy()
        s[cols, :] = 0
        rhs = (np.asarray(want).astype(np.int64) - self.mm(bp, s)) % q
        a = [[int(bp[i][j]) % q for j in cols] + [int(x) for x in rhs[i]] for i in range(8)]
        for c in range(8):
            p = next(i for i in range(c, 8) if a[i][c] & 1)
            a[c], a[p] = a[p], a[c]
            inv = pow(a[c][c], -1, q)
            a[c] = [x * inv % q for x in a[c]]
            for i in range(8):
                if i != c and a[i][c]:
                    f = a[i][c]
                    a[i] = [(x - f * y) % q for x, y in zip(a[i], a[c])]
        for k, j in enumerate(cols):
            s[j, :] = a[k][8:]
        assert (self.mm(bp, s) == np.asarray(want) % self.q).all()
        return s
