// Independent reference for GOST 28147-89 (ECB/CFB), GOST 34.311-95, HMAC, PBKDF2 and the DSTU 4145 bit generator.
// Written from the standards (RFC 5830/5831 structure), not from the repository.
#pragma once
#include "common.hpp"

namespace ref {
static const char *DEFAULT_SBOX_HEX =
    "a9d6eb45f13c708280c4967b231f5eadf658eba4c037291d38d96bf025ca4e17"
    "f8e9720dc615b43a28975f0bc1dea36438b564ea2c179fd0123e6db8fac57904";
inline const Bytes &default_sbox() { static Bytes b = unhex(DEFAULT_SBOX_HEX); return b; }

// Packed table: row i (bytes 8i..8i+7, high nibble first) substitutes nibble i (i=0 is the lowest) of the 32-bit word.
struct Gost {
    uint8_t nib[8][16];
    uint32_t t[4][256];
    uint32_t k[8];
    explicit Gost(const Bytes &packed) {
        for (int i = 0; i < 8; i++)
            for (int j = 0; j < 16; j++) {
                uint8_t v = packed[8 * i + j / 2];
                nib[i][j] = (j & 1) ? (v & 15) : (v >> 4);
            }
        for (int b = 0; b < 4; b++)
            for (int v = 0; v < 256; v++) {
                uint32_t y = (uint32_t)(nib[2 * b][v & 15] | nib[2 * b + 1][v >> 4] << 4) << (8 * b);
                t[b][v] = (y << 11) | (y >> 21);
            }
        memset(k, 0, sizeof k);
    }
    void key(const uint8_t *p) { for (int i = 0; i < 8; i++) k[i] = p[4*i] | p[4*i+1] << 8 | p[4*i+2] << 16 | (uint32_t)p[4*i+3] << 24; }
    uint32_t f(uint32_t x) const { return t[0][x & 255] ^ t[1][x >> 8 & 255] ^ t[2][x >> 16 & 255] ^ t[3][x >> 24]; }
    static void ld(const uint8_t *in, uint32_t &a, uint32_t &b) {
        a = in[0] | in[1] << 8 | in[2] << 16 | (uint32_t)in[3] << 24; b = in[4] | in[5] << 8 | in[6] << 16 | (uint32_t)in[7] << 24;
    }
    static void st(uint8_t *o, uint32_t a, uint32_t b) { for (int i = 0; i < 4; i++) { o[i] = a >> (8*i); o[4+i] = b >> (8*i); } }
    void enc(const uint8_t *in, uint8_t *o) const {
        uint32_t a, b; ld(in, a, b);
        for (int r = 0; r < 32; r++) {
            uint32_t kk = r < 24 ? k[r & 7] : k[7 - (r & 7)];
            uint32_t n = b ^ f(a + kk); b = a; a = n;
        }
        st(o, b, a);
    }
    void dec(const uint8_t *in, uint8_t *o) const {
        uint32_t a, b; ld(in, a, b);
        for (int r = 0; r < 32; r++) {
            uint32_t kk = r < 8 ? k[r & 7] : k[7 - (r & 7)];
            uint32_t n = b ^ f(a + kk); b = a; a = n;
        }
        st(o, b, a);
    }
};
inline Bytes cfb(const Bytes &sbox, const Bytes &key, const Bytes &iv, const Bytes &in, bool encrypt) {
    Gost g(sbox); g.key(key.data());
    uint8_t reg[8], gam[8]; memcpy(reg, iv.data(), 8);
    Bytes o(in.size());
    for (size_t i = 0; i < in.size(); i++) {
        if (i % 8 == 0) g.enc(reg, gam);
        o[i] = in[i] ^ gam[i % 8];
        reg[i % 8] = encrypt ? o[i] : in[i];
    }
    return o;
}
inline Bytes ecb(const Bytes &sbox, const Bytes &key, const Bytes &in, bool encrypt) {
    Gost g(sbox); g.key(key.data()); Bytes o(in.size());
    for (size_t i = 0; i + 8 <= in.size(); i += 8) encrypt ? g.enc(&in[i], &o[i]) : g.dec(&in[i], &o[i]);
    return o;
}

struct Hash {
    Gost g; uint8_t H[32], S[32]; uint64_t bits_lo = 0, bits_hi = 0; uint8_t buf[32]; size_t n = 0;
    explicit Hash(const Bytes &sbox) : g(sbox) { memset(H, 0, 32); memset(S, 0, 32); }
    static void A(const uint8_t *y, uint8_t *o) {            // A(y4|y3|y2|y1) = (y1^y2)|y4|y3|y2
        uint8_t t[32]; memcpy(t, y + 8, 24); for (int i = 0; i < 8; i++) t[24 + i] = y[i] ^ y[8 + i]; memcpy(o, t, 32);
    }
    static void P(const uint8_t *y, uint8_t *o) { for (int i = 0; i < 4; i++) for (int k = 0; k < 8; k++) o[i + 4 * k] = y[8 * i + k]; }
    static void psi(uint16_t *w, int times) {                // w[0]=y1 .. w[15]=y16
        while (times--) {
            uint16_t v = w[0] ^ w[1] ^ w[2] ^ w[3] ^ w[12] ^ w[15];
            for (int i = 0; i < 15; i++) w[i] = w[i + 1];
            w[15] = v;
        }
    }
    void step(uint8_t *h, const uint8_t *m) {
        static const uint8_t C3[32] = {0x00,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0x00,
                                       0x00,0xff,0xff,0x00,0xff,0x00,0x00,0xff,0xff,0x00,0x00,0x00,0xff,0xff,0x00,0xff};
        uint8_t U[32], V[32], W[32], K[32], s[32];
        memcpy(U, h, 32); memcpy(V, m, 32);
        for (int j = 0; j < 4; j++) {
            if (j) { A(U, U); if (j == 2) for (int i = 0; i < 32; i++) U[i] ^= C3[i]; A(V, V); A(V, V); }
            for (int i = 0; i < 32; i++) W[i] = U[i] ^ V[i];
            P(W, K); g.key(K); g.enc(h + 8 * j, s + 8 * j);
        }
        uint16_t w[16]; for (int i = 0; i < 16; i++) w[i] = s[2*i] | s[2*i+1] << 8;
        psi(w, 12); for (int i = 0; i < 16; i++) w[i] ^= m[2*i] | m[2*i+1] << 8;
        psi(w, 1);  for (int i = 0; i < 16; i++) w[i] ^= h[2*i] | h[2*i+1] << 8;
        psi(w, 61); for (int i = 0; i < 16; i++) { h[2*i] = w[i] & 255; h[2*i+1] = w[i] >> 8; }
    }
    void block(const uint8_t *m, unsigned nbytes) {
        step(H, m);
        unsigned c = 0; for (int i = 0; i < 32; i++) { c += S[i] + m[i]; S[i] = c & 255; c >>= 8; }
        uint64_t o = bits_lo; bits_lo += 8ull * nbytes; if (bits_lo < o) bits_hi++;
    }
    void update(const uint8_t *p, size_t len) {
        while (len) {
            if (n == 0 && len >= 32) { block(p, 32); p += 32; len -= 32; continue; }
            size_t t = std::min(len, 32 - n); memcpy(buf + n, p, t); n += t; p += t; len -= t;
            if (n == 32) { block(buf, 32); n = 0; }
        }
    }
    Bytes fin() {
        bool empty = n == 0 && bits_lo == 0 && bits_hi == 0;
        if (n || empty) { unsigned k = (unsigned)n; memset(buf + n, 0, 32 - n); block(buf, k); n = 0; }
        uint8_t L[32] = {0}; for (int i = 0; i < 8; i++) { L[i] = bits_lo >> (8*i); L[8+i] = bits_hi >> (8*i); }
        step(H, L); step(H, S);
        return Bytes(H, H + 32);
    }
};
inline Bytes hash(const Bytes &m, const Bytes &sbox = default_sbox()) { Hash h(sbox); h.update(m.data(), m.size()); return h.fin(); }
inline Bytes hash2(const Bytes &a, const Bytes &b) { Hash h(default_sbox()); h.update(a.data(), a.size()); h.update(b.data(), b.size()); return h.fin(); }
inline Bytes hmac(Bytes key, const Bytes &m) {
    if (key.size() > 32) key = hash(key);
    key.resize(32, 0);
    Bytes i(32), o(32); for (int j = 0; j < 32; j++) { i[j] = key[j] ^ 0x36; o[j] = key[j] ^ 0x5c; }
    return hash2(o, hash2(i, m));
}
inline Bytes pbkdf2(const Bytes &pw, const Bytes &salt, int iter, size_t len) {
    Bytes r;
    for (uint32_t blk = 1; r.size() < len; blk++) {
        Bytes s = salt; for (int i = 3; i >= 0; i--) s.push_back(blk >> (8*i));
        Bytes u = hmac(pw, s), t = u;
        for (int i = 1; i < iter; i++) { u = hmac(pw, u); for (int j = 0; j < 32; j++) t[j] ^= u[j]; }
        r.insert(r.end(), t.begin(), t.end());
    }
    r.resize(len); return r;
}
struct Rbg {
    Gost g; uint8_t I[8], s[8];
    Rbg(const uint8_t *seed40, const uint8_t *time8) : g(default_sbox()) { g.key(seed40); memcpy(s, seed40 + 32, 8); g.enc(time8, I); }
    int bit() {
        uint8_t x[8], y[8];
        for (int i = 0; i < 8; i++) x[i] = I[i] ^ s[i];
        g.enc(x, x);
        for (int i = 0; i < 8; i++) y[i] = x[i] ^ I[i];
        g.enc(y, s);
        return x[0] & 1;
    }
    uint8_t byte() { uint8_t b = 0; for (int i = 0; i < 8; i++) b |= bit() << i; return b; }
    Bytes bytes(size_t n) { Bytes b(n); for (auto &v : b) v = byte(); return b; }
};
// Published vectors (GOST R 34.11-94, test parameter set) anchor the reference itself.
inline void self_test() {
    static const uint8_t T[8][16] = {  // rows for nibble 0..7 of the test parameter set
        {4,10,9,2,13,8,0,14,6,11,1,12,7,15,5,3},{14,11,4,12,6,13,15,10,2,3,8,1,0,7,5,9},{5,8,1,13,10,3,4,2,14,15,12,7,6,0,9,11},
        {7,13,10,1,0,8,9,15,14,4,6,12,11,2,5,3},{6,12,7,1,5,15,13,8,4,10,9,14,0,3,11,2},{4,11,10,0,7,2,1,13,3,6,8,5,9,12,15,14},
        {13,11,4,1,3,15,5,9,0,10,14,7,6,8,2,12},{1,15,13,0,5,7,10,4,9,2,3,14,6,11,8,12}};
    Bytes p(64); for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) p[8*i+j] = T[i][2*j] << 4 | T[i][2*j+1];
    auto H = [&](const std::string &s) { return hex(hash(Bytes(s.begin(), s.end()), p)); };
    // (The empty message is taken literally from the standard's step list - one padded zero block - as this
    //  engine and gost-engine do; popular vectors for "" skip that block, so none is used as an anchor here.)
    if (H("abc") != "f3134348c44fb1b2a277729e2285ebb5cb5e0f29c975bc753b70497c06a4d51d" ||
        H("This is message, length=32 bytes") != "b1c466d37519b82e8319819ff32595e047a28cb6f83eff1c6916a815a637fffa")
        harness_error("reference hash self-test failed: " + H("abc") + " " + H("This is message, length=32 bytes"));
    // E_k then D_k is the identity
    Rng g(7); Bytes k = g.bytes(32), d = g.bytes(64); if (ecb(p, k, ecb(p, k, d, true), false) != d) harness_error("reference cipher self-test failed");
}
// a table that agrees with t except in a few bytes somewhere
inline Bytes near_sbox(Rng &g, Bytes t) {
    size_t from = g.below(64), n = g.range(1, 8);
    for (size_t i = 0; i < n && from + i < 64; i++) t[from + i] ^= (uint8_t)g.range(1, 255);
    return t;
}
inline Bytes random_sbox(Rng &g);
// tables set one after the other: fresh ones and near copies of the previous one, handed over in one reused buffer or in a fresh one
struct TableFeed {
    Bytes prev, buf = Bytes(64), tmp;
    Bytes next(Rng &g) { prev = !prev.empty() && g.chance(1, 2) ? near_sbox(g, prev) : random_sbox(g); return prev; }
    uint8_t *pass(Rng &g, const Bytes &t) { if (g.chance(2, 3)) { buf = t; return buf.data(); } tmp = t; return tmp.data(); }
    void scribble() { std::fill(tmp.begin(), tmp.end(), 0xaa); }     // the caller may reuse its buffer at once
};
inline Bytes random_sbox(Rng &g) {
    Bytes p(64);
    switch (g.below(5)) {
    case 0: return g.bytes(64);                                   // arbitrary nibbles
    case 1: { p = default_sbox(); p[g.below(64)] ^= 1 << g.below(8); return p; }   // one nibble bit off the default
    case 2: { // distinct rows, each a rotation of identity
        for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) p[8*i+j] = ((2*j+i) & 15) << 4 | ((2*j+1+i) & 15);
        return p; }
    default: // real permutations
        for (int i = 0; i < 8; i++) {
            uint8_t a[16]; for (int j = 0; j < 16; j++) a[j] = j;
            for (int j = 15; j > 0; j--) std::swap(a[j], a[g.below(j + 1)]);
            for (int j = 0; j < 8; j++) p[8*i+j] = a[2*j] << 4 | a[2*j+1];
        }
        return p;
    }
}
}  // namespace ref
