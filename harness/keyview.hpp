// What a key object holds, observed through the public API only (encodings and the printed form).
#pragma once
#include "refec.hpp"

inline Bytes from_bio(BIO *b) { char *p; long n = BIO_get_mem_data(b, &p); return Bytes(p, p + n); }
// affine public point from EVP_PKEY_print_public (uncompressed 04||x||y hex dump)
inline bool printed_point(EVP_PKEY *k, const ref::Curve &c, ref::Pt &P, std::string *text = nullptr) {
    BIO *b = BIO_new(BIO_s_mem()); int ok = EVP_PKEY_print_public(b, k, 0, nullptr); Bytes t = from_bio(b); BIO_free(b);
    std::string s(t.begin(), t.end()); if (text) *text = s; if (ok != 1) return false;
    size_t p = s.find("pub:"); if (p == std::string::npos) return false; p += 4;
    std::string hx; for (; p < s.size(); p++) { char ch = s[p]; if (isxdigit((unsigned char)ch)) { if (!(isxdigit((unsigned char)s[p + 1]))) break; hx += ch; hx += s[++p]; } else if (ch == ':' || ch == ' ' || ch == '\n') continue; else break; }
    Bytes v = unhex(hx); size_t f = c.fs(); if (v.size() < 1 + 2 * f || v[0] != 4) return false;
    P.inf = false; P.x = ref::Bn::be(Bytes(v.begin() + 1, v.begin() + 1 + f)); P.y = ref::Bn::be(Bytes(v.begin() + 1 + f, v.begin() + 1 + 2 * f)); return true;
}
inline bool private_value(EVP_PKEY *k, ref::Bn &d) {
    PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(k); if (!i) return false; const uint8_t *p; int n; bool ok = PKCS8_pkey_get0(nullptr, &p, &n, nullptr, i) == 1;
    if (ok) d = ref::Bn::le(Bytes(p, p + n)); PKCS8_PRIV_KEY_INFO_free(i); return ok;
}
inline Bytes key_params(EVP_PKEY *k) { uint8_t *p = nullptr; int n = i2d_KeyParams(k, &p); Bytes r; if (n > 0) r.assign(p, p + n); OPENSSL_free(p); return r; }
