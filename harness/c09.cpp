// C09: encode/decode. Oracle: independent DER writer for the DSTU 4145 formats (refec.hpp) and a component-wise notion of equality.
#include "keyview.hpp"
#include <openssl/pem.h>

struct KeySpec { ref::Curve *c; ref::Bn d; bool le; Bytes sb; };
static bool quirk(const ref::Curve &c, const ref::Pt &W) { return !W.inf && BN_is_one((const BIGNUM *)W.x) && ref::Bn::be(ref::compress(c, W)).zero(); }
static void expect_key(EVP_PKEY *k, const KeySpec &s, const ref::Pt &Q, bool priv, const char *how) {
    Bytes ws = ref::spki_der(*s.c, Q, s.le, &s.sb), es = ref::enc_spki(k), wp = ref::params_der(*s.c, s.le, &s.sb), ep = key_params(k);
    if (EVP_PKEY_id(k) != (s.le ? NID_dstu4145le : NID_dstu4145be)) viol(std::string("C09/type:") + how, "key type changed");
    if (!quirk(*s.c, Q)) CHECK(es == ws, std::string("C09/spki:") + how, "SubjectPublicKeyInfo %s expected %s", shorthex(es, 500).c_str(), shorthex(ws, 500).c_str());
    CHECK(ep == wp, std::string("C09/params:") + how, "parameters %s expected %s", shorthex(ep, 400).c_str(), shorthex(wp, 400).c_str());
    if (priv) { Bytes w = ref::pkcs8_der(*s.c, s.d, s.le, &s.sb), e = ref::enc_pkcs8(k); CHECK(e == w, std::string("C09/pkcs8:") + how, "PKCS#8 %s expected %s", shorthex(e, 500).c_str(), shorthex(w, 500).c_str()); }
    ref::Pt P; if (!printed_point(k, *s.c, P) || !(P == Q)) viol(std::string("C09/point:") + how, "public point differs");
    stat("keys_compared");
}
static void one(long ci, Rng &g) {
    KeySpec s; s.c = ref::any_curve(g); s.d = ref::rand_scalar(g, s.c->n); s.le = g.chance(1, 2); s.sb = g.chance(1, 2) ? ref::default_sbox() : ref::random_sbox(g);
    if (g.chance(1, 8)) { s.sb = ref::default_sbox(); s.sb[g.below(64)] ^= 1 << g.below(8); }    // tables one bit away from the default
    trand().reset(g.next()); bool fc = g.chance(1, 3); ref::Pt Q = ref::pub_of(*s.c, s.d);
    desc(fmt("curve=%s %s d=%s sbox=%s%s", s.c->name.c_str(), s.le ? "le" : "be", s.d.str().c_str(), s.sb == ref::default_sbox() ? "default" : hex(s.sb).c_str(), fc ? " explicit" : ""));
    // from the independent encoder
    Bytes e8 = ref::pkcs8_der(*s.c, s.d, s.le, &s.sb, fc); PKey k(ref::decode_pkcs8(e8));
    if (!k) { viol("C09/refused:pkcs8", "independent PKCS#8 encoding refused: " + shorthex(e8, 400)); return; }
    expect_key(k.get(), s, Q, true, "pkcs8");
    bool qk = quirk(*s.c, Q); PKey pub;
    if (!qk) {
        Bytes es = ref::spki_der(*s.c, Q, s.le, &s.sb, fc); pub.reset(ref::decode_spki(es));
        if (!pub) { viol("C09/refused:spki", "independent SubjectPublicKeyInfo refused: " + shorthex(es, 400)); return; }
        expect_key(pub.get(), s, Q, false, "spki");
        int r = EVP_PKEY_eq(k.get(), pub.get()), r2 = EVP_PKEY_eq(pub.get(), k.get()), r3 = EVP_PKEY_parameters_eq(k.get(), pub.get());
        CHECK(r == 1 && r2 == 1 && r3 == 1, "C09/equal", "private and public half of one key compare %d %d, parameters %d", r, r2, r3);
    }
    // variants of the encoding that mean the same
    { Bytes prv = s.d.minle(); size_t pad = g.below(20); prv.resize(prv.size() + pad, 0); Bytes params = s.sb == ref::default_sbox() && g.chance(1, 2) ? ref::seq({s.c->nid && !fc ? ref::oid(ref::curve_oid(s.c->nid - NID_uacurve0)) : ref::custom_spec(*s.c, s.le), ref::octet(s.sb)}) : ref::params_der(*s.c, s.le, &s.sb, fc);
      Bytes attrs = g.chance(1, 3) ? ref::der(0xa0, ref::seq({ref::oid("1.2.3.4"), ref::der(0x31, ref::integer(ref::Bn(5)))})) : Bytes();
      Bytes v = ref::seq({ref::integer(ref::Bn(0ul)), ref::seq({ref::oid(s.le ? ref::OID_LE : ref::OID_BE), params}), ref::octet(prv), attrs});
      PKey kv(ref::decode_pkcs8(v)); if (!kv) viol("C09/refused:variant", "equivalent PKCS#8 encoding refused: " + shorthex(v, 400)); else { if (attrs.empty()) expect_key(kv.get(), s, Q, true, "variant"); CHECK(EVP_PKEY_eq(k.get(), kv.get()) == 1, "C09/equal", "equivalent encodings compare unequal"); } }
    // all public encoders and decoders
    switch (g.below(6)) {
    case 0: { BIO *b = BIO_new(BIO_s_mem()); if (PEM_write_bio_PKCS8PrivateKey(b, k.get(), nullptr, nullptr, 0, nullptr, nullptr) != 1) viol("C09/pem", "PEM write failed"); PKey r(PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr)); BIO_free(b); if (!r) viol("C09/pem", "PEM private key not readable"); else expect_key(r.get(), s, Q, true, "pem"); break; }
    case 1: { if (qk) break; BIO *b = BIO_new(BIO_s_mem()); if (PEM_write_bio_PUBKEY(b, k.get()) != 1) viol("C09/pem", "PEM write failed"); PKey r(PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr)); BIO_free(b); if (!r) viol("C09/pem", "PEM public key not readable"); else { expect_key(r.get(), s, Q, false, "pempub"); CHECK(EVP_PKEY_eq(r.get(), k.get()) == 1, "C09/equal", "PEM public key differs"); } break; }
    case 2: { BIO *b = BIO_new(BIO_s_mem()); if (i2d_PKCS8PrivateKey_bio(b, k.get(), nullptr, nullptr, 0, nullptr, nullptr) != 1) { viol("C09/d2i", "i2d_PKCS8PrivateKey failed"); BIO_free(b); break; } Bytes x = from_bio(b); BIO_free(b); const uint8_t *q = x.data(); PKey r(d2i_AutoPrivateKey(nullptr, &q, (long)x.size())); if (!r) viol("C09/d2i", "d2i_AutoPrivateKey failed"); else expect_key(r.get(), s, Q, true, "auto"); break; }
    case 3: { uint8_t *p = nullptr; int n = i2d_PrivateKey(k.get(), &p); if (n <= 0) { viol("C09/d2i", "i2d_PrivateKey failed"); break; } Bytes x(p, p + n); OPENSSL_free(p); const uint8_t *q = x.data(); PKey r(d2i_PrivateKey(EVP_PKEY_id(k.get()), nullptr, &q, n)); if (!r) viol("C09/d2i", "d2i_PrivateKey failed"); else expect_key(r.get(), s, Q, true, "i2d_PrivateKey"); break; }
    case 4: { Bytes p = ref::params_der(*s.c, s.le, &s.sb, fc); const uint8_t *q = p.data(); PKey r(d2i_KeyParams(EVP_PKEY_id(k.get()), nullptr, &q, (long)p.size())); if (!r) { viol("C09/refused:params", "parameters refused: " + shorthex(p, 300)); break; }
        CHECK(key_params(r.get()) == ref::params_der(*s.c, s.le, &s.sb), "C09/params:keyparams", "parameters changed"); CHECK(EVP_PKEY_parameters_eq(r.get(), k.get()) == 1, "C09/equal", "parameters compare unequal"); CHECK(EVP_PKEY_eq(r.get(), k.get()) != 1, "C09/unequal", "parameters without a key compare equal to a key"); break; }
    case 5: { X509_PUBKEY *x = nullptr; if (qk) break; if (X509_PUBKEY_set(&x, k.get()) != 1) viol("C09/x509pubkey", "X509_PUBKEY_set failed"); else { EVP_PKEY *r = X509_PUBKEY_get0(x); if (!r) viol("C09/x509pubkey", "no key"); else expect_key(r, s, Q, false, "x509pubkey"); } X509_PUBKEY_free(x); break; }
    }
    // keys that differ in one component
    for (int i = 0; i < 3; i++) {
        KeySpec t = s; const char *what = ""; bool psame = false;
        switch (g.below(7)) {
        case 0: what = "private value"; psame = true; BN_add_word(t.d, 1 + (i == 2 ? g.below(1000) : 0)); if (!(t.d < t.c->n)) t.d = ref::Bn(1); if (t.d == s.d) continue; break;
        case 1: what = "negated key"; psame = true; BN_sub(t.d, s.c->n, s.d); if (t.d == s.d) continue; break;
        case 2: what = "table bit"; t.sb[g.below(64)] ^= 1 << g.below(8); break;
        case 3: what = "table"; t.sb = ref::random_sbox(g); if (t.sb == s.sb) continue; break;
        case 4: what = "default table"; if (s.sb == ref::default_sbox()) t.sb = ref::random_sbox(g); else t.sb = ref::default_sbox(); if (t.sb == s.sb) continue; break;
        case 5: { what = "curve"; t.c = ref::any_curve(g); if (t.c == s.c || !(t.d < t.c->n)) continue; break; }
        case 6: what = "byte order"; t.le = !s.le; break;
        }
        ref::Pt Q2 = ref::pub_of(*t.c, t.d); if (quirk(*t.c, Q2)) continue;
        PKey a(ref::decode_priv(*t.c, t.d, t.le, &t.sb)), b(ref::decode_pub(*t.c, Q2, t.le, &t.sb)); if (!a || !b) { viol("C09/refused:differ", "key refused"); continue; }
        int e1 = EVP_PKEY_eq(k.get(), a.get()), e2 = EVP_PKEY_eq(a.get(), k.get()), e3 = EVP_PKEY_eq(k.get(), b.get()), pe = EVP_PKEY_parameters_eq(k.get(), a.get()), pe2 = EVP_PKEY_parameters_eq(b.get(), k.get());
        CHECK(e1 != 1 && e2 != 1 && e3 != 1, "C09/unequal", "keys that differ in %s compare equal (%d %d %d)", what, e1, e2, e3);
        CHECK((pe == 1) == psame && (pe2 == 1) == psame, "C09/params-cmp", "parameters of keys that differ in %s compare %d %d", what, pe, pe2);
        stat("unequal_pairs"); sig(std::string(what) + s.c->name + (s.le ? "l" : "b"));
    }
    sig(fmt("%s/%d/%d/%d/%d", s.c->name.c_str(), s.le, s.sb != ref::default_sbox(), fc, (int)(s.d.nbytes() == (int)s.c->os())));
    if (ci < 3) sample(run().cur);
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    for_cases(one); ref::free_curves(); done_engine(); return finish_run();
}
