// C11: hostile keys, parameters, signatures, cipher parameters and CMS messages. Monitors: ASan/UBSan/LSan, per-execution heap growth and budget
// monitors, random-request budget (termination), fresh-memory metamorphism (outcome must not depend on fill pattern), Memcheck in the vg phase.
#include "hostile.hpp"
#include <openssl/cms.h>
#include <openssl/pem.h>
#include <openssl/pkcs7.h>

static std::vector<PKey> g_other;       // valid keys to compare hostile ones with
static Bytes g_cms, g_cmscert;
static Bytes bio_text(const std::function<int(BIO *)> &f, int &rc) { BIO *b = BIO_new(BIO_s_mem()); rc = f(b); Bytes t = from_bio(b); BIO_free(b); return t; }

// everything one can do with an accepted key
static void use_key(EVP_PKEY *k, Outcome &o, Rng g, bool priv) {
    o.add("id", EVP_PKEY_id(k)); o.add("bits", EVP_PKEY_bits(k)); o.add("size", EVP_PKEY_size(k)); o.add("sec", EVP_PKEY_security_bits(k));
    int rc; Bytes t = bio_text([&](BIO *b) { return EVP_PKEY_print_public(b, k, 0, nullptr); }, rc); o.add("ppub", rc); o.add("t", t);
    t = bio_text([&](BIO *b) { return EVP_PKEY_print_params(b, k, 2, nullptr); }, rc); o.add("ppar", rc); o.add("t", t);
    if (priv) { t = bio_text([&](BIO *b) { return EVP_PKEY_print_private(b, k, 4, nullptr); }, rc); o.add("pprv", rc); o.add("t", t); }
    for (auto &q : g_other) { o.add("cmp", EVP_PKEY_cmp(k, q.get())); o.add("cmpr", EVP_PKEY_cmp(q.get(), k)); o.add("cmpp", EVP_PKEY_cmp_parameters(k, q.get())); }
    o.add("self", EVP_PKEY_cmp(k, k)); o.add("miss", EVP_PKEY_missing_parameters(k));
    Bytes e = ref::enc_spki(k); o.add("spki", e); if (!e.empty()) { PKey r(ref::decode_spki(e)); o.add("re", (bool)r); if (r) o.add("recmp", EVP_PKEY_cmp(k, r.get())); }
    o.add("par", key_params(k)); if (priv) { Bytes p = ref::enc_pkcs8(k); o.add("p8", p); if (!p.empty()) { PKey r(ref::decode_pkcs8(p)); o.add("re8", (bool)r); } }
    Bytes tbs = g.bytes(g.range(1, 64)); size_t L = (size_t)std::max(0, EVP_PKEY_size(k)); Bytes sg = g.bytes(L);
    o.add("ver", ref::pkey_verify(k, sg, tbs)); if (L > 2 && L < 2000) { Bytes raw = g.bytes(2 * ((L - 2) / 2)); o.add("verraw", ref::pkey_verify(k, raw, tbs)); Bytes d = ref::octet(raw); o.add("verder", ref::pkey_verify(k, d, tbs)); }
    if (priv) { PCtx c(EVP_PKEY_CTX_new(k, nullptr)); size_t n = 0; if (c && EVP_PKEY_sign_init(c.get()) == 1 && EVP_PKEY_sign(c.get(), nullptr, &n, tbs.data(), tbs.size()) == 1) { uint8_t *buf = (uint8_t *)malloc(n ? n : 1); size_t m = n; int r = EVP_PKEY_sign(c.get(), buf, &m, tbs.data(), tbs.size()); o.add("sign", r); if (r == 1) { Bytes s(buf, buf + m); o.add("sig", s); o.add("sv", ref::pkey_verify(k, s, tbs)); stat("hostile_signed"); } free(buf); } }
    { MCtx m(EVP_MD_CTX_new()); EVP_PKEY_CTX *pc = nullptr; int r = EVP_DigestVerifyInit(m.get(), &pc, eng().md, nullptr, k); o.add("dvi", r); if (r == 1) { EVP_DigestVerifyUpdate(m.get(), tbs.data(), tbs.size()); o.add("dvf", EVP_DigestVerifyFinal(m.get(), sg.data(), sg.size())); } }
    if (g.chance(1, 3)) { PCtx c(EVP_PKEY_CTX_new(k, nullptr)); EVP_PKEY *nk = nullptr; if (c && EVP_PKEY_keygen_init(c.get()) == 1) { int r = EVP_PKEY_keygen(c.get(), &nk); o.add("kg", r); if (r == 1) { o.add("kgs", ref::enc_spki(nk)); stat("hostile_keygens"); } EVP_PKEY_free(nk); } }
    EVP_PKEY_up_ref(k); EVP_PKEY_free(k); { PCtx c(EVP_PKEY_CTX_new(k, nullptr)); if (c && EVP_PKEY_verify_init(c.get()) == 1) { PCtx d(EVP_PKEY_CTX_dup(c.get())); o.add("dup", (bool)d); } }
}
static const Bytes *pick_sbox(Rng &g, Bytes &st) { if (g.chance(1, 2)) return nullptr; st = g.bytes(64); return &st; }
static Bytes iit_attrs(Rng &g, const ref::Curve &c, const ref::Bn &d) {
    Bytes dke = g.bytes(64), kv = d.bytes(c.os()), rb; for (auto it = kv.rbegin(); it != kv.rend(); ++it) { uint8_t b = *it, r = 0; for (int i = 0; i < 8; i++) r |= ((b >> i) & 1) << (7 - i); rb.push_back(r); }
    Bytes a1 = ref::seq({ref::oid("1.3.6.1.4.1.19398.1.1.2.2"), ref::der(0x31, ref::seq({ref::custom_spec(c, false), ref::octet(dke), ref::octet(dke)}))}), a2 = ref::seq({ref::oid("1.3.6.1.4.1.19398.1.1.2.3"), ref::der(0x31, g.chance(1, 2) ? ref::octet(rb) : ref::der(3, ref::cat({Bytes{0}, rb})))});
    return ref::der(0xa0, ref::cat({a1, a2}));
}
static void one(long ci, Rng &g) {
    unsigned kind = (unsigned)g.below(100); Rng gseed(g.next()); uint64_t rs = g.next();
    ref::Curve *c = g.chance(1, 3) ? ref::smalls()[g.below(ref::smalls().size())] : g.chance(1, 2) ? ref::named((int)g.below(10)) : ref::customs()[g.below(ref::customs().size())];
    bool le = g.chance(1, 2), fc = g.chance(2, 3); Bytes st; const Bytes *sb = pick_sbox(g, st); trand().reset(rs); ref::Bn d = ref::rand_scalar(g, c->n);
    auto mut = [&](const Bytes &b) { return g.chance(1, 30) ? b : mutate_der(b, g); };
    if (kind < 28) {
        ref::Pt Q = ref::pub_of(*c, d); Bytes x = mut(ref::spki_der(*c, Q, le, sb, fc)); desc("spki " + shorthex(x, 1200));
        Outcome o = guarded("C11", "spki", [&](Outcome &o) { Rng gu = gseed; Exact e(x); const uint8_t *p = exact_ptr(e); PKey k(d2i_PUBKEY(nullptr, &p, (long)e.n)); o.add("ok", (bool)k); if (k) { stat("spki_accepted"); use_key(k.get(), o, gu, false); } else stat("spki_refused"); }, rs); sig(mix(o.h, 1)); stat("k_spki");
    } else if (kind < 56) {
        Bytes x = mut(ref::pkcs8_der(*c, d, le, sb, fc, g.chance(1, 4) ? iit_attrs(g, *c, d) : Bytes())); desc("pkcs8 " + shorthex(x, 1200));
        Outcome o = guarded("C11", "pkcs8", [&](Outcome &o) { Rng gu = gseed; Exact e(x); const uint8_t *p = exact_ptr(e); PKCS8_PRIV_KEY_INFO *i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long)e.n); o.add("d2i", (bool)i); if (!i) { stat("pkcs8_refused"); return; } PKey k(EVP_PKCS82PKEY(i)); PKCS8_PRIV_KEY_INFO_free(i); o.add("ok", (bool)k); if (k) { stat("pkcs8_accepted"); use_key(k.get(), o, gu, true); } else stat("pkcs8_refused"); }, rs); sig(mix(o.h, 2)); stat("k_pkcs8");
    } else if (kind < 68) {
        Bytes x = mut(ref::params_der(*c, le, sb, fc)); desc("params " + shorthex(x, 1200));
        Outcome o = guarded("C11", "params", [&](Outcome &o) { Rng gu = gseed; Exact e(x); const uint8_t *p = exact_ptr(e); PKey k(d2i_KeyParams(le ? NID_dstu4145le : NID_dstu4145be, nullptr, &p, (long)e.n)); o.add("ok", (bool)k); if (!k) { stat("params_refused"); return; } stat("params_accepted");
            o.add("bits", EVP_PKEY_bits(k.get())); o.add("size", EVP_PKEY_size(k.get())); int rc; Bytes t = bio_text([&](BIO *b) { return EVP_PKEY_print_params(b, k.get(), 0, nullptr); }, rc); o.add("t", t); o.add("re", key_params(k.get())); for (auto &q : g_other) { o.add("cmpp", EVP_PKEY_cmp_parameters(k.get(), q.get())); o.add("cmp", EVP_PKEY_cmp(k.get(), q.get())); } o.add("spki", ref::enc_spki(k.get())); o.add("p8", ref::enc_pkcs8(k.get()));
            PCtx cx(EVP_PKEY_CTX_new(k.get(), nullptr)); EVP_PKEY *nk = nullptr; if (cx && EVP_PKEY_keygen_init(cx.get()) == 1) { int r = EVP_PKEY_keygen(cx.get(), &nk); o.add("kg", r); if (r == 1) { stat("hostile_keygens"); use_key(nk, o, gu, true); } EVP_PKEY_free(nk); }
            o.add("ver", ref::pkey_verify(k.get(), gu.bytes(66), gu.bytes(32))); o.add("sgn", ref::pkey_sign(k.get(), gu.bytes(32))); }, rs); sig(mix(o.h, 3)); stat("k_params");
    } else if (kind < 78) {
        ref::Pt Q = ref::pub_of(*c, d); Bytes tbs = g.bytes(g.range(1, 48)); ref::Sig s; ref::Bn e = ref::rand_scalar(g, c->n); ref::sign_with(*c, d, tbs, e, s); if (!(s.r < c->n) || !(s.s < c->n)) return;
        Bytes x = ref::sig_body(*c, s, le); if (g.chance(3, 4)) x = ref::octet(x); x = g.chance(1, 10) ? g.bytes(g.below(5000)) : mutate_der(x, g); desc("signature " + c->name + " " + shorthex(x, 600)); bool dg = g.chance(1, 4);
        PKey k(ref::decode_pub(*c, Q, le, sb, false)); if (!k) return;
        Outcome o = guarded("C11", "signature", [&](Outcome &o) { Rng gu = gseed; Exact e(x); const uint8_t *p = exact_ptr(e); int r;
            if (dg) { MCtx m(EVP_MD_CTX_new()); EVP_DigestVerifyInit(m.get(), nullptr, eng().md, nullptr, k.get()); r = EVP_DigestVerify(m.get(), p, e.n, tbs.data(), tbs.size()); }
            else { PCtx cx(EVP_PKEY_CTX_new(k.get(), nullptr)); EVP_PKEY_verify_init(cx.get()); r = EVP_PKEY_verify(cx.get(), p, e.n, tbs.data(), tbs.size()); } o.add("r", r); stat("signatures_offered"); }, rs); sig(mix(fnv(x.data(), x.size()), 4)); stat("k_signature");
    } else if (kind < 86) {
        Bytes x = ref::seq({ref::octet(g.bytes(8)), ref::octet(g.bytes(64))}); if (g.chance(9, 10)) x = mutate_der(x, g); bool absent = g.chance(1, 40); if (absent) x.clear(); desc("cipher params " + shorthex(x, 400)); Bytes key = g.bytes(32), pt = g.bytes(g.below(40)); bool aux = g.chance(1, 2);
        Outcome o = guarded("C11", "cipherparams", [&](Outcome &o) { Rng gu = gseed; Exact e(x); const uint8_t *p = exact_ptr(e); ASN1_TYPE *t = d2i_ASN1_TYPE(nullptr, &p, (long)e.n); o.add("t", (bool)t); if (!t && !absent) return; CCtx cx(EVP_CIPHER_CTX_new()); EVP_CipherInit_ex(cx.get(), eng().cipher, eng().e, nullptr, nullptr, aux); int r = EVP_CIPHER_asn1_to_param(cx.get(), t); o.add("r", r > 0); stat(r > 0 ? "cipherparams_accepted" : "cipherparams_refused");
            int q = EVP_CipherInit_ex(cx.get(), nullptr, nullptr, key.data(), r > 0 ? nullptr : pt.size() >= 8 ? pt.data() : key.data(), aux); o.add("init", q); if (q == 1 && r > 0) { Bytes out(pt.size() + 16); int n = 0; o.add("upd", EVP_CipherUpdate(cx.get(), out.data(), &n, pt.data(), (int)pt.size())); out.resize(n); o.add("out", out); ASN1_TYPE *u = ASN1_TYPE_new(); int w = EVP_CIPHER_param_to_asn1(cx.get(), u); o.add("exp", w > 0); ASN1_TYPE_free(u); } ASN1_TYPE_free(t); }, rs); sig(mix(o.h, 5)); stat("k_cipherparams");
    } else if (kind < 94) {
        Bytes x = mutate_der(g_cms, g); desc("cms " + shorthex(x, 200) + fmt(" fnv=%llx", (unsigned long long)fnv(x.data(), x.size()))); bool p7 = g.chance(1, 3);
        Outcome o = guarded("C11", "cms", [&](Outcome &o) { Rng gu = gseed; Exact e(x); const uint8_t *p = exact_ptr(e);
            if (p7) { PKCS7 *m = d2i_PKCS7(nullptr, &p, (long)e.n); o.add("d2i", (bool)m); if (m) { stat("cms_parsed"); BIO *b = BIO_new(BIO_s_mem()); int r = PKCS7_verify(m, nullptr, nullptr, nullptr, b, PKCS7_NOVERIFY | PKCS7_BINARY); o.add("v", r); if (r == 1) stat("cms_verified"); BIO_free(b); PKCS7_free(m); } }
            else { CMS_ContentInfo *m = d2i_CMS_ContentInfo(nullptr, &p, (long)e.n); o.add("d2i", (bool)m); if (m) { stat("cms_parsed"); BIO *b = BIO_new(BIO_s_mem()); int r = CMS_verify(m, nullptr, nullptr, nullptr, b, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY); o.add("v", r); if (r == 1) stat("cms_verified"); BIO_free(b); STACK_OF(X509) *cs = CMS_get1_certs(m); for (int i = 0; cs && i < sk_X509_num(cs); i++) { EVP_PKEY *pk = X509_get0_pubkey(sk_X509_value(cs, i)); if (pk) use_key(pk, o, gu, false); o.add("xv", X509_verify(sk_X509_value(cs, i), pk)); } sk_X509_pop_free(cs, X509_free); CMS_ContentInfo_free(m); } } }, rs, 20000, 64u << 20); sig(mix(o.h, 6)); stat("k_cms");
    } else {
        // control strings
        Bytes raw = g.chance(1, 2) ? g.bytes(64) : g.bytes(g.below(100)); std::string v; unsigned w = (unsigned)g.below(8);
        if (w < 3) v = hex(raw); else if (w == 3) { v = hex(raw); if (!v.empty()) v[g.below(v.size())] = (char)g.range(1, 255); } else if (w == 4) v = fmt("uacurve%d", (int)g.below(14)); else if (w == 5) v = fmt("%s", OBJ_nid2sn((int)g.range(1, 1200)) ?: "x"); else { for (size_t n = g.below(300); n--;) v += (char)g.range(1, 255); }
        std::string nm = g.chance(1, 2) ? "sbox" : g.chance(1, 2) ? "curve" : g.chance(1, 2) ? "" : "sb\xffox"; desc("ctrl_str " + nm + "=" + hex((const uint8_t *)v.data(), v.size())); int ty = le ? NID_dstu4145le : NID_dstu4145be;
        Outcome o = guarded("C11", "ctrl", [&](Outcome &o) { Rng gu = gseed; Exact e(Bytes(v.c_str(), v.c_str() + v.size() + 1)); PCtx cx(EVP_PKEY_CTX_new_id(ty, nullptr)); o.add("i", EVP_PKEY_keygen_init(cx.get())); int r = EVP_PKEY_CTX_ctrl_str(cx.get(), nm.c_str(), (const char *)e.p); o.add("r", r); stat(r > 0 ? "ctrl_accepted" : "ctrl_refused"); Exact sx(raw); for (int l : {-1, 0, 63, 65, (int)raw.size()}) if (l != 64 || raw.size() == 64) { int q = EVP_PKEY_CTX_ctrl(cx.get(), -1, -1, H_SET_SBOX, l, sx.p); o.add("b", q); if (q > 0 && l != 64) viol("C11/ctrl-length", fmt("a table of %d bytes was accepted", l)); } EVP_PKEY *nk = nullptr; int k = EVP_PKEY_keygen(cx.get(), &nk); o.add("kg", k); if (k == 1 && gu.chance(1, 4)) use_key(nk, o, gu, true); EVP_PKEY_free(nk);
            MCtx m(EVP_MD_CTX_new()); EVP_DigestInit_ex(m.get(), eng().md, eng().e); for (int l : {-1, 0, 63, 65}) { int q = EVP_MD_CTX_ctrl(m.get(), H_SET_SBOX, l, sx.p); o.add("m", q); if (q > 0) viol("C11/ctrl-length", fmt("digest accepted a table of %d bytes", l)); } Bytes dg(32); unsigned n = 0; EVP_DigestFinal_ex(m.get(), dg.data(), &n); o.add("dg", dg); }, rs); sig(mix(o.h, 7)); stat("k_ctrl");
    }
    if (ci < 3) sample(run().cur.substr(0, 200));
}
int main(int argc, char **argv) {
    init_heap_monitor(); parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    trand().reset(7); ref::Bn d = ref::Bn(123457); for (bool le : {true, false}) { g_other.emplace_back(ref::decode_priv(*ref::named(6), d, le)); g_other.emplace_back(ref::decode_pub(*ref::named(0), ref::pub_of(*ref::named(0), d), le)); if (!g_other[g_other.size() - 1] || !g_other[g_other.size() - 2]) engine_unusable("cannot decode ordinary keys"); }
    { BIO *b = BIO_new_file((run().repo + "/tests/cms.pem").c_str(), "r"); CMS_ContentInfo *m = b ? PEM_read_bio_CMS(b, nullptr, nullptr, nullptr) : nullptr; if (!m) harness_error("cannot read tests/cms.pem"); uint8_t *p = nullptr; int n = i2d_CMS_ContentInfo(m, &p); g_cms.assign(p, p + n); OPENSSL_free(p); CMS_ContentInfo_free(m); BIO_free(b); }
    for_cases(one); g_other.clear(); ref::free_curves(); done_engine(); return finish_run();
}
