// C22: what a key reports about itself. Oracle: the reference's own copy of every component; the printed text is parsed, not compared literally.
#include "keyview.hpp"
#include <openssl/pem.h>
#include <openssl/x509.h>
using ref::Bn;
struct Text { std::map<std::string, std::string> sec; bool ok = false; std::string raw; };
static Text parse(const std::string &s) {
    Text t; t.raw = s; std::string cur; size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); std::string l = s.substr(p, e - p); p = e + 1; size_t b = l.find_first_not_of(' '); if (b == std::string::npos) continue; l = l.substr(b);
        bool hexline = l.size() >= 2; for (size_t i = 0; i < l.size() && hexline; i++) hexline = i % 3 == 2 ? l[i] == ':' : isxdigit((unsigned char)l[i]) != 0;
        if (hexline && !cur.empty()) { for (char c : l) if (c != ':') t.sec[cur] += (char)tolower(c); continue; }
        size_t c = l.find(':'); cur.clear(); if (c == std::string::npos) continue; std::string name = l.substr(0, c), v = l.substr(c + 1); if (name.compare(0, 9, "Generator") == 0) name = "Generator";
        size_t x = v.find("(0x"); if (x != std::string::npos) { std::string h = v.substr(x + 3, v.find(')', x) - x - 3); if (h.size() % 2) h = "0" + h; t.sec[name] = h; continue; }
        size_t d = v.find_first_not_of(' '); if (d != std::string::npos && v.substr(d) == "0") { t.sec[name] = "00"; continue; } if (d == std::string::npos) { cur = name; t.sec[name]; }
    }
    return t;
}
static bool is_num(const Text &t, const char *n, const Bn &v) { auto i = t.sec.find(n); return i != t.sec.end() && !i->second.empty() && Bn::be(unhex(i->second)) == v; }
static bool is_point(const Text &t, const char *n, const ref::Curve &c, const ref::Pt &P) { auto i = t.sec.find(n); if (i == t.sec.end()) return false; Bytes v = unhex(i->second); size_t f = c.fs(); if (v.size() != 1 + 2 * f || v[0] != 4) return false; return Bn::be(Bytes(v.begin() + 1, v.begin() + 1 + f)) == P.x && Bn::be(Bytes(v.begin() + 1 + f, v.end())) == P.y; }
static bool has(const Text &t, const char *n) { auto i = t.sec.find(n); return i != t.sec.end() && !i->second.empty(); }
static long limit_left; static int lim_write(BIO *b, const char *d, int n) { if (limit_left < n) { limit_left = 0; return -1; } limit_left -= n; std::string *s = (std::string *)BIO_get_data(b); s->append(d, n); return n; }
static int lim_puts(BIO *b, const char *d) { return lim_write(b, d, (int)strlen(d)); }
static long lim_ctrl(BIO *, int c, long, void *) { return c == BIO_CTRL_FLUSH ? 1 : 0; }
static int lim_create(BIO *b) { BIO_set_init(b, 1); return 1; }
static int print_any(int what, BIO *b, EVP_PKEY *k, int ind) { return what == 0 ? EVP_PKEY_print_private(b, k, ind, nullptr) : what == 1 ? EVP_PKEY_print_public(b, k, ind, nullptr) : EVP_PKEY_print_params(b, k, ind, nullptr); }
static int print_limited(int what, EVP_PKEY *k, long n, std::string &o, int ind = 0) {
    static BIO_METHOD *m = nullptr; if (!m) { m = BIO_meth_new(BIO_TYPE_SOURCE_SINK | 77, "limited"); BIO_meth_set_write(m, lim_write); BIO_meth_set_puts(m, lim_puts); BIO_meth_set_ctrl(m, lim_ctrl); BIO_meth_set_create(m, lim_create); }
    BIO *b = BIO_new(m); o.clear(); BIO_set_data(b, &o); limit_left = n; int r = print_any(what, b, k, ind); BIO_free(b); return r;
}
static int printed(int what, EVP_PKEY *k, Text &t, int ind) { BIO *b = BIO_new(BIO_s_mem()); int r = print_any(what, b, k, ind); Bytes x = from_bio(b); BIO_free(b); t = parse(std::string(x.begin(), x.end())); return r; }
static const char *WN[] = {"private", "public", "params"};
static bool quirk(const ref::Curve &c, const ref::Pt &W) { return !W.inf && BN_is_one((const BIGNUM *)W.x) && Bn::be(ref::compress(c, W)).zero(); }
static void check_text(int what, EVP_PKEY *k, const ref::Curve &c, const Bn *d, const ref::Pt *Q, int ind, const char *how) {
    Text t; int r = printed(what, k, t, ind); std::string K = std::string("C22/") + WN[what] + ":"; if (r != 1) { viol(K + "failed", fmt("printing %s of a %s key failed (%d)", WN[what], how, r)); return; }
    CHECK(is_num(t, "Polynomial", c.p), K + "polynomial", "%s key: %s", how, t.raw.c_str()); CHECK(is_num(t, "A", Bn((unsigned long)c.a)), K + "a", "%s", t.raw.c_str()); CHECK(is_num(t, "B", c.b), K + "b", "%s", t.raw.c_str());
    CHECK(is_point(t, "Generator", c, c.G), K + "generator", "%s", t.raw.c_str()); CHECK(is_num(t, "Order", c.n), K + "order", "%s", t.raw.c_str());
    if (what < 2 && Q) CHECK(is_point(t, "pub", c, *Q), K + "point", "%s key prints another public point: %s", how, t.raw.c_str()); else CHECK(!has(t, "pub"), K + "point-shown", "%s", t.raw.c_str());
    if (what == 0 && d) CHECK(is_num(t, "priv", *d), K + "value", "%s key prints another private value: %s, expected %s", how, t.raw.c_str(), d->str().c_str()); else CHECK(!has(t, "priv"), K + "leak", "a private value is shown: %s", t.raw.c_str());
    if (what && d && d->bits() >= 64) { std::string h = hex(d->bytes(d->nbytes())), all; for (char ch : t.raw) if (isxdigit((unsigned char)ch)) all += (char)tolower(ch); CHECK(all.find(h) == std::string::npos, K + "leak", "the private value is in the text: %s", t.raw.c_str()); }
    size_t p = 0; while (p < t.raw.size()) { size_t e = t.raw.find('\n', p); if (e == std::string::npos) e = t.raw.size(); if (e > p) { size_t b = t.raw.find_first_not_of(' ', p); CHECK(b != std::string::npos && (int)(b - p) >= ind, K + "indent", "indent %d: %s", ind, t.raw.c_str()); } p = e + 1; }
    stat("texts_read");
}
struct Key { ref::Curve *c; Bn d; ref::Pt Q; bool le; Bytes sb; };
static void numbers(EVP_PKEY *k, const Key &s, const char *how) {
    Bytes z(2 * s.c->os()); int want = (int)ref::octet(z).size(), b = EVP_PKEY_get_bits(k), z2 = EVP_PKEY_get_size(k), nid = 0, r = EVP_PKEY_get_default_digest_nid(k, &nid), id = EVP_PKEY_get_id(k), bid = EVP_PKEY_get_base_id(k), w = s.le ? NID_dstu4145le : NID_dstu4145be;
    CHECK(b == s.c->m, "C22/bits", "%s key on a field of %d bits says %d", how, s.c->m, b); CHECK(z2 == want, "C22/size", "%s key says %d, signatures take %d", how, z2, want);
    CHECK(r == 2 && nid == NID_dstu34311, "C22/digest", "default digest %d (%d)", nid, r); CHECK(id == w && bid == w, "C22/type", "type %d/%d expected %d", id, bid, w); stat("numbers_read");
}
// operations that need a component the key does not have
static void refused(EVP_PKEY *k, int level, EVP_PKEY *full, Rng &g, const Key &s) {   // level 0 typed only, 1 parameters, 2 public
    const char *L[] = {"typed", "parameters", "public"}; Bytes t = g.bytes(32), sg(s.c->os() * 2 + 20); size_t n = sg.size(); auto bad = [&](const char *op, long r) { viol(std::string("C22/incomplete:") + op, fmt("%s on a %s-only key reports %ld", op, L[level], r)); };
    for (int i = 0; i < 6; i++) { stat("incomplete_ops"); switch (g.below(9)) {
    case 0: { PCtx c(EVP_PKEY_CTX_new(k, nullptr)); int r = c && EVP_PKEY_sign_init(c.get()) == 1 ? EVP_PKEY_sign(c.get(), sg.data(), &n, t.data(), 32) : 0; if (r > 0) bad("sign", r); break; }
    case 1: { MCtx m(EVP_MD_CTX_new()); n = sg.size(); int r = EVP_DigestSignInit(m.get(), nullptr, eng().md, nullptr, k) == 1 && EVP_DigestUpdate(m.get(), t.data(), 32) == 1 ? EVP_DigestSignFinal(m.get(), sg.data(), &n) : 0; if (r > 0) bad("DigestSign", r); break; }
    case 2: { PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(k); if (p) { bad("PKCS#8 encoding", 1); PKCS8_PRIV_KEY_INFO_free(p); } break; }
    case 3: { uint8_t *p = nullptr; int r = i2d_PrivateKey(k, &p); if (r > 0) bad("i2d_PrivateKey", r); OPENSSL_free(p); break; }
    case 4: { if (level == 2) break; uint8_t *p = nullptr; int r = i2d_PUBKEY(k, &p); if (r > 0) bad("i2d_PUBKEY", r); OPENSSL_free(p); break; }
    case 5: { if (level == 2) break; Bytes v = ref::pkey_sign(full, t); int r = ref::pkey_verify(k, v, t); if (r == 1) bad("verify", r); break; }
    case 6: { if (level == 2) break; int r = EVP_PKEY_eq(k, full), r2 = EVP_PKEY_eq(full, k); if (r == 1 || r2 == 1) bad("comparison", r); break; }
    case 7: { if (level) break; Text x; int w = (int)g.below(3); int r = printed(w, k, x, 0); if (r == 1) bad("print", r); if (EVP_PKEY_get_bits(k) > 0 || EVP_PKEY_get_size(k) > 0) bad("size", EVP_PKEY_get_size(k)); if (EVP_PKEY_parameters_eq(k, full) == 1) bad("parameter comparison", 1); if (!key_params(k).empty()) bad("i2d_KeyParams", 1); break; }
    case 8: { if (level == 2) break; X509 *x = X509_new(); int r = X509_set_pubkey(x, k); X509_free(x); if (r > 0) bad("X509_set_pubkey", r); break; }
    } }
    ERR_clear_error();
}
static void one(long ci, Rng &g) {
    trand().reset(g.next()); Key s; s.c = ref::any_curve(g, g.chance(1, 2)); s.d = ref::rand_scalar(g, s.c->n); s.le = g.chance(1, 2); s.sb = g.chance(1, 2) ? ref::default_sbox() : ref::random_sbox(g); s.Q = ref::pub_of(*s.c, s.d); bool fc = g.chance(1, 3);
    desc(fmt("curve=%s %s d=%s%s", s.c->name.c_str(), s.le ? "le" : "be", s.d.str().c_str(), fc ? " explicit" : ""));
    PKey k(ref::decode_priv(*s.c, s.d, s.le, &s.sb, fc)); if (!k) { viol("C22/refused", "key refused"); return; }
    bool qk = quirk(*s.c, s.Q); int ind = (int)g.pick({0, 0, 2, 4, 17, 64}); numbers(k.get(), s, "private");
    for (int w = 0; w < 3; w++) check_text(w, k.get(), *s.c, &s.d, &s.Q, ind, "private");
    if (!qk) {
        PKey p(ref::decode_pub(*s.c, s.Q, s.le, &s.sb, fc)); if (!p) { viol("C22/refused", "public key refused"); return; }
        numbers(p.get(), s, "public"); for (int w = 0; w < 3; w++) check_text(w, p.get(), *s.c, nullptr, &s.Q, ind, "public"); refused(p.get(), 2, k.get(), g, s); check_text(1, p.get(), *s.c, nullptr, &s.Q, 0, "public"); 
        if (g.chance(1, 3)) { X509 *x = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(x), 5); X509_gmtime_adj(X509_getm_notBefore(x), 0); X509_gmtime_adj(X509_getm_notAfter(x), 1000); if (X509_set_pubkey(x, k.get()) != 1) viol("C22/cert", "X509_set_pubkey failed"); else { BIO *b = BIO_new(BIO_s_mem()); if (X509_print_ex(b, x, 0, X509_FLAG_NO_SIGDUMP | X509_FLAG_NO_SIGNAME) == 1) { Bytes v = from_bio(b); Text t = parse(std::string(v.begin(), v.end())); CHECK(is_point(t, "pub", *s.c, s.Q), "C22/cert", "certificate text shows another key: %s", t.raw.c_str()); CHECK(!has(t, "priv"), "C22/cert", "certificate text shows a private value"); stat("certificates_read"); } else viol("C22/cert", "certificate with a DSTU key does not print"); BIO_free(b); } X509_free(x); }
    }
    { Bytes pd = ref::params_der(*s.c, s.le, &s.sb, fc); const uint8_t *q = pd.data(); PKey r(d2i_KeyParams(EVP_PKEY_id(k.get()), nullptr, &q, (long)pd.size())); if (!r) viol("C22/refused", "parameters refused"); else { numbers(r.get(), s, "parameters-only"); for (int w = 0; w < 3; w++) check_text(w, r.get(), *s.c, nullptr, nullptr, ind, "parameters-only"); refused(r.get(), 1, k.get(), g, s); numbers(r.get(), s, "parameters-only"); } }
    { PKey e(EVP_PKEY_new()); if (EVP_PKEY_set_type(e.get(), s.le ? NID_dstu4145le : NID_dstu4145be) == 1) refused(e.get(), 0, k.get(), g, s); }
    // a sink that stops taking bytes: the text is complete or the call says so
    { int w = (int)g.below(3); std::string full, part; int r0 = print_limited(w, k.get(), 1 << 20, full); if (r0 != 1) viol("C22/sink", "printing to a plain sink failed"); else for (int i = 0; i < 3; i++) { long n = (long)g.below(full.size() + 5); int r = print_limited(w, k.get(), n, part); stat("limited_sinks"); bool complete = part == full;
        if (complete) CHECK(r == 1, "C22/sink", "complete text but result %d", r);
        else if (r == 1) { EC_KEY *ec = EC_KEY_new(); EC_KEY_set_group(ec, s.c->grp); EC_KEY_set_private_key(ec, s.d); EC_POINT *q = ref::to_ec(*s.c, s.Q); EC_KEY_set_public_key(ec, q); EC_POINT_free(q); PKey ek(EVP_PKEY_new()); EVP_PKEY_assign_EC_KEY(ek.get(), ec); std::string pe; if (print_limited(w, ek.get(), n, pe) != 1) viol("C22/sink", fmt("%zu of %zu bytes written but success reported", part.size(), full.size())); else stat("libcrypto_ignores"); } } }
    // nothing above changed the key
    if (!qk) CHECK(ref::enc_spki(k.get()) == ref::spki_der(*s.c, s.Q, s.le, &s.sb), "C22/changed", "the key changed"); Bn d2; if (!private_value(k.get(), d2) || !(d2 == s.d)) viol("C22/changed", "the private value changed");
    ERR_clear_error(); sig(fmt("%s/%d/%d/%d/%d", s.c->name.c_str(), s.le, fc, s.sb != ref::default_sbox(), s.d.nbytes())); if (ci < 3) sample(run().cur);
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    for_cases(one); ref::free_curves(); done_engine(); return finish_run();
}
