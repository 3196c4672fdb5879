// C13: containers written by the independent writers are read back exactly. Oracle: the list of what was written.
#include "containers.hpp"
using namespace cont;
struct Want { std::vector<Bytes> keys_p8, keys_spki; std::vector<Bytes> certs; std::vector<int> types; };
static bool has_enc(const ref::Curve &c, const ref::Pt &P) { return !P.inf && (P.x.zero() || !ref::Bn::be(ref::compress(c, P)).zero()); }
static void want_key(Want &w, ref::Curve &c, const ref::Bn &d, bool le, const Bytes *sb) { ref::Pt Q = ref::pub_of(c, d); w.keys_p8.push_back(ref::pkcs8_der(c, d, le, sb)); w.keys_spki.push_back(has_enc(c, Q) ? ref::spki_der(c, Q, le, sb) : Bytes()); w.types.push_back(le ? NID_dstu4145le : NID_dstu4145be); }
static void want_rec(Want &w, const KeyRec &k, bool second) { want_key(w, *k.c, k.d, k.le, k.sbox.empty() ? nullptr : &k.sbox); if (second && k.c2) want_key(w, *k.c2, k.d2, true, nullptr); }

static void judge(const char *f, Via v, int r, KeyStore *ks, const Want &w) {
    static const char *vn[] = {"memory", "bio", "chunked bio", "file"}; std::string F = f;
    if (r != 1) { viol("C13/refused:" + F, fmt("a well-formed container was refused (%s)", vn[v])); return; }
    if (!ks) { viol("C13/no-store:" + F, "success without a store"); return; }
    size_t nk = KeyStoreKeyNum(ks), nc = KeyStoreCertNum(ks);
    if (nk != w.keys_p8.size() || nc != w.certs.size()) { viol("C13/count:" + F, fmt("%zu keys %zu certificates, stored %zu and %zu (%s)", nk, nc, w.keys_p8.size(), w.certs.size(), vn[v])); return; }
    for (size_t i = 0; i < nk; i++) {
        EVP_PKEY *k = (EVP_PKEY *)KeyStoreGetKey(ks, i); if (!k) { viol("C13/null-key:" + F, fmt("key %zu is NULL", i)); continue; }
        CHECK(EVP_PKEY_id(k) == w.types[i], "C13/key-type:" + F, "key %zu has type %d", i, EVP_PKEY_id(k));
        Bytes e = ref::enc_pkcs8(k); CHECK(e == w.keys_p8[i], "C13/key-value:" + F, "key %zu of %zu is %s, stored %s (%s)", i, nk, shorthex(e, 240).c_str(), shorthex(w.keys_p8[i], 240).c_str(), vn[v]);
        if (!w.keys_spki[i].empty()) { Bytes s = ref::enc_spki(k); CHECK(s == w.keys_spki[i], "C13/key-public:" + F, "public part of key %zu is %s, expected %s", i, shorthex(s, 240).c_str(), shorthex(w.keys_spki[i], 240).c_str()); } stat("keys_checked");
    }
    for (size_t i = 0; i < nc; i++) { const X509 *x = KeyStoreGetCert(ks, i); if (!x) { viol("C13/null-cert:" + F, fmt("certificate %zu is NULL", i)); continue; } CHECK(x509_der(x) == w.certs[i], "C13/cert-value:" + F, "certificate %zu of %zu differs from the stored one (%s)", i, nc, vn[v]); stat("certs_checked"); }
    if (KeyStoreGetKey(ks, nk) || KeyStoreGetCert(ks, nc)) viol("C13/extra:" + F, "an entry beyond the end");
}
static void open_all(const char *name, Fmt f, const Bytes &b, const Pw &pw, const Want &w, Rng &g, int nvia) {
    std::vector<Via> vs{MEM, BIOM, CHUNK, FILEP}; for (size_t i = 3; i > 0; i--) std::swap(vs[i], vs[g.below(i + 1)]); uint64_t cs = g.next();
    for (int i = 0; i < nvia; i++) { KeyStore *ks = nullptr; trand().reset(g.next()); int r = open_via(vs[i], f, b, pw, &ks, cs); judge(name, vs[i], r, ks, w); if (r == 1) KeyStoreFree(ks); stat(fmt("opened_%s_via%d", name, vs[i])); }
}
// a key may carry an attribute of any size that is not the reader's
static void fatten(Rng &g, KeyRec &k, bool few) { if (g.chance(1, few ? 40 : 15)) { k.fat = !few && g.chance(1, 12) ? g.range(1320000, 1500000) : g.pick<size_t>({100, 1000, 4600, 5200, 9000, 33000, 66000, 140000}) + g.below(600); stat("fat_keys"); if (k.fat > 1000000) stat("huge_keys"); } }
// the same key or certificate may be stored more than once
static std::vector<KeyRec> had_keys; static std::vector<Bytes> had_certs;
static KeyRec key_or_again(Rng &g, bool second, bool fast) { if (!had_keys.empty() && g.chance(1, 6)) { stat("repeated_keys"); return g.pick(had_keys); } KeyRec k = rand_key(g, second, fast); fatten(g, k, fast); had_keys.push_back(k); return k; }
template <class F> static Bytes cert_or_again(Rng &g, F make) { if (!had_certs.empty() && g.chance(1, 6)) { stat("repeated_certs"); return g.chance(1, 2) ? had_certs.back() : g.pick(had_certs); } had_certs.push_back(make()); return had_certs.back(); }
static void forget() { had_keys.clear(); had_certs.clear(); }
static const std::vector<std::string> &key6_passwords() { static std::vector<std::string> v = [] { Rng g(mix(run().seed, run().worker + 77)); std::vector<std::string> p{"tect4", "", std::string("a\0b", 3), "p"}; for (int i = 0; i < 8; i++) { Bytes b = g.bytes(g.range(1, i == 0 ? 300 : 40)); p.push_back(std::string(b.begin(), b.end())); } return p; }(); return v; }
static void one_key6(long ci, Rng &g) {
    trand().reset(g.next()); KeyRec k = rand_key(g, g.chance(2, 3)); fatten(g, k, true); bool sw = g.chance(1, 3); Bytes p8 = key_pkcs8(k, sw); std::string pw = g.pick(key6_passwords()); for (size_t x = g.chance(1, 4) ? g.range(1, 40) : 0; x--;) p8.push_back(g.byte());
    bool wp = g.chance(3, 4); size_t pl = g.chance(1, 2) ? g.below(8) : g.below(p8.size()); Bytes b = key6_wrap(p8, key6_key(pw), g.bytes(7), pl, wp, g.bytes(4));
    desc(fmt("key6 curve=%s d=%s %s second=%s pw=%s padlen=%zu", k.c->name.c_str(), k.d.str().c_str(), k.le ? "le" : "be", k.c2 ? k.c2->name.c_str() : "-", hex(str(pw)).c_str(), pl)); Want w; want_rec(w, k, true);
    open_all("key6", KEY6, b, Pw{pw, ""}, w, g, 1); sig(fmt("k6%s%s%d%d%d%d", k.c->name.c_str(), k.c2 ? k.c2->name.c_str() : "-", k.le, k.bit2, sw, wp)); if (ci < 2) sample(run().cur);
}
static std::string rand_alias(Rng &g) { size_t n = g.chance(1, 40) ? g.pick<size_t>({65535, 32768, 32767, 40000}) : g.chance(1, 8) ? g.range(200, 3000) : g.below(24); Bytes b = g.bytes(n); return std::string(b.begin(), b.end()); }
static void one_jks(long ci, Rng &g) {
    forget();
    trand().reset(g.next()); auto sp = rand_password(g), kp = g.chance(1, 3) ? sp : rand_password(g); bool jc = g.chance(1, 2); bool many = g.chance(1, 40), chain = g.chance(1, 40); size_t n = many ? g.range(250, 700) : g.chance(1, 12) ? g.range(7, 40) : g.range(1, 6); bool fast = n > 6 || chain; if (many) stat("many_entries"); if (chain) stat("long_chains"); std::vector<JksEntry> es; Want w; std::string shape;
    for (size_t i = 0; i < n; i++) {
        JksEntry e; e.alias = many ? "e" + std::to_string(i) : rand_alias(g); e.ts = g.bytes(8); e.salt = g.bytes(20); e.algnull = g.chance(3, 4); e.tag = many ? (g.chance(1, 8) ? 1 : 2) : chain && !i ? 1 : g.chance(3, 5) ? 1 : 2;
        auto addc = [&] { JksCert c; c.der = cert_or_again(g, [&] { return rand_cert(g, fast, !many && g.chance(1, 60) ? (stat("big_certs"), g.range(60000, 300000)) : 0); }); if (!many && g.chance(1, 8)) c.type = rand_alias(g); e.certs.push_back(c); w.certs.push_back(c.der); };
        if (e.tag == 1) { if (i && g.chance(1, 8)) e.alias = es[g.below(es.size())].alias; KeyRec k = key_or_again(g, g.chance(1, 3), fast); e.pkcs8 = key_pkcs8(k, g.chance(1, 3)); for (size_t x = g.chance(1, 6) ? g.range(1, 30) : 0; x--;) e.pkcs8.push_back(g.byte()); want_rec(w, k, true); size_t nc = chain && !i ? g.range(250, 600) : many ? g.below(2) : g.chance(1, 10) ? g.range(5, 12) : g.below(4); while (nc--) addc(); shape += fmt("k%zu%d%s,", e.certs.size(), k.c2 != nullptr, k.fat ? fmt("f%zu", k.fat).c_str() : ""); }
        else { addc(); shape += "t,"; }
        es.push_back(e);
    }
    Bytes b = jks_seal(jks_body(es, utf16be(kp), jc), utf16be(sp)); desc(fmt("%s entries=%s storepw=%s keypw=%s size=%zu", jc ? "jceks" : "jks", shape.c_str(), hex(str(utf8(sp))).c_str(), hex(str(utf8(kp))).c_str(), b.size()));
    open_all("jks", JKS, b, Pw{utf8(sp), utf8(kp)}, w, g, 2); sig("jks" + shape); if (ci < 2) sample(run().cur);
}
static void add_bags(Rng &g, std::vector<Bytes> &bags, Want &w, const std::string &pw, int depth, std::string &shape, size_t n) {
    for (size_t i = 0; i < n; i++) {
        Bytes at = g.chance(1, 3) ? friendly("name") : Bytes(); unsigned k = (unsigned)g.below(20);
        if (k < 6) { KeyRec r = key_or_again(g, false, n > 10); want_rec(w, r, false); bags.push_back(bag(1, key_pkcs8(r), at)); shape += 'k'; }
        else if (k < 11) { KeyRec r = key_or_again(g, false, true); Bytes al, ct; Pbe pk = g.pick<Pbe>({PBE_DSTU, PBE_DSTU, PBE_AES, PBE_3DES}); if (!pbe_encrypt(pk, g, pw, (int)g.range(1, 20), key_pkcs8(r), al, ct)) harness_error("pbe"); want_rec(w, r, false); bags.push_back(bag(2, seq({al, octet(ct)}), at)); shape += fmt("s%d", pk); }
        else if (k < 16) { Bytes c = cert_or_again(g, [&] { return rand_cert(g, true, g.chance(1, 60) ? (stat("big_certs"), g.range(30000, 200000)) : 0); }); w.certs.push_back(c); bags.push_back(bag(3, cert_bag_value(c), at)); shape += 'c'; }
        else if (k < 18 && depth < 4) { std::vector<Bytes> in; shape += '('; add_bags(g, in, w, pw, depth + 1, shape, g.below(4)); shape += ')'; Bytes v; for (auto &x : in) v = cat({v, x}); bags.push_back(bag(6, der(0x30, v), at)); }
        else { bags.push_back(bag(5, seq({oid("1.2.840.113549.1.7.1"), ctx0(octet(g.bytes(g.below(20))))}), at)); shape += 'x'; }
    }
}
static void one_p12(long ci, Rng &g) {
    forget();
    trand().reset(g.next()); auto cps = rand_password(g); std::string pw = g.chance(1, 15) ? "" : utf8(cps); Want w; std::string shape; Bytes safes; size_t ns = g.range(1, 4);
    for (size_t i = 0; i < ns; i++) {
        std::vector<Bytes> bags; shape += '['; bool many = !i && g.chance(1, 40); if (many) stat("many_bags"); add_bags(g, bags, w, pw, 0, shape, many ? g.range(250, 500) : i ? g.below(4) : g.range(1, 5)); if (i + 1 == ns && w.keys_p8.empty() && w.certs.empty()) { Bytes c = rand_cert(g, true); w.certs.push_back(c); bags.push_back(bag(3, cert_bag_value(c))); shape += 'c'; }
        Bytes sc; for (auto &x : bags) sc = cat({sc, x}); sc = der(0x30, sc);
        if (g.chance(1, 2)) { safes = cat({safes, p7_data(sc)}); shape += 'd'; } else { Bytes al, ct; Pbe pk = g.pick<Pbe>({PBE_DSTU, PBE_AES, PBE_3DES}); if (!pbe_encrypt(pk, g, pw, (int)g.range(1, 20), sc, al, ct)) harness_error("pbe"); safes = cat({safes, p7_enc(al, ct)}); shape += fmt("e%d", pk); } shape += ']';
        if (g.chance(1, 12)) { safes = cat({safes, seq({oid("1.2.840.113549.1.7.5"), ctx0(seq({integer(Bn(0ul)), seq({oid("1.3.14.3.2.26"), der(5, {})}), seq({oid("1.2.840.113549.1.7.1")}), octet(g.bytes(20))}))})}); shape += 'D'; }   // a safe of another content type is not part of the store
    }
    const EVP_MD *md = g.chance(1, 3) ? eng().md : g.chance(1, 2) ? EVP_sha1() : EVP_sha256(); desc(fmt("p12 %s pw=%s mac=%d", shape.c_str(), hex(str(pw)).c_str(), EVP_MD_type(md))); Bytes b = p12_seal(der(0x30, safes), pw, g.bytes(g.range(8, 32)), (int)g.range(1, 30), md); if (b.empty()) harness_error("p12_seal");
    open_all("p12", P12, b, Pw{pw, ""}, w, g, 2); sig("p12" + shape); if (ci < 2) sample(run().cur);
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    if (run().mode == "key6") for_cases(one_key6); else if (run().mode == "jks") for_cases(one_jks); else for_cases(one_p12);
    ref::free_curves(); done_engine(); return finish_run();
}
