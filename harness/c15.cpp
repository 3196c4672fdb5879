// C15: what an open leaves behind. Monitors: per-execution heap balance, ASan on every later use, destroy counter of the caller's BIO, state of the caller's FILE,
// values of keys and certificates before/after the inputs are destroyed and the store is freed. Faults: random source, iconv_open, read errors, missing algorithms.
#include "hostile.hpp"
#include "containers.hpp"
#include <iconv.h>
using namespace cont;
static int g_iconv_fail = -1, g_iconv_calls = 0;
extern "C" iconv_t iconv_open(const char *to, const char *from) {   // the library's own call resolves here
    static iconv_t (*real)(const char *, const char *) = (iconv_t(*)(const char *, const char *))dlsym(RTLD_NEXT, "iconv_open");
    if (g_iconv_fail >= 0 && g_iconv_calls++ == g_iconv_fail) { errno = EMFILE; return (iconv_t)-1; }
    return real(to, from);
}
// ---- a caller's BIO that counts its destruction and can fail
struct MyBio { const Bytes *b; size_t pos = 0, maxc = 1024; long fail_after = -1; int mode = 0; int destroyed = 0; };
static int mb_read(BIO *b, char *o, size_t n, size_t *r) {
    auto *s = (MyBio *)BIO_get_data(b); BIO_clear_retry_flags(b); *r = 0; size_t left = s->b->size() - s->pos; if (s->fail_after >= 0) left = std::min(left, (size_t)s->fail_after > s->pos ? (size_t)s->fail_after - s->pos : 0);
    size_t k = std::min({n, left, s->maxc}); if (!k) { if (s->mode == 1) return -1; return 0; } memcpy(o, s->b->data() + s->pos, k); s->pos += k; *r = k; return 1;
}
static long mb_ctrl(BIO *b, int cmd, long, void *) { auto *s = (MyBio *)BIO_get_data(b); if (cmd == BIO_CTRL_RESET) { s->pos = 0; return 1; } return cmd == BIO_CTRL_FLUSH; }
static int mb_destroy(BIO *b) { auto *s = (MyBio *)BIO_get_data(b); if (s) s->destroyed++; return 1; }
static BIO_METHOD *mb_method() { static BIO_METHOD *m = [] { BIO_METHOD *x = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "mine"); BIO_meth_set_read_ex(x, mb_read); BIO_meth_set_ctrl(x, mb_ctrl); BIO_meth_set_destroy(x, mb_destroy); return x; }(); return m; }

struct Box { Fmt f; Bytes b; Pw pw; size_t nk = 0, nc = 0; };
static const char *fn[] = {"key6", "jks", "p12"};
static Box good_box(Rng &g, Fmt f) {
    Box x; x.f = f;
    if (f == KEY6) { KeyRec k = rand_key(g, g.chance(1, 2), true); x.pw.store = g.pick<std::string>({"tect4", "pw", "\xff\xfe q"}); x.b = key6_wrap(key_pkcs8(k), key6_key(x.pw.store), g.bytes(3), g.below(8), g.chance(3, 4), g.bytes(4)); x.nk = k.c2 ? 2 : 1; }
    else if (f == JKS) { auto sp = rand_password(g), kp = rand_password(g); std::vector<JksEntry> es; for (size_t n = g.range(1, 4), i = 0; i < n; i++) { JksEntry e; e.tag = g.chance(1, 3) ? 2 : 1; e.salt = g.bytes(20); if (e.tag == 1) { KeyRec k = rand_key(g, g.chance(1, 3), true); e.pkcs8 = key_pkcs8(k); x.nk += k.c2 ? 2 : 1; } for (size_t c = e.tag == 2 ? 1 : g.below(3); c--;) { JksCert jc; jc.der = rand_cert(g, true); e.certs.push_back(jc); x.nc++; } es.push_back(e); } x.b = jks_seal(jks_body(es, utf16be(kp), g.chance(1, 2)), utf16be(sp)); x.pw = Pw{utf8(sp), utf8(kp)}; }
    else { x.pw.store = utf8(rand_password(g)); Bytes safes; for (size_t n = g.range(1, 3), i = 0; i < n; i++) { Bytes bags; for (size_t m = g.range(1, 3); m--;) { switch (g.below(4)) { case 0: bags = cat({bags, bag(1, key_pkcs8(rand_key(g, false, true)))}); x.nk++; break; case 1: { Bytes al, ct; if (!pbe_encrypt(g.pick<Pbe>({PBE_DSTU, PBE_AES}), g, x.pw.store, 2, key_pkcs8(rand_key(g, false, true)), al, ct)) harness_error("pbe"); bags = cat({bags, bag(2, seq({al, octet(ct)}))}); x.nk++; break; } case 2: bags = cat({bags, bag(3, cert_bag_value(rand_cert(g, true)))}); x.nc++; break; default: bags = cat({bags, bag(6, der(0x30, bag(3, cert_bag_value(rand_cert(g, true)))))}); x.nc++; } }
            Bytes sc = der(0x30, bags); if (g.chance(1, 2)) safes = cat({safes, p7_data(sc)}); else { Bytes al, ct; if (!pbe_encrypt(g.pick<Pbe>({PBE_DSTU, PBE_AES}), g, x.pw.store, 2, sc, al, ct)) harness_error("pbe"); safes = cat({safes, p7_enc(al, ct)}); } }
        x.b = p12_seal(der(0x30, safes), x.pw.store, g.bytes(8), 2, g.chance(1, 3) ? eng().md : EVP_sha1()); if (x.b.empty()) harness_error("seal"); }
    return x;
}
// the second, third... part of the container is broken, so that part of the work is already done when the reader gives up
static void break_box(Box &x, Rng &g, std::string &how) {
    switch (g.below(7)) {
    case 0: x.b.resize(g.below(x.b.size())); how = "truncated"; break;
    case 1: x.b[g.below(x.b.size())] ^= (uint8_t)(1 << g.below(8)); how = "bitflip"; break;
    case 2: x.pw.store += "!"; how = "store-password"; break;
    case 3: x.pw.key += "!"; if (x.f != JKS) x.pw.store.clear(); how = "key-password"; break;
    case 4: x.b = g.bytes(g.below(100)); how = "garbage"; break;
    case 5: x.b.clear(); how = "empty"; break;
    default:   // sealed correctly, but the last element cannot be decoded
        how = "late-failure";
        if (x.f == JKS) { auto sp = rand_password(g), kp = rand_password(g); std::vector<JksEntry> es; size_t n = g.range(1, 4); for (size_t i = 0; i < n; i++) { JksEntry e; e.tag = 1; e.salt = g.bytes(20); e.pkcs8 = key_pkcs8(rand_key(g, g.chance(1, 2), true)); for (size_t c = g.below(3); c--;) { JksCert jc; jc.der = rand_cert(g, true); e.certs.push_back(jc); } if (i + 1 == n) { switch (g.below(4)) { case 0: e.pkcs8.resize(e.pkcs8.size() / 2); break; case 1: { JksCert jc; jc.der = rand_cert(g, true); jc.der.resize(jc.der.size() / 2); e.certs.push_back(jc); break; } case 2: e.tag = 3; break; default: e.alg = "1.3.6.1.4.1.42.2.19.1"; } } es.push_back(e); } x.b = jks_seal(jks_body(es, utf16be(kp), g.chance(1, 2)), utf16be(sp)); x.pw = Pw{utf8(sp), utf8(kp)}; }
        else if (x.f == P12) { Bytes bags; for (size_t m = g.range(1, 3); m--;) bags = cat({bags, g.chance(1, 2) ? bag(1, key_pkcs8(rand_key(g, false, true))) : bag(3, cert_bag_value(rand_cert(g, true)))}); KeyRec k = rand_key(g, false, true); Bytes bad = key_pkcs8(k); switch (g.below(3)) { case 0: bad = seq({integer(Bn(0ul)), seq({oid("1.2.3.4")}), octet(g.bytes(20))}); bags = cat({bags, bag(1, bad)}); break; case 1: { Bytes al, ct; pbe_encrypt(PBE_DSTU, g, x.pw.store + "x", 2, bad, al, ct); bags = cat({bags, bag(2, seq({al, octet(ct)}))}); break; } default: bags = cat({bags, bag(3, seq({oid("1.2.840.113549.1.9.22.2"), ctx0(octet(g.bytes(20)))}))}); } for (size_t d = g.chance(1, 2) ? g.range(1, 3) : 0; d--;) { bags = bag(6, der(0x30, bags)); if (g.chance(1, 2)) bags = cat({bags, bag(3, cert_bag_value(rand_cert(g, true)))}); } x.b = p12_seal(der(0x30, p7_data(der(0x30, bags))), x.pw.store, g.bytes(8), 2, EVP_sha1()); }
        else { KeyRec k = rand_key(g, true, true); Bytes p = key_pkcs8(k); x.b = key6_wrap(mutate_der(p, g), key6_key(x.pw.store = "pw"), g.bytes(3), g.below(8), true, g.bytes(4)); }
    }
}
static void add_store(Outcome &o, KeyStore *ks, std::vector<std::pair<EVP_PKEY *, Bytes>> &ks1, std::vector<std::pair<X509 *, Bytes>> &cs1) {
    size_t nk = KeyStoreKeyNum(ks), nc = KeyStoreCertNum(ks); o.add("nk", (long)nk); o.add("nc", (long)nc);
    for (size_t i = 0; i < nk; i++) { EVP_PKEY *k = (EVP_PKEY *)KeyStoreGetKey(ks, i); if (!k) { viol("C15/null-key", fmt("key %zu of %zu is NULL", i, nk)); continue; } Bytes e = ref::enc_pkcs8(k); o.add("k", e); ks1.push_back({k, e}); }
    for (size_t i = 0; i < nc; i++) { X509 *c = (X509 *)KeyStoreGetCert(ks, i); if (!c) { viol("C15/null-cert", fmt("certificate %zu of %zu is NULL", i, nc)); continue; } Bytes e = x509_der(c); o.add("c", e); cs1.push_back({c, e}); }
    for (size_t p : {nk, nk + 1, nk + 1000, (size_t)-1, (size_t)-1 / 8, (size_t)1 << 61, (size_t)1 << 32}) if (p >= nk && KeyStoreGetKey(ks, p)) viol("C15/outside", fmt("key position %zu of %zu is not NULL", p, nk));
    for (size_t p : {nc, nc + 1, nc + 1000, (size_t)-1, (size_t)-1 / 8, (size_t)1 << 61, (size_t)1 << 32}) if (p >= nc && KeyStoreGetCert(ks, p)) viol("C15/outside", fmt("certificate position %zu of %zu is not NULL", p, nc));
}
static void one(long ci, Rng &g) {
    trand().reset(g.next()); Fmt f = run().mode == "key6" ? KEY6 : g.chance(1, 2) ? JKS : P12; Box x = good_box(g, f); std::string how = "good"; bool good = g.chance(1, 2); if (!good) break_box(x, g, how);
    Via v = g.pick<Via>({MEM, BIOM, CHUNK, FILEP}); uint64_t rs = g.next(); Rng gs(g.next()); int fault = good ? (int)g.below(8) : (int)g.below(20); long fail_at = (long)g.below(g.chance(1, 2) ? 4 : 60); std::string fs = "none"; if (fault == 0) fs = "random"; else if (fault == 1 && f == JKS) fs = "iconv"; else if (fault == 2 && v == CHUNK) fs = "read-error"; else if (fault == 3) fs = "no-key-methods"; else if (fault == 4 && v == FILEP) fs = "write-only-file"; int icf = (int)g.below(3); size_t off = g.chance(1, 3) ? g.range(1, 2000) : 0; size_t cut = g.below(x.b.size() + 1);
    std::string K = std::string(fn[f]) + ":" + how + ":" + fs; desc(fmt("%s via=%d size=%zu pw=%s/%s failat=%ld off=%zu ", K.c_str(), v, x.b.size(), hex(str(x.pw.store)).substr(0, 40).c_str(), hex(str(x.pw.key)).substr(0, 40).c_str(), fail_at, off) + shorthex(x.b, 1200));
    Outcome o = guarded("C15", K, [&](Outcome &o) {
        Rng gu = gs; KeyStore *ks = nullptr; int r = -1; const Bytes &b = x.b; Bytes pws = str(x.pw.store), pwk = str(x.pw.key), keeps = pws, keepk = pwk; std::unique_ptr<Exact> es(new Exact(pws)), ek(new Exact(pwk)); const char *ps = (const char *)exact_ptr(*es), *pk = (const char *)exact_ptr(*ek);
        auto call_parse = [&](const uint8_t *p, size_t n) { return f == KEY6 ? parseKey6(p, n, ps, pws.size(), &ks) : f == JKS ? parseJKS(p, n, ps, pws.size(), pk, pwk.size(), &ks) : parsePKCS12(p, n, ps, pws.size(), &ks); };
        auto call_bio = [&](BIO *m) { return f == KEY6 ? readKey6_bio(m, ps, pws.size(), &ks) : f == JKS ? readJKS_bio(m, ps, pws.size(), pk, pwk.size(), &ks) : readPKCS12_bio(m, ps, pws.size(), &ks); };
        auto call_file = [&](FILE *m) { return f == KEY6 ? readKey6(m, ps, pws.size(), &ks) : f == JKS ? readJKS(m, ps, pws.size(), pk, pwk.size(), &ks) : readPKCS12(m, ps, pws.size(), &ks); };
        if (fs == "random") { trand().fail_at = fail_at; trand().sticky = gu.chance(1, 2); } if (fs == "iconv") { g_iconv_fail = icf; g_iconv_calls = 0; } if (fs == "no-key-methods") { ENGINE_unregister_pkey_asn1_meths(eng().e); ENGINE_unregister_pkey_meths(eng().e); ENGINE_unregister_digests(eng().e); ENGINE_unregister_ciphers(eng().e); }
        auto faults_off = [&] { trand().fail_at = -1; g_iconv_fail = -1; if (fs == "no-key-methods") { ENGINE_set_default(eng().e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND); } };
        if (v == MEM) { Exact e(b); r = call_parse(exact_ptr(e), e.n); faults_off(); if (e.n && memcmp(e.p, b.data(), e.n)) viol("C15/input-modified:" + K, "the caller's buffer was written"); if (e.n) memset(e.p, 0x5a, e.n); }
        else if (v == BIOM) { BIO *m = BIO_new(BIO_s_mem()); Bytes pre = gu.bytes(off); if (off) { BIO_write(m, pre.data(), (int)off); } if (!b.empty()) BIO_write(m, b.data(), (int)b.size()); if (off) { Bytes t(off); BIO_read(m, t.data(), (int)off); } r = call_bio(m); faults_off(); if (BIO_write(m, "after", 5) != 5) viol("C15/bio-unusable:" + K, "the caller's BIO no longer takes data"); char t[8]; int n = BIO_read(m, t, 8); o.add("after", n); if (r == 1 && (n != 5 || memcmp(t, "after", 5))) viol("C15/bio-unusable:" + K, "the caller's BIO does not return what is written next"); if (BIO_free(m) != 1) viol("C15/bio-freed:" + K, "the caller's BIO is gone"); }
        else if (v == CHUNK) { MyBio s; s.b = &b; s.maxc = gu.pick<size_t>({1, 3, 512, 1023, 1024, 4096}); if (fs == "read-error") { s.fail_after = (long)cut; s.mode = (int)gu.below(2); } BIO *m = BIO_new(mb_method()); BIO_set_data(m, &s); BIO_set_init(m, 1); BIO *chain = gu.chance(1, 3) ? BIO_push(BIO_new(BIO_f_buffer()), m) : m; r = call_bio(chain); faults_off(); if (s.destroyed) viol("C15/bio-freed:" + K, "the caller's BIO was freed by the reader"); else { if (chain != m && BIO_next(chain) != m) viol("C15/bio-chain:" + K, "the caller's BIO chain was changed"); s.fail_after = -1; s.pos = 0; char t[4]; size_t n = 0; int q = b.empty() ? 0 : BIO_read_ex(m, t, 1, &n); if (!b.empty() && (q != 1 || n != 1 || (uint8_t)t[0] != b[0])) viol("C15/bio-unusable:" + K, "the caller's BIO cannot be read again"); BIO_free_all(chain); if (s.destroyed != 1) viol("C15/bio-freed:" + K, fmt("the caller's BIO was destroyed %d times after its own free", s.destroyed)); } }
        else { Bytes pre = gu.bytes(off); std::string path = tmpfile_path(); FILE *fp = as_file(cat({pre, b})); if (fs == "write-only-file") { fclose(fp); fp = fopen(path.c_str(), "r+b"); FILE *w = fopen(path.c_str(), "ab"); fclose(fp); fp = w; } else if (off) { Bytes t(off); if (fread(t.data(), 1, off, fp) != off) harness_error("fread"); }
            int fd = fileno(fp); r = call_file(fp); faults_off(); if (fcntl(fd, F_GETFD) < 0) viol("C15/file-closed:" + K, "the caller's FILE was closed"); else if (fs != "write-only-file") { clearerr(fp); rewind(fp); Bytes t(off + b.size() + 1); size_t n = fread(t.data(), 1, t.size(), fp); t.resize(n); if (t != cat({pre, b})) viol("C15/file-unusable:" + K, fmt("the caller's FILE reads %zu bytes, has %zu", n, off + b.size())); }
            if (fclose(fp)) viol("C15/file-unusable:" + K, "fclose of the caller's FILE failed"); }
        if ((es->n && memcmp(es->p, keeps.data(), es->n)) || (ek->n && memcmp(ek->p, keepk.data(), ek->n))) viol("C15/input-modified:" + K, "the caller's password was written"); if (es->n) memset(es->p, 0x5a, es->n); if (ek->n) memset(ek->p, 0x5a, ek->n); es.reset(); ek.reset();
        o.add("r", r); if (r != 0 && r != 1) viol("C15/return:" + K, fmt("returned %d", r));
        if (r != 1) { stat("failed_opens"); stat("failed_" + fs); if (gu.chance(1, 2)) { KeyStoreFree(ks); ks = nullptr; stat("cleanup_free"); } else if (ks) viol("C15/store-after-failure:" + K, "a failed open left a store behind"); if (good && fs == "none") viol("C15/refused:" + K, "a well-formed container was refused"); return; }
        stat("opened"); if (!ks) { viol("C15/no-store:" + K, "success without a store"); return; }
        std::vector<std::pair<EVP_PKEY *, Bytes>> kv; std::vector<std::pair<X509 *, Bytes>> cv; add_store(o, ks, kv, cv); if (good && fs == "none" && (kv.size() != x.nk || cv.size() != x.nc)) viol("C15/count:" + K, fmt("%zu keys, %zu certificates, stored %zu and %zu", kv.size(), cv.size(), x.nk, x.nc));
        // another store opened and freed in between does not matter
        if (f != KEY6 && gu.chance(1, 3)) { KeyStore *k2 = nullptr; Exact e(b); if (parse(f, exact_ptr(e), e.n, x.pw, &k2) == 1) { for (size_t i = 0; i < KeyStoreKeyNum(k2); i++) if (i < kv.size() && KeyStoreGetKey(k2, i) == kv[i].first) viol("C15/shared:" + K, "two stores share a key object"); KeyStoreFree(k2); } stat("second_store"); }
        std::vector<std::pair<EVP_PKEY *, Bytes>> rk; std::vector<std::pair<X509 *, Bytes>> rc; for (auto &k : kv) { if (ref::enc_pkcs8(k.first) != k.second) viol("C15/key-changed:" + K, "a key changed while the store is open"); if (gu.chance(1, 2)) { EVP_PKEY_up_ref(k.first); rk.push_back(k); } } for (auto &c : cv) { if (x509_der(c.first) != c.second) viol("C15/cert-changed:" + K, "a certificate changed while the store is open"); if (gu.chance(1, 2)) { X509_up_ref(c.first); rc.push_back(c); } }
        if (!kv.empty() && gu.chance(1, 2)) { Bytes t = gu.bytes(20); EVP_PKEY *k = kv[gu.below(kv.size())].first; Bytes sg = ref::pkey_sign(k, t); o.add("sign", !sg.empty()); if (!sg.empty()) o.add("ver", ref::pkey_verify(k, sg, t)); }
        KeyStoreFree(ks);
        for (auto &k : rk) { Bytes e = ref::enc_pkcs8(k.first); if (e != k.second) viol("C15/key-after-free:" + K, "a referenced key changed when the store was freed"); EVP_PKEY_free(k.first); stat("surviving_keys"); }
        for (auto &c : rc) { if (x509_der(c.first) != c.second) viol("C15/cert-after-free:" + K, "a referenced certificate changed when the store was freed"); EVP_PKEY *k = X509_get0_pubkey(c.first); o.add("ck", k != nullptr); X509_free(c.first); stat("surviving_certs"); }
    }, rs, 60000, (4u << 20) + 64 * x.b.size(), 8000000); g_iconv_fail = -1; KeyStoreFree(nullptr);
    sig(mix(o.h, fnv(K))); stat("t_" + K); if (ci < 2) sample(run().cur.substr(0, 300));
}
int main(int argc, char **argv) {
    init_heap_monitor(); parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    for_cases(one); ref::free_curves(); done_engine(); return finish_run();
}
