// C21: secrets do not linger. Every libcrypto heap block is scanned when it is released or moved; one released by the engine or keylib must not hold a private key, a
// nonce, a password or a symmetric key any more. Blocks libcrypto releases on its own account are not judged.
#include "containers.hpp"
#include "dernav.hpp"
#include <execinfo.h>
#include <link.h>
#include <openssl/cms.h>
using namespace cont;
struct Pat { std::string what; Bytes b; };
static std::vector<Pat> pats; static bool armed = false; static thread_local bool inhook = false; static long scanned = 0, scanned_bytes = 0, own_scanned = 0;
struct Hit { std::string what, where; }; static std::vector<Hit> hits;
static const char *base(const char *s) { const char *p = strrchr(s ? s : "?", '/'); return p ? p + 1 : s ? s : "?"; }
// only releases by the engine or keylib themselves: the hook's caller is one of them (CRYPTO_free tail-calls us), or a thin libcrypto release function (BN_free) is and
// nothing else lies between
static bool responsible(void *from, std::string &where) {
    void *f[64]; int n = backtrace(f, 64), i = 0; Dl_info d; auto mod = [&](int k) { return dladdr(f[k], &d) && d.dli_fname ? base(d.dli_fname) : "?"; };
    while (i < n && f[i] != from) i++; if (i >= n) { stat("lost_frames"); return false; }
    int via = 0; while (i < n && strstr(mod(i), "libcrypto")) { if (!d.dli_sname || !strstr(d.dli_sname, "_free")) { return false; } i++; if (++via > 2) return false; }
    if (i >= n) return false; const char *m = mod(i); if (!strstr(m, "dstu.so") && !strstr(m, "libkeylib")) return false;
    where = std::string(m) + ":" + (d.dli_sname ? d.dli_sname : "static") + fmt("+%lx", (long)((char *)f[i] - (char *)d.dli_fbase)); return true;
}
static void scan(const void *p, size_t n, void *from) {
    if (!armed || inhook || !p) return; inhook = true; scanned++; scanned_bytes += (long)n;
    for (auto &x : pats) if (x.b.size() >= 8 && n >= x.b.size() && memmem(p, n, x.b.data(), x.b.size())) { std::string w; if (responsible(from, w)) hits.push_back({x.what, w}); else stat("not_ours_" + x.what); }
    inhook = false;
}
// one allocation made on behalf of the engine or keylib may fail: what was built up to then has to be cleared as well
static long fault_at = 0, fault_n = 0; static bool fault_hit = false; static bool in_own(void *a);
static bool fault() {
    if (!fault_at || !armed || inhook || fault_hit) return false; inhook = true; void *f[64]; int n = backtrace(f, 64); bool ours = false; for (int i = 2; i < n && !ours; i++) ours = in_own(f[i]); inhook = false;
    if (ours && ++fault_n == fault_at) { fault_hit = true; return true; } return false;
}
static void *h_malloc(size_t n, const char *, int) { if (fault()) return nullptr; uint8_t *p = (uint8_t *)malloc(n + 16); if (!p) return nullptr; *(size_t *)p = n; memset(p + 16, 0x5a, n); return p + 16; }
static std::vector<std::pair<uintptr_t, uintptr_t>> own;
static bool in_own(void *a) { for (auto &r : own) if ((uintptr_t)a >= r.first && (uintptr_t)a < r.second) return true; return false; }
__attribute__((noinline)) static void h_free(void *q, const char *f, int) { if (!q) return; uint8_t *p = (uint8_t *)q - 16; scan(q, *(size_t *)p, __builtin_return_address(0)); if (armed && in_own(__builtin_return_address(0))) own_scanned++; memset(q, 0x5b, *(size_t *)p); free(p); }
static void *h_realloc(void *q, size_t n, const char *f, int l) { if (!q) return h_malloc(n, f, l); if (!n) { h_free(q, f, l); return nullptr; } uint8_t *p = (uint8_t *)q - 16; size_t o = *(size_t *)p; if (n <= o) { *(size_t *)p = n; return q; } void *r = h_malloc(n, f, l); if (r) { memcpy(r, q, o); h_free(q, f, l); } return r; }
// random values drawn inside a point multiplication are blinding values, not nonces or keys
static bool blinding() {
    void *f[64]; int n = backtrace(f, 64); Dl_info d; for (int i = 0; i < n && !in_own(f[i]); i++) if (dladdr(f[i], &d) && d.dli_sname && (strstr(d.dli_sname, "EC_POINT_") || strstr(d.dli_sname, "mod_inv"))) { stat("blinding_draws"); return true; }
    stat("secret_draws"); return false;
}
static void add(const std::string &w, Bytes b) { if (b.size() > 24) b.resize(24); if (b.size() < 8) return; std::set<uint8_t> z(b.begin(), b.end()); if (z.size() < 6) return; pats.push_back({w, b}); }
static void add_num(const std::string &w, const Bytes &be) { size_t i = 0; while (i < be.size() && !be[i]) i++; Bytes b(be.begin() + i, be.end()), l(b.rbegin(), b.rend()); add(w, b); add(w, l); }
static Bytes rnd; 
static void arm_scan(Rng &g) { fault_at = g.chance(1, 4) ? 1 + (long)g.below(g.pick<size_t>({6, 24, 80, 300})) : 0; fault_n = 0; fault_hit = false; pats.clear(); hits.clear(); rnd.clear(); trand().log = &rnd; armed = true; }
static void finish_scan(const std::string &op) { armed = false; trand().log = nullptr; if (fault_hit) stat("allocation_faults"); std::set<std::string> s; for (auto &h : hits) if (s.insert(h.what + h.where).second) viol("C21/" + h.what + ":" + op, h.where + " releases memory that still holds a " + h.what); stat("op_" + op); }
static KeyRec big_key(Rng &g, bool second) { for (;;) { KeyRec k = rand_key(g, second); if (k.d.bits() >= 100 && (!second || k.d2.bits() >= 100)) return k; } }
static void key_pats(const KeyRec &k) { add_num("private key", k.d.bytes(k.c->os())); if (k.c2) { Bytes b = k.d2.bytes(k.c2->os()); add_num("private key", b); add("private key", reversed_bits(b)); } }
static void one(long ci, Rng &g) {
    trand().reset(g.next()); int op = (int)g.below(9); std::string w;
    switch (op) {
    case 0: case 1: case 2: {
        KeyRec k = big_key(g, false); Bytes p8 = key_pkcs8(k); if (op && g.chance(1, 4)) { size_t i = g.below(p8.size()); p8[i] ^= 1 << g.below(8); } desc(fmt("key %d on %s ", op, k.c->name.c_str()) + k.d.str()); arm_scan(g); key_pats(k);
        w = op == 0 ? "decode" : op == 1 ? "encode" : "sign"; PKey p(ref::decode_priv(*k.c, k.d, k.le)); if (op == 1) { long fa = fault_at; bool late = g.chance(3, 4); if (late) fault_at = 0; PKey q(ref::decode_pkcs8(p8)); if (late) { fault_at = fa; fault_n = 0; } if (q) { Bytes e = ref::enc_pkcs8(q.get()); (void)e; ref::enc_spki(q.get()); } }
        if (op == 0) { PKey q(ref::decode_pkcs8(p8)); if (!q && p8.size() > 40) stat("refused"); }
        if (op == 2 && p) { Bytes t = g.bytes(32); size_t n = 2 * k.c->os() + 20; Bytes s(n); PCtx c(EVP_PKEY_CTX_new(p.get(), nullptr)); auto &tr = trand(); tr.feed = [&](unsigned char *b, int m) { for (int i = 0; i < m; i++) b[i] = tr.g.byte(); if (m >= 12 && !blinding()) { inhook = true; Bytes v(b, b + m); v.front() = 0; add_num("nonce", v); inhook = false; } return true; }; if (c && EVP_PKEY_sign_init(c.get()) == 1) (void)EVP_PKEY_sign(c.get(), s.data(), &n, t.data(), 32); c.reset(); tr.feed = nullptr; }
        p.reset(); break; }
    case 3: {
        w = "keygen"; ref::Curve *c = ref::any_curve(g, true); desc("keygen " + c->name); arm_scan(g); auto &tr = trand(); tr.feed = [&](unsigned char *b, int m) { for (int i = 0; i < m; i++) b[i] = tr.g.byte(); if (m >= 12 && !blinding()) { inhook = true; Bytes v(b, b + m); v.front() = 0; add_num("private key", v); inhook = false; } return true; };
        PCtx p(EVP_PKEY_CTX_new_id(NID_dstu4145le, nullptr)); EVP_PKEY *kk = nullptr; if (p && EVP_PKEY_keygen_init(p.get()) == 1 && EVP_PKEY_CTX_ctrl(p.get(), -1, -1, H_SET_CURVE, 0, c->grp) == 1) (void)EVP_PKEY_keygen(p.get(), &kk); p.reset(); if (kk) ref::enc_pkcs8(kk); EVP_PKEY_free(kk); tr.feed = nullptr; break; }
    case 4: { w = "cipher"; Bytes k = g.bytes(32), iv = g.bytes(8), in = g.bytes(g.range(1, 200)), o(in.size() + 8); desc("cipher"); bool zm = g.chance(1, 2); if (zm) trand().feed = [](unsigned char *b, int m) { memset(b, 0, m); return true; }; arm_scan(g); add("cipher key", k); { CCtx c(EVP_CIPHER_CTX_new()); int n; if (EVP_EncryptInit_ex(c.get(), eng().cipher, nullptr, k.data(), iv.data()) == 1) EVP_EncryptUpdate(c.get(), o.data(), &n, in.data(), (int)in.size()); if (g.chance(1, 2)) { CCtx d(EVP_CIPHER_CTX_new()); EVP_CIPHER_CTX_copy(d.get(), c.get()); } } trand().feed = nullptr; break; }
    case 5: { w = "hmac"; Bytes k = g.bytes(g.range(16, 32)), m = g.bytes(80), o(32); desc("hmac"); arm_scan(g); add("mac key", k); unsigned n; HMAC(eng().md, k.data(), (int)k.size(), m.data(), m.size(), o.data(), &n); break; }
    default: {
        Fmt f = op == 6 ? KEY6 : op == 7 ? JKS : P12; w = op == 6 ? "key6" : op == 7 ? "jks" : "p12"; KeyRec k = big_key(g, f != P12 && g.chance(1, 2)); auto pc = rand_password(g); Bytes p16 = utf16be(pc); std::string pw = utf8(pc); Pw pws{pw, pw}; Bytes b, p8 = key_pkcs8(k); std::string kp; Bytes kp16;
        if (f == KEY6) b = key6_wrap(p8, key6_key(pw), g.bytes(3), g.below(8), g.chance(3, 4), g.bytes(4));
        else if (f == JKS) { auto kc = rand_password(g); kp = utf8(kc); kp16 = utf16be(kc); pws.key = kp; std::vector<JksEntry> es; JksEntry e; e.pkcs8 = p8; if (g.chance(1, 12)) e.alg = "1.3.6.1.4.1.42.2.19.1"; if (g.chance(1, 2)) e.certs.push_back({rand_cert(g)}); es.push_back(e); b = jks_seal(jks_body(es, kp16, g.chance(1, 4)), p16); }
        else { Bytes al, ct; Pbe pk = g.pick({PBE_DSTU, PBE_AES, PBE_3DES}); if (!pbe_encrypt(pk, g, pw, 10, p8, al, ct)) return; Bytes sc = seq({bag(2, seq({al, octet(ct)}))}); Bytes as = seq({p7_data(sc)}); b = p12_seal(as, pw, g.bytes(8), 10, EVP_sha1()); }
        int how = (int)g.below(6); if (how == 1) pws.key += "x"; if (how == 2) pws.store += "x"; if (how == 3 && !b.empty()) b[g.below(b.size())] ^= 1 << g.below(8); if (how == 4 && f == JKS) b.resize(b.size() - g.range(1, 25));
        if (how == 5 && f == JKS && g.chance(1, 2)) { (g.chance(1, 2) ? pws.key : pws.store) += "\xff\x80"; stat("invalid_utf8"); }
        Via v = (Via)g.below(4); desc(fmt("%s how=%d via=%d size=%zu pw=%s", w.c_str(), how, v, b.size(), hex(p16).c_str())); arm_scan(g); key_pats(k); add("password", p16); add("password", kp16); add("password", Bytes(pw.begin(), pw.end())); add("password", Bytes(kp.begin(), kp.end()));
        if (f == KEY6) add("cipher key", key6_key(pw)); KeyStore *ks = nullptr; int r = open_via(v, f, b, pws, &ks, g.next()); if (r == 1 && ks) KeyStoreFree(ks); stat(r == 1 ? "opened" : "failed_opens"); break; }
    }
    finish_scan(w); if (ci < 3) sample(run().cur); sig(w + fmt("%d", (int)(fnv(run().cur) % 64)));
}
int main(int argc, char **argv) {
    if (CRYPTO_set_mem_functions(h_malloc, h_realloc, h_free) != 1) harness_error("mem functions"); { void *f[4]; backtrace(f, 4); }
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) { if (strstr(i->dlpi_name, "dstu.so") || strstr(i->dlpi_name, "libkeylib")) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) own.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz}); return 0; }, nullptr);
    if (own.empty()) harness_error("modules not found");
    for_cases(one); stat("blocks_scanned", scanned); stat("engine_blocks_scanned", own_scanned); stat("bytes_scanned", scanned_bytes);
    ref::free_curves(); done_engine(); return finish_run();
}
