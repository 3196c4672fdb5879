// C14: containers open only with the right password and only untampered. Oracle: the writer knows the password and which bytes are protected;
// every near-miss password and every changed protected byte must fail without delivering a store.
#include "containers.hpp"
using namespace cont;
typedef std::vector<uint32_t> Cps;
// passwords that differ from p in one place (code-point space, so that two encodings of the same text never count as different)
static std::vector<Cps> near_misses(Rng &g, const Cps &p, bool nul) {
    std::vector<Cps> v; auto add = [&](Cps x) { if (x != p && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); };
    if (!p.empty()) {
        Cps x = p; x.pop_back(); add(x);                                   // last character missing
        x = p; x.erase(x.begin()); add(x);                                 // first character missing
        x = p; x.back() ^= 1; add(x); x = p; x[0] ^= 1; add(x);
        size_t i = g.below(p.size()); x = p; x[i] ^= 1u << g.below(7); if (x[i] >= 0x20) add(x);
        x = p; x[i] ^= 0x20; if (x[i] >= 0x20) add(x);                      // letter case
        x = p; if (x[i] < 0x10000) { x[i] ^= 0x100; if (x[i] < 0xd800 || x[i] > 0xdfff) add(x); }   // same low byte, other high byte
        x = p; if (x[i] < 0xff) { x[i] |= 0x400; add(x); }
        if (p.size() > 1) { x = p; std::swap(x[0], x.back()); add(x); x = p; x.resize(p.size() / 2); add(x); }
        if (p.size() > 8) { x = p; x.resize(8); add(x); }
    }
    Cps x = p; x.push_back('x'); add(x); for (uint32_t ws : {' ', '\n', '\r', '\t'}) { x = p; x.push_back(ws); add(x); } x = p; x.push_back('\r'); x.push_back('\n'); add(x); x = p; x.insert(x.begin(), g.pick<uint32_t>({' ', '\t', '\n', 0xfeff})); add(x); for (auto &c : x = p) if (c >= 'A' && c <= 'Z') c += 32; add(x); for (auto &c : x = p) if (c >= 'a' && c <= 'z') c -= 32; add(x); x = p; x.insert(x.end(), p.begin(), p.end()); if (nul) add(x);
    if (nul) { x = p; x.push_back(0); add(x); x = p; if (!x.empty()) { x[g.below(x.size())] = 0; add(x); } }
    add(Cps()); Cps r; for (size_t n = g.range(1, 12); n--;) r.push_back((uint32_t)g.range(33, 126)); add(r);
    return v;
}
static Via pick_via(Rng &g) { return g.chance(7, 8) ? MEM : g.pick<Via>({BIOM, CHUNK, FILEP}); }
static void must_fail(const char *f, const char *what, Fmt fm, const Bytes &b, const Pw &pw, Rng &g, const std::string &more) {
    KeyStore *ks = nullptr; int r = open_via(pick_via(g), fm, b, pw, &ks, g.next());
    if (r || ks) { viol(fmt("C14/%s:%s", what, f), fmt("opened (returned %d, %zu keys): ", r, ks ? KeyStoreKeyNum(ks) : 0) + more); if (r == 1) KeyStoreFree(ks); }
    stat(fmt("%s_%s", f, what)); sig(fmt("%s%s", f, what) + more.substr(0, 40));
}
static bool must_open(const char *f, Fmt fm, const Bytes &b, const Pw &pw, size_t nk) {
    KeyStore *ks = nullptr; int r = open_via(MEM, fm, b, pw, &ks); bool ok = r == 1 && ks && KeyStoreKeyNum(ks) == nk; if (!ok) viol(fmt("C14/right-password:%s", f), fmt("the right passwords do not open it (%d)", r)); if (r == 1) KeyStoreFree(ks); stat("opened_right"); return ok;
}
static std::string show(const Cps &c) { return hex(str(utf8(c))); }
static Cps nonempty(Rng &g) { Cps c; do c = rand_password(g); while (c.empty()); return c; }

static void one_jks(long ci, Rng &g) {
    trand().reset(g.next()); Cps sp = nonempty(g), kp = g.chance(1, 5) ? sp : nonempty(g); bool jc = g.chance(1, 2); std::vector<JksEntry> es; size_t nk = 0, keys = 0, n = g.range(1, 3);
    for (size_t i = 0; i < n; i++) { JksEntry e; e.tag = i && g.chance(1, 3) ? 2 : g.chance(1, 6) ? 2 : 1; e.alias = "a" + std::to_string(i); e.ts = g.bytes(8); e.salt = g.bytes(20); if (e.tag == 1) { KeyRec k = rand_key(g, g.chance(1, 4), true); e.pkcs8 = key_pkcs8(k); nk += k.c2 ? 2 : 1; keys++; } for (size_t c = e.tag == 2 ? 1 : g.below(2); c--;) { JksCert jcx; jcx.der = rand_cert(g, true); e.certs.push_back(jcx); } es.push_back(e); }
    Bytes kp16 = utf16be(kp), sp16 = utf16be(sp), b = jks_seal(jks_body(es, kp16, jc), sp16); Pw right{utf8(sp), utf8(kp)}; std::string base = fmt("jks entries=%zu keys=%zu storepw=%s keypw=%s size=%zu", n, nk, show(sp).c_str(), show(kp).c_str(), b.size()); desc(base); if (ci < 1) sample(base);
    if (!must_open("jks", JKS, b, right, nk)) return;
    // the password with something that is not UTF-8 in it
    auto broken = [&](const Cps &c) { std::string u = utf8(c); std::vector<std::string> v; for (const char *e : {"\xff", "\xc3", "\xffmore", "\xf0\x9f\x98", "\xc0\x80", "\xed\xa0\x80", "\x80"}) v.push_back(u + e); v.push_back("\xff" + u); v.push_back("\xef\xbb\xbf" + u); v.push_back(utf8(Cps(c.begin(), c.begin() + c.size() / 2)) + "\xfe" + utf8(Cps(c.begin() + c.size() / 2, c.end()))); if ((unsigned char)u[0] < 0x80) { std::string o; o += (char)(0xc0 | ((unsigned char)u[0] >> 6)); o += (char)(0x80 | (u[0] & 0x3f)); v.push_back(o + u.substr(1)); } return v; };
    for (auto &w : broken(sp)) must_fail("jks", "store-password-utf8", JKS, b, Pw{w, right.key}, g, "store password " + hex(str(w)));
    if (keys) for (auto &w : broken(kp)) must_fail("jks", "key-password-utf8", JKS, b, Pw{right.store, w}, g, "key password " + hex(str(w)));
    for (auto &w : near_misses(g, sp, true)) must_fail("jks", "store-password", JKS, b, Pw{utf8(w), right.key}, g, "store password " + show(w));
    if (keys) for (auto &w : near_misses(g, kp, true)) must_fail("jks", "key-password", JKS, b, Pw{right.store, utf8(w)}, g, "key password " + show(w));
    if (sp != kp) { must_fail("jks", "store-password", JKS, b, Pw{right.key, right.key}, g, "key password used for both"); if (keys) must_fail("jks", "key-password", JKS, b, Pw{right.store, right.store}, g, "store password used for both"); }
    size_t step = run().thorough || g.chance(1, 8) ? 1 : g.range(2, 9);
    for (size_t i = g.below(step); i < b.size(); i += step) { if (b.size() - i > 20 && i > 40 && step > 1 && g.chance(1, 3)) continue; Bytes t = b; t[i] ^= (uint8_t)(1 << g.below(8)); must_fail("jks", "tampered-byte", JKS, t, right, g, fmt("byte %zu of %zu changed", i, b.size())); }
    for (size_t i = b.size() - 20; i < b.size(); i++) { Bytes t = b; t[i] ^= (uint8_t)g.range(1, 255); must_fail("jks", "tampered-digest", JKS, t, right, g, fmt("digest byte %zu changed", i + 20 - b.size())); }
    { Bytes t = b; t.resize(b.size() - g.range(1, 20)); must_fail("jks", "truncated-digest", JKS, t, right, g, "digest cut"); std::fill(t.end() - std::min<size_t>(t.size(), 1), t.end(), 0); }
    { Bytes t = b; std::fill(t.end() - 20, t.end(), 0); must_fail("jks", "tampered-digest", JKS, t, right, g, "zero digest"); t.resize(t.size() - 20); Bytes d = sha1({t}); must_fail("jks", "tampered-digest", JKS, cat({t, d}), right, g, "unkeyed digest"); d = sha1({sp16, t}); must_fail("jks", "tampered-digest", JKS, cat({t, d}), right, g, "digest without the fixed text"); }
    // a writer who knows only the store password: the key protector's own digest still refuses
    for (size_t e = 0; e < es.size(); e++) if (es[e].tag == 1) {
        Bytes prot = key_protect(es[e].pkcs8, kp16, es[e].salt); auto rebuild = [&](const Bytes &pr) { Bytes p = seq({seq({oid(es[e].alg), der(5, {})}), octet(pr)}); Bytes body = cat({u32(jc ? 0xcececece : 0xfeedfeed), u32(2), u32((uint32_t)es.size())}); for (size_t k = 0; k < es.size(); k++) if (k != e) body = cat({body, jks_entry(es[k], kp16)}); else { body = cat({body, u32(1), u16((unsigned)es[k].alias.size()), str(es[k].alias), es[k].ts, u32((uint32_t)p.size()), p, u32((uint32_t)es[k].certs.size())}); for (auto &c : es[k].certs) body = cat({body, jks_cert(c)}); } return jks_seal(body, sp16); };
        if (rebuild(prot) != b) harness_error("jks rebuild");
        std::vector<size_t> pos; for (size_t i = 0; i < 20; i++) { pos.push_back(i); pos.push_back(prot.size() - 1 - i); } for (int i = 0; i < 12; i++) pos.push_back(g.below(prot.size()));
        for (size_t i : pos) { Bytes t = prot; t[i] ^= (uint8_t)(1 << g.below(8)); must_fail("jks", "resealed-key", JKS, rebuild(t), right, g, fmt("protected key byte %zu of %zu changed, resealed", i, prot.size())); }
        { Bytes other = key_protect(es[e].pkcs8, utf16be(near_misses(g, kp, false)[0]), es[e].salt); must_fail("jks", "mixed-passwords", JKS, rebuild(other), right, g, fmt("entry %zu under another key password", e)); }
        { Bytes t = prot; for (size_t i = 20; i + 20 < t.size(); i++) t[i] = 0; must_fail("jks", "resealed-key", JKS, rebuild(t), right, g, "protected key zeroed"); }
    }
}
static void one_p12(long ci, Rng &g) {
    trand().reset(g.next()); Cps pw = g.chance(1, 12) ? Cps() : nonempty(g); std::string p = utf8(pw); KeyRec r = rand_key(g, false, true); Bytes al, ct; bool shroud = g.chance(1, 2), enc = g.chance(1, 2); Pbe k1 = g.pick<Pbe>({PBE_DSTU, PBE_DSTU, PBE_AES, PBE_3DES}), k2 = g.pick<Pbe>({PBE_DSTU, PBE_AES, PBE_3DES});
    std::string inner = p, keypw = p; bool mixed = g.chance(1, 5), mixkey = mixed && g.chance(1, 2); if (mixkey) { shroud = true; keypw = utf8(near_misses(g, pw, false)[0]); } else if (mixed) { enc = true; inner = utf8(near_misses(g, pw, false)[0]); }
    Bytes kb; if (shroud) { if (!pbe_encrypt(k1, g, keypw, (int)g.range(1, 8), key_pkcs8(r), al, ct)) harness_error("pbe"); kb = bag(2, seq({al, octet(ct)})); } else kb = bag(1, key_pkcs8(r));
    Bytes cert = rand_cert(g, true), sc = der(0x30, cat({kb, bag(3, cert_bag_value(cert))})); Bytes safes; if (enc) { if (!pbe_encrypt(k2, g, inner, (int)g.range(1, 8), sc, al, ct)) harness_error("pbe"); safes = p7_enc(al, ct); } else safes = p7_data(sc);
    const EVP_MD *md = g.chance(1, 2) ? eng().md : g.chance(1, 2) ? EVP_sha1() : EVP_sha256(); Bytes as = der(0x30, safes), salt = g.bytes(g.range(8, 24)); Bytes b = p12_seal(as, p, salt, (int)g.range(1, 12), md); if (b.empty()) harness_error("seal"); Pw right{p, ""};
    std::string base = fmt("p12 shroud=%d/%d enc=%d/%d mac=%d pw=%s size=%zu", shroud, k1, enc, k2, EVP_MD_type(md), show(pw).c_str(), b.size()); desc(base); if (ci < 1) sample(base);
    if (mixed) { must_fail("p12", "mixed-passwords", P12, b, right, g, mixkey ? "key under another password" : "safe under another password"); return; }
    if (!must_open("p12", P12, b, right, 1)) return;
    for (auto &w : near_misses(g, pw, false)) must_fail("p12", "password", P12, b, Pw{utf8(w), ""}, g, "password " + show(w));
    size_t off = std::search(b.begin(), b.end(), as.begin(), as.end()) - b.begin(); if (off + as.size() > b.size()) harness_error("p12 layout");
    size_t step = run().thorough ? 1 : g.range(4, 11); for (size_t i = off + g.below(step); i < off + as.size(); i += step) { Bytes t = b; t[i] ^= (uint8_t)(1 << g.below(8)); must_fail("p12", "tampered-byte", P12, t, right, g, fmt("content byte %zu of %zu changed", i - off, as.size())); }
    size_t so = std::search(b.begin() + off + as.size(), b.end(), salt.begin(), salt.end()) - b.begin(), ml = (size_t)EVP_MD_size(md), mo = so - 2 - ml; if (so >= b.size() || b[mo - 1] != ml || b[mo - 2] != 4) harness_error("p12 mac layout");
    for (size_t i = 0; i < ml; i++) { Bytes t = b; t[mo + i] ^= (uint8_t)(1 << g.below(8)); must_fail("p12", "tampered-mac", P12, t, right, g, fmt("MAC byte %zu changed", i)); }
    for (size_t i = 0; i < salt.size(); i++) { Bytes t = b; t[so + i] ^= (uint8_t)(1 << g.below(8)); must_fail("p12", "tampered-mac", P12, t, right, g, fmt("MAC salt byte %zu changed", i)); }
    { const uint8_t *q = b.data(); PKCS12 *x = d2i_PKCS12(nullptr, &q, (long)b.size()); PKCS12_free(x); Bytes raw = seq({integer(Bn(3)), p7_data(as)}); must_fail("p12", "no-mac", P12, raw, right, g, "MAC removed"); }
}
static void one_key6(long ci, Rng &g) {
    trand().reset(g.next()); KeyRec k = rand_key(g, g.chance(1, 2), true); Bytes p8 = key_pkcs8(k); std::string pw; { Bytes b = g.bytes(g.chance(1, 8) ? g.range(60, 600) : g.chance(1, 4) ? g.range(30, 70) : g.range(1, 12)); if (g.chance(1, 2)) for (auto &c : b) c = 33 + c % 90; pw.assign(b.begin(), b.end()); }
    Bytes b = key6_wrap(p8, key6_key(pw), g.bytes(3), g.below(8), g.chance(3, 4), g.bytes(4)); desc(fmt("key6 pw=%s size=%zu", hex(str(pw)).c_str(), b.size())); if (ci < 1) sample(run().cur); if (!must_open("key6", KEY6, b, Pw{pw, ""}, k.c2 ? 2 : 1)) return;
    Bytes want1 = ref::pkcs8_der(*k.c, k.d, k.le, k.sbox.empty() ? nullptr : &k.sbox); std::vector<std::string> v; std::string x = pw; x.pop_back(); v.push_back(x); x = pw; x += 'x'; v.push_back(x); x = pw; x += '\0'; v.push_back(x); x = pw; x[g.below(x.size())] ^= 1 << g.below(8); v.push_back(x); x = pw; x.back() ^= 1; v.push_back(x); x = pw; x[0] ^= 0x20; v.push_back(x); v.push_back(""); x = pw + pw; v.push_back(x); for (const char *e : {"\n", "\r\n", " ", "\t"}) v.push_back(pw + e); x = " " + pw; v.push_back(x); x = pw; x += '\0'; x += "more"; v.push_back(x); x = pw; for (auto &c : x) c = (char)tolower((unsigned char)c); v.push_back(x); for (auto &c : x) c = (char)toupper((unsigned char)c); v.push_back(x); if (pw.size() > 32) { x = pw.substr(0, 32); v.push_back(x); } if (pw.size() > 8) v.push_back(pw.substr(0, 8));
    if (!run().thorough) for (size_t i = v.size() - 1; i > 0; i--) std::swap(v[i], v[g.below(i + 1)]), (void)0; size_t lim = run().thorough ? v.size() : 8;
    for (size_t i = 0; i < v.size() && i < lim; i++) if (v[i] != pw) {
        KeyStore *ks = nullptr; int r = open_via(pick_via(g), KEY6, b, Pw{v[i], ""}, &ks, g.next()); if (r == 1 && ks) { for (size_t j = 0; j < KeyStoreKeyNum(ks); j++) if (KeyStoreGetKey(ks, j)) { Bytes e = ref::enc_pkcs8((EVP_PKEY *)KeyStoreGetKey(ks, j)); if (e == want1) viol("C14/password:key6", "wrong password " + hex(str(v[i])) + " yields the stored key"); } KeyStoreFree(ks); stat("key6_garbage_opened"); } else if (ks) viol("C14/store-after-failure:key6", "failure with a store"); stat("key6_password"); sig("key6" + fmt("%zu", i));
    }
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    if (run().mode == "key6") for_cases(one_key6); else if (run().mode == "jks") for_cases(one_jks); else for_cases(one_p12);
    ref::free_curves(); done_engine(); return finish_run();
}
