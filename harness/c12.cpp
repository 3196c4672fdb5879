// C12: container readers on hostile data. Monitors: ASan/UBSan/LSan, heap growth and budget, fresh-memory metamorphism, random-request budget, Memcheck (vg phase).
#include "hostile.hpp"
#include "containers.hpp"
using namespace cont;

static Bytes rd(const std::string &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) harness_error("read " + p); Bytes b(1 << 20); b.resize(fread(b.data(), 1, b.size(), f)); fclose(f); return b; }
static Bytes F_key6, F_jks, F_p12;
static const std::vector<std::string> K6PW{"tect4", "x", "\xff\xfe"};

static void use_store(KeyStore *ks, Outcome &o, Rng g) {
    size_t nk = KeyStoreKeyNum(ks), nc = KeyStoreCertNum(ks); o.add("nk", (long)nk); o.add("nc", (long)nc);
    for (size_t i = 0; i < nk + 2; i++) { EVP_PKEY *k = (EVP_PKEY *)KeyStoreGetKey(ks, i); o.add("k", k != nullptr); if (!k) { if (i < nk) stat("null_keys"); continue; } if (i >= nk) viol("C12/beyond-end", "key beyond the end"); o.add("id", EVP_PKEY_id(k)); o.add("p8", ref::enc_pkcs8(k)); o.add("pub", ref::enc_spki(k)); BIO *b = BIO_new(BIO_s_mem()); o.add("pr", EVP_PKEY_print_private(b, k, 0, nullptr)); BIO_free(b); Bytes t = g.bytes(20); o.add("sig", ref::pkey_sign(k, t)); }
    for (size_t i = 0; i < nc + 2; i++) { X509 *x = (X509 *)KeyStoreGetCert(ks, i); o.add("c", x != nullptr); if (!x) continue; if (i >= nc) viol("C12/beyond-end", "certificate beyond the end"); o.add("der", x509_der(x)); EVP_PKEY *k = X509_get0_pubkey(x); o.add("xk", k != nullptr); if (k) o.add("xp", ref::enc_spki(k)); }
}
// iteration counts are libcrypto's business: containers that could carry a huge one are not offered
// (such a count is an INTEGER of 3 or more content bytes that follows an OCTET STRING, the salt)
static bool huge_iterations(const Bytes &b) {
    for (size_t i = 2; i + 2 < b.size(); i++) if (b[i] == 2) {
        size_t p = i + 1; size_t l = b[p++]; if (l == 0x81 && p < b.size()) l = b[p++]; else if (l == 0x82 && p + 1 < b.size()) { l = b[p] << 8 | b[p + 1]; p += 2; }
        if (l < 3 || l > 16 || p + l > b.size()) continue;
        if (!b[i - 1] && !b[i - 2]) return true;
        for (size_t j = i > 400 ? i - 400 : 0; j + 2 <= i; j++) if (b[j] == 4 || b[j] == 0x24) { size_t n = i - j - 2; if (b[j + 1] == n || (b[j + 1] == 0x81 && n >= 1 && b[j + 2] == n - 1) || (b[j + 1] == 0x82 && n >= 2 && (b[j + 2] << 8 | b[j + 3]) == (int)n - 2)) return true; }
    }
    return false;
}
static void offer(Fmt f, const char *kind, const Bytes &b, const Pw &pw, Via v, uint64_t rs, Rng gs) {
    static const char *fn[] = {"key6", "jks", "p12"}; std::string K = std::string(fn[f]) + "-" + kind;
    desc(fmt("%s via%d pw=%s/%s size=%zu ", K.c_str(), v, hex(str(pw.store)).substr(0, 60).c_str(), hex(str(pw.key)).substr(0, 60).c_str(), b.size()) + shorthex(b, 1300));
    Outcome o = guarded("C12", K, [&](Outcome &o) {
        KeyStore *ks = nullptr; int r = open_via(v, f, b, pw, &ks, rs); o.add("r", r); if (r != 0 && r != 1) viol("C12/return:" + K, fmt("returned %d", r));
        if (r == 1 && !ks) { viol("C12/success-without-store:" + K, "success but no store"); return; }
        if (r == 1) { stat(std::string("accepted_") + fn[f]); use_store(ks, o, gs); } else { stat(std::string("refused_") + fn[f]); }
        if (r == 1 || ks) KeyStoreFree(ks);
    }, rs, 40000, (2u << 20) + 64 * b.size(), 6000000); sig(mix(o.h, fnv(K))); stat("t_" + K);
}
static Pw pick_pw(Rng &g, const Pw &right) {
    Pw p = right; switch (g.below(14)) { case 0: p.store.clear(); break; case 1: p.key.clear(); break; case 2: p.store = std::string((const char *)g.bytes(g.below(400)).data(), g.below(1)); { Bytes b = g.bytes(g.below(400)); p.store.assign(b.begin(), b.end()); } break; case 3: { Bytes b = g.bytes(g.below(40)); p.key.assign(b.begin(), b.end()); break; } case 4: p.store += '\0'; break; default: break; } return p;
}
static Via pick_via(Rng &g) { return g.chance(3, 4) ? MEM : g.pick<Via>({BIOM, CHUNK, FILEP}); }
static Bytes hostile_pkcs8(Rng &g, bool second, const char *&kind) {
    KeyRec k = rand_key(g, second, true); Bytes p = key_pkcs8(k, g.chance(1, 3)); if (g.chance(1, 8)) { kind = "good-key"; return p; } kind = "hostile-key";
    if (g.chance(1, 12)) return g.bytes(g.below(300)); return mutate_der(p, g);
}
static void one_jks(long, Rng &g) {
    trand().reset(g.next()); uint64_t rs = g.next(); Rng gs(g.next()); const char *kind = "raw"; Pw right{"123456", "qwerty"}; Bytes b; unsigned k = (unsigned)g.below(10);
    if (k < 2) { b = mutate_raw(F_jks, g); if (g.chance(1, 2)) { b = F_jks; b.resize(g.below(b.size() + 1)); kind = "truncated"; } }
    else if (k < 3) { kind = "garbage"; b = g.bytes(g.below(200)); if (g.chance(3, 4)) { Bytes h = cat({u32(g.chance(1, 2) ? 0xfeedfeed : 0xcececece), u32(2), u32(g.chance(1, 2) ? (uint32_t)g.below(4) : 0xffffffff), u32((uint32_t)g.range(0, 3))}); b.insert(b.begin(), h.begin(), h.end()); } }
    else {
        auto sp = rand_password(g), kp = rand_password(g); right = Pw{utf8(sp), utf8(kp)}; size_t n = g.range(1, 4); Bytes kp16 = utf16be(kp); bool jc = g.chance(1, 2); uint32_t cnt = (uint32_t)n; kind = "structure";
        Bytes body = cat({u32(jc ? 0xcececece : 0xfeedfeed), u32(2)}); Bytes ents; size_t bad = g.below(n); unsigned how = (unsigned)g.below(10);
        auto lie = [&](uint32_t v) -> uint32_t { switch (g.below(9)) { case 0: return 0; case 1: return v + 1; case 2: return v ? v - 1 : 1; case 3: return 0xffffffff; case 4: return 0x7fffffff; case 5: return 0x80000000; case 6: return v + (uint32_t)g.below(400); case 7: return 0xfffffff0 + (uint32_t)g.below(16); default: return (uint32_t)g.next(); } };
        for (size_t i = 0; i < n; i++) {
            bool B = i == bad; bool key = g.chance(2, 3); std::string al(g.below(20), 'a'); const char *kk = "good-key"; Bytes p8 = key ? (B && how < 4 ? hostile_pkcs8(g, g.chance(1, 2), kk) : key_pkcs8(rand_key(g, g.chance(1, 3), true))) : Bytes(); if (B && how < 4 && key) kind = kk;
            Bytes prot = key_protect(p8, kp16, g.bytes(20)); if (B && how == 4) { prot.resize(g.below(g.chance(1, 2) ? 45 : prot.size() + 1)); kind = "short-protector"; }
            Bytes epki = seq({seq({oid(B && how == 5 ? g.pick<std::string>({"1.3.6.1.4.1.42.2.19.1", "1.2.3", "1.2.840.113549.1.5.13"}) : "1.3.6.1.4.1.42.2.17.1.1"), der(5, {})}), octet(prot)}); if (B && how == 6) { epki = mutate_der(epki, g); kind = "hostile-epki"; }
            uint32_t alen = (uint32_t)al.size(), dlen = (uint32_t)epki.size(), nc = key ? (uint32_t)g.below(3) : 1, ncw = nc; uint32_t tag = key ? 1 : 2;
            if (B && how == 7) { switch (g.below(4)) { case 0: alen = lie(alen) & 0xffff; break; case 1: dlen = lie(dlen); break; case 2: ncw = lie(nc); break; default: tag = lie(tag); } }
            Bytes e = cat({u32(tag), u16(alen), str(al), g.bytes(8)}); if (key) e = cat({e, u32(dlen), epki, u32(ncw)});
            for (uint32_t c = 0; c < nc; c++) { Bytes cd = rand_cert(g, true); uint32_t tl = 5, cl; if (B && how == 8) { cd = mutate_der(cd, g); kind = "hostile-cert"; } cl = (uint32_t)cd.size(); if (B && how == 9) { if (g.chance(1, 2)) tl = lie(5) & 0xffff; else cl = lie(cl); } e = cat({e, u16(tl), str("X.509"), u32(cl), cd}); }
            ents = cat({ents, e});
        }
        if (g.chance(1, 10)) cnt = lie(cnt); body = cat({body, u32(cnt), ents}); b = jks_seal(body, utf16be(sp)); if (g.chance(1, 6)) b.resize(b.size() - g.range(1, std::min<size_t>(b.size(), 60))); if (g.chance(1, 10)) { Bytes t = g.bytes(g.range(1, 30)); b.insert(b.end(), t.begin(), t.end()); } if (g.chance(1, 10)) b = mutate_raw(b, g);
    }
    offer(JKS, kind, b, pick_pw(g, right), pick_via(g), rs, gs);
}
static void one_p12(long, Rng &g) {
    for (int tries = 0; tries < 20; tries++) {
        trand().reset(g.next()); uint64_t rs = g.next(); Rng gs(g.next()); const char *kind = "structure"; Bytes b; Pw right{g.chance(1, 8) ? "" : utf8(rand_password(g)), ""}; unsigned how = (unsigned)g.below(10);
        const char *kk = "good-key"; Bytes bags; size_t n = g.range(1, 3);
        for (size_t i = 0; i < n; i++) { unsigned q = (unsigned)g.below(6); if (q < 2) { bags = cat({bags, bag(1, hostile_pkcs8(g, g.chance(1, 4), kk))}); kind = kk; } else if (q < 4) { Bytes al, ct; if (!pbe_encrypt(g.pick<Pbe>({PBE_DSTU, PBE_DSTU, PBE_AES}), g, right.store, (int)g.range(1, 3), hostile_pkcs8(g, false, kk), al, ct)) harness_error("pbe"); if (g.chance(1, 3)) { al = mutate_der(al, g); } bags = cat({bags, bag(2, seq({al, octet(ct)}))}); kind = "shrouded"; } else if (q < 5) { Bytes c = rand_cert(g, true); if (g.chance(1, 2)) c = mutate_der(c, g); bags = cat({bags, bag(3, cert_bag_value(c))}); kind = "cert"; } else { Bytes c = bag(3, cert_bag_value(rand_cert(g, true))); for (size_t dep = g.chance(1, 3) ? g.range(10, 60) : g.range(1, 4); dep--;) c = bag(6, der(0x30, c)); bags = cat({bags, c}); kind = "nested"; } }
        Bytes sc = der(0x30, bags); if (how == 0) { sc = mutate_der(sc, g); kind = "hostile-bags"; } Bytes safe; if (g.chance(1, 2)) safe = p7_data(sc); else { Bytes al, ct; if (!pbe_encrypt(g.pick<Pbe>({PBE_DSTU, PBE_AES}), g, right.store, (int)g.range(1, 3), sc, al, ct)) harness_error("pbe"); if (how == 1) { al = mutate_der(al, g); kind = "hostile-alg"; } safe = p7_enc(al, ct); }
        Bytes as = der(0x30, safe); if (how == 2) { as = mutate_der(as, g); kind = "hostile-safes"; }
        b = p12_seal(as, right.store, g.bytes(8), 2, g.chance(1, 3) ? eng().md : EVP_sha1()); if (b.empty()) harness_error("seal");
        if (how == 3) { b = mutate_der(b, g); kind = "hostile-pfx"; } else if (how == 4) { b.resize(g.below(b.size())); kind = "truncated"; } else if (how == 5 && g.chance(2, 3)) { b = g.bytes(g.below(300)); kind = "garbage"; } else if (how == 5 && g.chance(1, 3)) { b = mutate_der(F_p12, g); right.store = "testplat2021"; kind = "fixture"; }
        if (huge_iterations(b) || huge_iterations(sc)) { stat("skipped_iterations"); continue; }   // sc: the bags before any encryption
        offer(P12, kind, b, pick_pw(g, right), pick_via(g), rs, gs); return;
    }
}
static void one_key6(long, Rng &g) {
    trand().reset(g.next()); uint64_t rs = g.next(); Rng gs(g.next()); const char *kind = "raw"; std::string pw = g.pick(K6PW); Bytes b; unsigned how = (unsigned)g.below(10);
    if (how == 0) { b = mutate_der(F_key6, g); pw = "tect4"; kind = "fixture"; } else if (how == 1) { b = F_key6; b.resize(g.below(b.size())); kind = "truncated"; } else if (how == 2 && g.chance(1, 2)) { b = g.bytes(g.below(200)); kind = "garbage"; }
    else { Bytes p = hostile_pkcs8(g, g.chance(3, 4), kind); if (g.chance(1, 12)) p.resize(g.below(p.size() + 1)); if (g.chance(1, 3)) while (p.size() % 8) p.push_back(0x30); b = key6_wrap(p, key6_key(pw), g.bytes(3), g.chance(1, 2) ? g.below(8) : g.below(p.size() + 9), g.chance(3, 4), g.bytes(g.below(6))); if (g.chance(1, 5)) { b = mutate_der(b, g); kind = "structure"; } }
    Pw p{pw, ""}; if (g.chance(1, 10)) p.store.clear(); offer(KEY6, kind, b, p, pick_via(g), rs, gs);
}
int main(int argc, char **argv) {
    init_heap_monitor(); parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    std::string t = run().repo + "/tests/"; F_key6 = rd(t + "Key-6.dat"); F_jks = rd(t + "key.jks"); F_p12 = rd(t + "Key-6.pfx"); if (huge_iterations(F_p12)) stat("fixture_has_big_integer");
    if (run().mode == "key6") for_cases(one_key6); else if (run().mode == "jks") for_cases(one_jks); else for_cases(one_p12);
    ref::free_curves(); done_engine(); return finish_run();
}
