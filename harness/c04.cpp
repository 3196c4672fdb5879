// C04: cipher context histories. Model: per context direction, key, IV, table and the bytes processed since the last restart.
#include "refgost.hpp"
#include "refec.hpp"

struct M { bool cipher = false, key = false, iv = false, enc = true; Bytes k, v, sb = ref::default_sbox(), fed; bool usable() const { return cipher && key && iv; } };

static Bytes export_params(EVP_CIPHER_CTX *c, int &rc) {
    ASN1_TYPE *t = ASN1_TYPE_new(); Bytes r; rc = EVP_CIPHER_param_to_asn1(c, t);
    if (rc > 0) { uint8_t *p = nullptr; int n = i2d_ASN1_TYPE(t, &p); if (n > 0) r.assign(p, p + n); OPENSSL_free(p); }
    ASN1_TYPE_free(t); return r;
}
static int import_params(EVP_CIPHER_CTX *c, const Bytes &d, bool &parsed) {
    const uint8_t *p = d.data(); ASN1_TYPE *t = d2i_ASN1_TYPE(nullptr, &p, (long)d.size()); parsed = t != nullptr; if (!t) return -1;
    int rc = EVP_CIPHER_asn1_to_param(c, t); ASN1_TYPE_free(t); return rc;
}
static void one(long ci, Rng &g) {
    int N = 2 + (int)g.below(3); std::vector<CCtx> cx; std::vector<M> md(N); std::string h; uint64_t hs = 5;
    for (int i = 0; i < N; i++) cx.emplace_back(EVP_CIPHER_CTX_new());
    trand().reset(g.next());
    int ops = 8 + (int)g.below(30);
    ref::TableFeed tf; std::vector<Bytes> keys, ivs, sbs; for (int i = 0; i < 3; i++) { keys.push_back(g.bytes(32)); ivs.push_back(g.bytes(8)); sbs.push_back(ref::random_sbox(g)); }
    auto update = [&](int i, size_t n) {
        M &m = md[i]; bool inplace = g.chance(1, 3); std::unique_ptr<uint8_t[]> ib(new uint8_t[n]), ob(new uint8_t[n]);
        Bytes in = g.bytes(n); memcpy(ib.get(), in.data(), n); int l = -1; uint8_t *dst = inplace ? ib.get() : ob.get();
        h += fmt("upd(%d,%zu%s) ", i, n, inplace ? ",inplace" : ""); desc(h);
        int ok = g.chance(1, 2) ? EVP_CipherUpdate(cx[i].get(), dst, &l, ib.get(), (int)n) : (m.enc ? EVP_EncryptUpdate(cx[i].get(), dst, &l, ib.get(), (int)n) : EVP_DecryptUpdate(cx[i].get(), dst, &l, ib.get(), (int)n));
        if (ok != 1 || l != (int)n) { viol("C04/update", fmt("update of %zu bytes: rc=%d outl=%d", n, ok, l)); return; }
        size_t before = m.fed.size(); m.fed.insert(m.fed.end(), in.begin(), in.end());
        Bytes w = ref::cfb(m.sb, m.k, m.v, m.fed, m.enc); w.erase(w.begin(), w.begin() + before);
        if (Bytes(dst, dst + n) != w) viol("C04/stream", fmt("context %d, %zu bytes into the stream: got %s want %s", i, before, shorthex(Bytes(dst, dst + n)).c_str(), shorthex(w).c_str()));
        stat("updates"); stat("stream_bytes", n);
        if (n && before % 8) stat("resumed_mid_block");
    };
    auto chunk = [&](M &m) -> size_t {
        switch (g.below(6)) { case 0: return g.range(1, 8); case 1: return 8 * g.range(1, 6); case 2: return (8 - m.fed.size() % 8) + 8 * g.below(3); case 3: return g.range(1, 200); case 4: return g.chance(1, 3) ? 0 : 1; default: return g.range(1, 40); }
    };
    for (int o = 0; o < ops; o++) {
        int i = (int)g.below(N); M &m = md[i]; uint64_t code = 0; int op = (int)g.below(100);
        EVP_CIPHER_CTX *c = cx[i].get();
        if (!m.cipher || op < 6) {                         // start over with a fresh context
            EVP_CIPHER_CTX_reset(c); m = M(); m.enc = g.chance(1, 2); m.cipher = true; Bytes k = g.pick(keys), v = g.pick(ivs);
            int how = (int)g.below(5); int ok = 1; code = 1 + how;
            const EVP_CIPHER *ty = eng().cipher; ENGINE *en = g.chance(2, 3) ? eng().e : nullptr;
            const char *nm[] = {"key+iv", "key;iv", "iv;key", "cipher only", "cipher+key"};
            h += fmt("start(%d,%s,%s) ", i, nm[how], m.enc ? "enc" : "dec"); desc(h);
            switch (how) {
            case 0: ok = EVP_CipherInit_ex(c, ty, en, k.data(), v.data(), m.enc); m.key = m.iv = true; break;
            case 1: ok = EVP_CipherInit_ex(c, ty, en, k.data(), nullptr, m.enc) && EVP_CipherInit_ex(c, nullptr, nullptr, nullptr, v.data(), g.chance(1, 2) ? -1 : m.enc); m.key = m.iv = true; break;
            case 2: ok = EVP_CipherInit_ex(c, ty, en, nullptr, v.data(), m.enc) && EVP_CipherInit_ex(c, nullptr, nullptr, k.data(), nullptr, -1); m.key = m.iv = true; break;
            case 3: ok = EVP_CipherInit_ex(c, ty, en, nullptr, nullptr, m.enc); break;
            case 4: ok = EVP_CipherInit_ex(c, ty, en, k.data(), nullptr, m.enc); m.key = true; break;
            }
            if (ok != 1) { viol("C04/init", "initialisation failed"); return; }
            if (m.key) m.k = k; if (m.iv) m.v = v;
        } else if (op < 12) {                              // (re)key, keeping IV and table
            Bytes k = g.pick(keys); h += fmt("key(%d) ", i); desc(h);
            if (EVP_CipherInit_ex(c, nullptr, nullptr, k.data(), nullptr, -1) != 1) { viol("C04/init", "rekey failed"); return; }
            m.key = true; m.k = k; m.fed.clear(); code = 10;
        } else if (op < 20) {                              // new IV (and perhaps direction), keeping key and table
            Bytes v = g.pick(ivs); bool ne = g.chance(1, 3) ? !m.enc : m.enc; h += fmt("iv(%d%s) ", i, ne != m.enc ? ",turn" : ""); desc(h);
            if (EVP_CipherInit_ex(c, nullptr, nullptr, nullptr, v.data(), ne) != 1) { viol("C04/init", "new IV failed"); return; }
            m.iv = true; m.v = v; m.enc = ne; m.fed.clear(); code = 11;
        } else if (op < 24) {
            Bytes k = g.pick(keys), v = g.pick(ivs); bool ne = g.chance(1, 2); h += fmt("keyiv(%d) ", i); desc(h);
            if (EVP_CipherInit_ex(c, nullptr, nullptr, k.data(), v.data(), ne) != 1) { viol("C04/init", "re-init failed"); return; }
            m.key = m.iv = true; m.k = k; m.v = v; m.enc = ne; m.fed.clear(); code = 12;
        } else if (op < 34) {                              // table; the stream starts over from the IV
            if (g.chance(1, 5)) {
                uint8_t j[64] = {1}; int r = g.chance(1, 2) ? EVP_CIPHER_CTX_ctrl(c, H_SET_SBOX, g.pick<int>({0, 1, 32, 63, 65, 128}), j) : EVP_CIPHER_CTX_ctrl(c, H_SET_SBOX, 64, nullptr);
                h += fmt("badtable(%d) ", i); desc(h); if (r == 1) viol("C04/bad-table-accepted", "table of the wrong size accepted"); code = 13;
            } else {
                Bytes s = g.chance(1, 5) ? ref::default_sbox() : g.chance(1, 2) ? g.pick(sbs) : tf.next(g); h += fmt("table(%d,%s) ", i, hex(s.data(), 3).c_str()); desc(h);
                if (EVP_CIPHER_CTX_ctrl(c, H_SET_SBOX, 64, tf.pass(g, s)) != 1) { viol("C04/table", "table refused"); return; }
                tf.scribble(); m.sb = s; m.fed.clear(); code = 14 + (m.key ? 1 : 0) + (m.iv ? 2 : 0);
            }
        } else if (op < 44) {                              // copy
            int j = (int)g.below(N); if (j == i) continue;
            h += fmt("copy(%d->%d) ", i, j); desc(h);
            if (EVP_CIPHER_CTX_copy(cx[j].get(), c) != 1) { viol("C04/copy", "copy failed"); return; }
            md[j] = m; code = 20 + (m.fed.size() % 8 ? 1 : 0); stat("copies");
            if (m.usable() && g.chance(1, 2)) { update(i, chunk(md[i])); update(j, chunk(md[j])); }
            if (g.chance(1, 4)) { EVP_CIPHER_CTX_reset(c); md[i] = M(); h += fmt("reset(%d) ", i); }
        } else if (op < 54 && m.iv) {                      // export, structural check, import elsewhere
            int rc; h += fmt("export(%d) ", i); desc(h); Bytes p = export_params(c, rc);
            Bytes want = ref::seq({ref::octet(m.v), ref::octet(m.sb)});
            if (rc <= 0) { viol("C04/export", "parameter export failed"); return; }
            if (p != want) viol("C04/export", "exported " + hex(p) + " want " + hex(want));
            int j = (int)g.below(N); if (j == i || g.chance(1, 4)) { code = 25; }
            else {
                M &t = md[j]; EVP_CIPHER_CTX *d = cx[j].get(); bool fresh = g.chance(1, 2) || !t.cipher; bool parsed;
                h += fmt("import(%d%s) ", j, fresh ? ",fresh" : ""); desc(h);
                if (fresh) { EVP_CIPHER_CTX_reset(d); t = M(); t.cipher = true; t.enc = !m.enc; Bytes k = g.pick(keys); bool wk = g.chance(1, 2);
                    if (EVP_CipherInit_ex(d, eng().cipher, eng().e, wk ? k.data() : nullptr, nullptr, t.enc) != 1) { viol("C04/init", "init failed"); return; } if (wk) { t.key = true; t.k = k; } }
                if (import_params(d, p, parsed) <= 0) { viol("C04/import", "own parameters refused"); return; }
                t.iv = true; t.v = m.v; t.sb = m.sb; t.fed.clear(); code = 26 + fresh; stat("imports");
                if (fresh && !t.key && g.chance(3, 4)) { Bytes k = m.key ? m.k : g.pick(keys); if (EVP_CipherInit_ex(d, nullptr, nullptr, k.data(), nullptr, t.enc) != 1) { viol("C04/init", "key after import failed"); return; } t.key = true; t.k = k; h += fmt("key(%d) ", j); }
                if (t.usable()) update(j, chunk(t));
            }
        } else if (op < 60) {                              // malformed parameters
            Bytes iv = g.bytes(8), sb = g.bytes(64), p; int kind = (int)g.below(11);
            switch (kind) {
            case 0: p = ref::seq({ref::octet(g.bytes(g.chance(1, 2) ? 7 : 9)), ref::octet(sb)}); break;
            case 1: p = ref::seq({ref::octet(iv), ref::octet(g.bytes(g.chance(1, 2) ? 63 : 65))}); break;
            case 2: p = ref::seq({ref::octet(sb), ref::octet(iv)}); break;
            case 3: p = ref::seq({ref::octet(iv)}); break;
            case 4: p = ref::octet(g.bytes(76)); break;
            case 5: p = ref::seq({ref::der(5, {}), ref::octet(g.bytes(72))}); break;
            case 6: p = {5, 0}; break;
            case 7: p = ref::seq({ref::der(2, iv), ref::octet(sb)}); break;
            case 8: p = ref::seq({ref::octet(iv), ref::der(3, sb)}); break;
            case 9: p = ref::seq({ref::octet(iv), ref::octet(sb), ref::der(5, {})}); break;
            }
            bool parsed = true; h += fmt("badparams(%d,%d) ", i, kind); desc(h); int rc = kind == 10 ? (import_params(c, Bytes{5, 0}, parsed), parsed = true, EVP_CIPHER_asn1_to_param(c, nullptr)) : import_params(c, p, parsed);   // 10: absent
            if (parsed && rc > 0) viol("C04/bad-params-accepted", "malformed parameters accepted: " + hex(p));
            EVP_CIPHER_CTX_reset(c); m = M(); code = 40 + kind; stat("malformed_params");
        } else if (m.usable()) {
            size_t n = chunk(m); code = 60 + (m.fed.size() % 8) * 8 + n % 8; update(i, n);
            if (g.chance(1, 12)) { uint8_t t[8]; int l = 7; if (EVP_CipherFinal_ex(c, t, &l) != 1 || l != 0) viol("C04/final", fmt("final returned %d bytes", l)); EVP_CIPHER_CTX_reset(c); m = M(); h += fmt("final(%d) ", i); }
        }
        hs = mix(hs, code * 5 + i);
    }
    for (int i = 0; i < N; i++) if (md[i].usable()) update(i, chunk(md[i]));
    sig(hs); stat("ops", ops); if (ci < 3) sample(h);
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand();
    for_cases(one); done_engine(); return finish_run();
}
