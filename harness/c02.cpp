// C02: digest context histories. Model: per context the exact bytes fed and the table in force; oracle: refgost.hpp.
#include "refgost.hpp"
#include "refec.hpp"

struct Model { bool live = false; bool used = false; Bytes msg; Bytes sbox; EVP_PKEY *key = nullptr; };
static std::vector<std::pair<PKey, Bytes>> tkeys;   // keys carrying tables

static void one(long ci, Rng &g) {
    const int N = 2 + (int)g.below(4);
    std::vector<MCtx> ctx; std::vector<Model> md(N);
    for (int i = 0; i < N; i++) ctx.emplace_back(EVP_MD_CTX_new());
    std::string h; int ops = 6 + (int)g.below(30); uint64_t hs = 17; long fins = 0;
    auto bad = [&](const char *k, const std::string &d) { viol(std::string("C02/") + k, d); };
    static Bytes pool = Rng(5).bytes(300000);
    auto fin = [&](int i) {
        Bytes r(64, 0xee); unsigned n = 0;
        int ok = g.chance(1, 3) ? EVP_DigestFinal_ex(ctx[i].get(), r.data(), &n) : EVP_DigestFinal_ex(ctx[i].get(), r.data(), nullptr);
        if (!n) n = 32;
        Bytes want = ref::hash(md[i].msg, md[i].sbox);
        h += fmt("fin(%d) ", i);
        desc(h);
        if (ok != 1) bad("final-fails", "final returned " + std::to_string(ok));
        else if (n != 32 || r[32] != 0xee) bad("size", "digest size");
        else if (Bytes(r.begin(), r.begin() + 32) != want)
            bad("value", fmt("context %d after %zu bytes: got %s want %s", i, md[i].msg.size(), hex(r.data(), 32).c_str(), hex(want).c_str()));
        md[i].live = false; fins++; stat("finals");
    };
    ref::TableFeed tf;
    for (int o = 0; o < ops; o++) {
        int i = (int)g.below(N), op = (int)g.below(100);
        Model &m = md[i]; uint64_t code = 0;
        if (!m.live) {
            int how = (int)g.below(5); int ok;
            if (how == 0 && m.used) { h += fmt("reinit(%d,NULL) ", i); desc(h); ok = EVP_DigestInit_ex(ctx[i].get(), nullptr, nullptr); }
            else if (how == 1) { h += fmt("reset+init(%d) ", i); desc(h); EVP_MD_CTX_reset(ctx[i].get()); ok = EVP_DigestInit_ex(ctx[i].get(), eng().md, eng().e); }
            else if (how == 2) { h += fmt("reset+init(%d,md by nid) ", i); desc(h); EVP_MD_CTX_reset(ctx[i].get()); ok = EVP_DigestInit_ex(ctx[i].get(), ENGINE_get_digest(eng().e, NID_dstu34311), nullptr); }
            else { h += fmt("init(%d) ", i); desc(h); ok = EVP_DigestInit_ex(ctx[i].get(), eng().md, eng().e); }
            if (ok != 1) { bad("init-fails", "digest init failed"); return; }
            m.live = m.used = true; m.msg.clear(); m.sbox = ref::default_sbox(); code = 1 + how;
            if (g.chance(1, 3)) {
                if (g.chance(1, 4)) {  // refused control values change nothing
                    uint8_t junk[64]; g.fill(junk, 64); int r;
                    switch (g.below(4)) {
                    case 0: r = EVP_MD_CTX_ctrl(ctx[i].get(), H_SET_SBOX, 63, junk); break;
                    case 1: r = EVP_MD_CTX_ctrl(ctx[i].get(), H_SET_SBOX, 128, junk); break;
                    case 2: r = EVP_MD_CTX_ctrl(ctx[i].get(), H_SET_SBOX, 64, nullptr); break;
                    default: r = EVP_MD_CTX_ctrl(ctx[i].get(), H_SET_SBOX + 77, 64, junk); break;
                    }
                    h += fmt("badctrl(%d) ", i); desc(h);
                    if (r == 1) bad("bad-table-accepted", "control with a wrong size, NULL table or unknown code succeeded");
                } else {
                    Bytes sb = tf.next(g); h += fmt("sbox(%d,%s..) ", i, hex(sb.data(), 4).c_str()); desc(h);
                    if (EVP_MD_CTX_ctrl(ctx[i].get(), H_SET_SBOX, 64, tf.pass(g, sb)) != 1) bad("table-refused", "table control failed");
                    tf.scribble();   // the caller's buffer may be reused
                    m.sbox = sb; code += 10;
                }
            }
        } else if (op < 60) {
            size_t n;
            switch (g.below(7)) {
            case 0: n = 0; break; case 1: n = 1; break; case 2: n = g.pick<size_t>({31, 32, 33, 63, 64, 65, 96, 128}); break;
            case 3: n = 32 - m.msg.size() % 32 + g.pick<size_t>({0, 0, 32, 1}); break;
            case 4: n = g.range(0, 1500); break; default: n = g.range(0, 90); break;
            }
            if (g.chance(1, 400)) n = g.pick<size_t>({4095, 4096, 8192, 16384, 65535, 65536, 65537, 131072, 200001});
            size_t off = g.below(pool.size() - n + 1);
            Bytes exact(pool.begin() + off, pool.begin() + off + n);   // own heap block: over-reads are visible
            h += fmt("upd(%d,%zu) ", i, n); desc(h);
            if (EVP_DigestUpdate(ctx[i].get(), n ? exact.data() : (g.chance(1, 2) ? nullptr : pool.data()), n) != 1) bad("update-fails", fmt("update of %zu bytes failed", n));
            m.msg.insert(m.msg.end(), exact.begin(), exact.end());
            code = 30 + (n == 0 ? 0 : (m.msg.size() % 32 == 0 ? 1 : (n >= 32 ? 2 : 3)));
        } else if (op < 75) {
            int j = (int)g.below(N); if (j == i) continue;
            h += fmt("copy(%d->%d%s) ", i, j, md[j].live ? ",over live" : ""); desc(h);
            if (g.chance(1, 4)) { ctx[j].reset(EVP_MD_CTX_new()); }
            if (EVP_MD_CTX_copy_ex(ctx[j].get(), ctx[i].get()) != 1) { bad("copy-fails", "copy failed"); return; }
            code = 40 + (md[j].live ? 1 : 0) + (md[j].live && md[j].sbox != m.sbox ? 2 : 0);
            md[j] = m; stat("copies");
            if (g.chance(1, 3)) { fin(i); }            // finish / free the source first
            else if (g.chance(1, 3)) { ctx[i].reset(EVP_MD_CTX_new()); md[i] = Model(); h += fmt("free(%d) ", i); desc(h); }
        } else if (op < 80) {                          // re-initialise an unfinished context
            h += fmt("reinit-live(%d) ", i); desc(h);
            if (EVP_DigestInit_ex(ctx[i].get(), g.chance(1, 2) ? eng().md : nullptr, g.chance(1, 2) ? eng().e : nullptr) != 1) { bad("init-fails", "re-init failed"); return; }
            m.msg.clear(); m.sbox = ref::default_sbox(); code = 50;
        } else if (op < 84) { h += fmt("switch(%d,sha256) ", i); desc(h);   // context moves to another algorithm and back
            EVP_MD_CTX_reset(ctx[i].get()); EVP_DigestInit_ex(ctx[i].get(), EVP_sha256(), nullptr); EVP_DigestUpdate(ctx[i].get(), "x", 1);
            m.live = false; m.used = false; code = 55;
        } else { fin(i); code = 60; }
        hs = mix(hs, code * 7 + i);
    }
    for (int i = 0; i < N; i++) if (md[i].live) fin(i);
    stat("ops", ops); sig(hs);
    if (ci < 3) sample(h);
}

// sign/verify contexts: the key's table is in force, re-init with another key switches it, copies carry it
static void keyed(long ci, Rng &g) {
    ref::Curve *c = ref::named(g.below(2) ? 0 : 1);
    int N = 2 + (int)g.below(2); std::string h; uint64_t hs = 99;
    struct K { PKey k; Bytes sb; ref::Bn d; ref::Pt Q; }; std::vector<K> ks(N);
    for (auto &k : ks) {
        k.sb = g.chance(1, 3) ? ref::default_sbox() : ref::random_sbox(g); k.d = ref::rand_scalar(g, c->n); k.Q = ref::pub_of(*c, k.d);
        k.k.reset(ref::decode_priv(*c, k.d, true, &k.sb)); if (!k.k) { viol("C02/keyload", "key refused"); return; }
    }
    MCtx a(EVP_MD_CTX_new()), b(EVP_MD_CTX_new());
    for (int round = 0; round < 3; round++) {
        K &k = ks[g.below(N)]; Bytes m = g.bytes(g.range(0, 200)), m2;
        bool reset = true;   // libcrypto keeps the old key when DigestSignInit is repeated without a reset
        if (reset) EVP_MD_CTX_reset(a.get());
        h += fmt("signinit(sb=%s len=%zu%s) ", hex(k.sb.data(), 3).c_str(), m.size(), reset ? " reset" : ""); desc(h);
        if (EVP_DigestSignInit(a.get(), nullptr, eng().md, nullptr, k.k.get()) != 1) { viol("C02/sign-init", "DigestSignInit failed"); return; }
        size_t cut = g.below(m.size() + 1);
        EVP_DigestSignUpdate(a.get(), m.data(), cut);
        EVP_MD_CTX *use = a.get();
        if (g.chance(1, 2)) {
            h += "copy "; desc(h);
            if (g.chance(1, 2)) EVP_MD_CTX_reset(b.get());
            if (EVP_MD_CTX_copy_ex(b.get(), a.get()) != 1) { viol("C02/copy-fails", "copy of a signing context failed"); return; }
            use = b.get(); if (g.chance(1, 2)) EVP_DigestSignUpdate(a.get(), "zz", 2);   // source goes its own way
        }
        EVP_DigestSignUpdate(use, m.data() + cut, m.size() - cut);
        size_t sl = 0; Bytes sg(600);
        if (EVP_DigestSignFinal(use, nullptr, &sl) != 1) { viol("C02/size-query", "size query failed"); return; }   // a size query does not consume the data
        sl = sg.size();
        if (EVP_DigestSignFinal(use, sg.data(), &sl) != 1) { viol("C02/sign", "DigestSignFinal failed"); return; }
        sg.resize(sl); ref::Sig s;
        bool good = ref::parse_sig(*c, sg, true, s) && ref::verify(*c, k.Q, ref::hash(m, k.sb), s);
        CHECK(good, "C02/keyed-value", "signature is not over the digest of the fed bytes under the key's table");
        // a plain digest on the same context object afterwards starts from the default table
        if (g.chance(1, 2)) {
            MCtx &u = g.chance(1, 2) ? a : b; EVP_MD_CTX_reset(u.get()); h += "plain "; desc(h);
            Bytes r(32); EVP_DigestInit_ex(u.get(), eng().md, eng().e); EVP_DigestUpdate(u.get(), m.data(), m.size()); EVP_DigestFinal_ex(u.get(), r.data(), nullptr);
            CHECK(r == ref::hash(m), "C02/plain-after-key", "plain digest after a keyed one differs from the default-table digest");
        }
        hs = mix(hs, cut % 33 + 64 * reset + 128 * (use == b.get())); stat("keyed_signs");
    }
    sig(hs); if (ci < 2) sample(h);
}

int main(int argc, char **argv) {
    parse_args(argc, argv);
    ref::self_test(); init_engine(); install_test_rand(); ref::init_curves(false, false);
    if (run().mode == "keyed") for_cases(keyed); else for_cases(one);
    ref::free_curves(); done_engine();
    return finish_run();
}
