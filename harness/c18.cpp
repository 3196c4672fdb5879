// C18: random lifecycle histories of the engine (load, references, defaults, use, release in any order, reload). The module is not pinned: it really
// goes away. Monitors: ASan/LSan (or Memcheck, which also sees libcrypto's accesses), reference results of every use, look-ups after unloading.
#include "keyview.hpp"
#include "refec.hpp"
#include <openssl/pem.h>
#include <sys/wait.h>
static const unsigned PARTS[] = {ENGINE_METHOD_DIGESTS, ENGINE_METHOD_CIPHERS, ENGINE_METHOD_PKEY_METHS, ENGINE_METHOD_PKEY_ASN1_METHS};
struct Obj { int kind; MCtx md; CCtx cc; PKey k; PCtx pc; Bytes fed, key, iv, out; const ref::Curve *c = nullptr; ref::Bn d; bool le = true; std::string how; };
static void *held = nullptr; // the program's own handle on the module (a plugin host that keeps it): unloading the engine then leaves the module in memory
static bool mapped() { void *h = dlopen(run().engine.c_str(), RTLD_NOW | RTLD_NOLOAD); if (h) dlclose(h); return h != nullptr; }

struct World {
    Rng &g; ENGINE *e = nullptr; int structural = 0, functional = 0; bool listed = false, rand_default = false; unsigned reg = 0xf; std::vector<Obj> objs; std::string hist; bool user_ref() const { return structural > 0; }
    explicit World(Rng &r) : g(r) {}
    void h(const std::string &s) { hist += s + " "; desc(hist.size() > 1400 ? "..." + hist.substr(hist.size() - 1400) : hist); }

    void load() {
        bool wrong = g.chance(1, 8);
        if (wrong) { ENGINE *x = ENGINE_by_id("dynamic"); ENGINE_ctrl_cmd_string(x, "SO_PATH", run().engine.c_str(), 0); ENGINE_ctrl_cmd_string(x, "ID", "dstu2", 0); h("load-wrong-id"); if (ENGINE_ctrl_cmd_string(x, "LOAD", nullptr, 0) == 1) viol("C18/wrong-id", "the engine binds under an identifier that is not its own"); ENGINE_free(x); ERR_clear_error(); if (!held && mapped()) viol("C18/still-loaded", "module stays loaded after a refused load"); stat("refused_loads"); }
        ENGINE *x = ENGINE_by_id("dynamic"); listed = g.chance(1, 3); bool no_id = g.chance(1, 4); h(listed ? "load-listed" : "load");
        if (!x) harness_error("no dynamic engine");
        bool ok = ENGINE_ctrl_cmd_string(x, "SO_PATH", run().engine.c_str(), 0) == 1 && (no_id || ENGINE_ctrl_cmd_string(x, "ID", "dstu", 0) == 1) && (!listed || ENGINE_ctrl_cmd_string(x, "LIST_ADD", "1", 0) == 1) && ENGINE_ctrl_cmd_string(x, "LOAD", nullptr, 0) == 1;
        if (!ok) { viol("C18/load", "the engine does not load"); ENGINE_free(x); return; }
        e = x; structural = 1; functional = 0; reg = 0xf; stat("loads");
        const char *id = ENGINE_get_id(e), *nm = ENGINE_get_name(e); CHECK(id && !strcmp(id, "dstu") && nm && *nm, "C18/identity", "id %s name %s", id ? id : "(null)", nm ? nm : "(null)");
        CHECK(ENGINE_get_RAND(e) != nullptr, "C18/identity", "no random method");
    }
    void advertise() {   // exactly two key types, one digest, one cipher, refusing everything else
        h("advertise"); const int *n = nullptr; auto dg = ENGINE_get_digests(e); auto cg = ENGINE_get_ciphers(e); auto pg = ENGINE_get_pkey_meths(e); auto ag = ENGINE_get_pkey_asn1_meths(e);
        if (!dg || !cg || !pg || !ag) { viol("C18/advertised", "method table missing"); return; }
        int k = dg(e, nullptr, &n, 0); CHECK(k == 1 && n && n[0] == NID_dstu34311, "C18/advertised", "digest list: %d entries", k);
        k = cg(e, nullptr, &n, 0); CHECK(k == 1 && n && n[0] == NID_dstu28147_cfb, "C18/advertised", "cipher list: %d entries", k);
        for (int pass = 0; pass < 2; pass++) { k = pass ? ag(e, nullptr, &n, 0) : pg(e, nullptr, &n, 0); std::set<int> s; if (k > 0 && n) s = std::set<int>(n, n + k); CHECK(k == 2 && s.count(NID_dstu4145le) && s.count(NID_dstu4145be), "C18/advertised", "key type list: %d entries", k); }
        const EVP_MD *m = ENGINE_get_digest(e, NID_dstu34311); const EVP_CIPHER *c = ENGINE_get_cipher(e, NID_dstu28147_cfb); if (!m || !c) { viol("C18/advertised", "digest or cipher missing"); return; }
        CHECK(EVP_MD_type(m) == NID_dstu34311 && EVP_MD_size(m) == 32 && EVP_MD_block_size(m) == 32, "C18/sizes", "digest size %d block %d", EVP_MD_size(m), EVP_MD_block_size(m));
        CHECK(EVP_CIPHER_nid(c) == NID_dstu28147_cfb && EVP_CIPHER_key_length(c) == 32 && EVP_CIPHER_iv_length(c) == 8 && EVP_CIPHER_block_size(c) == 1 && EVP_CIPHER_mode(c) == EVP_CIPH_CFB_MODE, "C18/sizes", "cipher key %d iv %d block %d mode %d", EVP_CIPHER_key_length(c), EVP_CIPHER_iv_length(c), EVP_CIPHER_block_size(c), (int)EVP_CIPHER_mode(c));
        for (int nid : {NID_dstu4145le, NID_dstu4145be}) { const EVP_PKEY_METHOD *pm = ENGINE_get_pkey_meth(e, nid); const EVP_PKEY_ASN1_METHOD *am = ENGINE_get_pkey_asn1_meth(e, nid); int id = 0, fl = 0; if (!pm || !am) { viol("C18/advertised", "key method missing"); continue; } EVP_PKEY_meth_get0_info(&id, &fl, pm); CHECK(id == nid, "C18/advertised", "key method for %d says %d", nid, id); int base = 0; const char *info = nullptr, *pem = nullptr; EVP_PKEY_asn1_get0_info(&id, &base, &fl, &info, &pem, am); CHECK(id == nid && pem && *pem, "C18/advertised", "key encoding method for %d says %d", nid, id); }
        for (int t = 0; t < 12; t++) {
            int nid = t < 8 ? (int)g.pick({NID_sha256, NID_md5, NID_dstu28147_ofb, NID_dstu28147_wrap, NID_hmacWithDstu34311, NID_dstu4145le, NID_dstu34311, NID_dstu28147_cfb, NID_dstu28147, NID_aes_128_cbc, NID_rsaEncryption, NID_X9_62_id_ecPublicKey, NID_uacurve0, NID_dstu4145be + 1, NID_dstu4145le - 1, NID_id_GostR3411_94}) : (int)g.below(1300) + 1;
            const EVP_MD *xm = nullptr; const EVP_CIPHER *xc = nullptr; EVP_PKEY_METHOD *xp = nullptr; EVP_PKEY_ASN1_METHOD *xa = nullptr; bool kt = nid == NID_dstu4145le || nid == NID_dstu4145be;
            CHECK((dg(e, &xm, nullptr, nid) == 1) == (nid == NID_dstu34311), "C18/refuse", "digest for NID %d", nid); CHECK((cg(e, &xc, nullptr, nid) == 1) == (nid == NID_dstu28147_cfb), "C18/refuse", "cipher for NID %d", nid);
            CHECK((pg(e, &xp, nullptr, nid) == 1) == kt && (xp != nullptr) == kt, "C18/refuse", "key method for NID %d", nid); CHECK((ag(e, &xa, nullptr, nid) == 1) == kt && (xa != nullptr) == kt, "C18/refuse", "key encoding method for NID %d", nid);
            ERR_clear_error();
        }
        stat("advertised_checks");
    }
    // ---- objects
    Obj key_data() { Obj o{2}; o.c = ref::named((int)g.below(5)); o.d = ref::rand_scalar(g, o.c->n); o.le = g.chance(1, 2); return o; }
    void use(Obj &o) {
        if (o.kind == 0) { Bytes b = g.bytes(g.below(70)); if (EVP_DigestUpdate(o.md.get(), b.data(), b.size()) != 1) viol("C18/digest", "update failed (" + o.how + ")"); o.fed.insert(o.fed.end(), b.begin(), b.end()); }
        else if (o.kind == 1) { Bytes b = g.bytes(g.range(1, 40)), r(b.size() + 8); int n = 0; if (EVP_EncryptUpdate(o.cc.get(), r.data(), &n, b.data(), (int)b.size()) != 1 || n != (int)b.size()) viol("C18/cipher", "update failed (" + o.how + ")"); r.resize(b.size()); o.fed.insert(o.fed.end(), b.begin(), b.end()); o.out.insert(o.out.end(), r.begin(), r.end()); }
        else if (o.kind == 2) {
            Bytes t = g.bytes(32); int how = (int)g.below(4); Bytes s; ref::Pt Q = ref::pub_of(*o.c, o.d);
            if (how == 0) { Bytes der = ref::enc_spki(o.k.get()); if (der != ref::spki_der(*o.c, Q, o.le, nullptr)) viol("C18/key", "encodes differently (" + o.how + ")"); return; }
            if (how == 1) { BIO *b = BIO_new(BIO_s_mem()); if (EVP_PKEY_print_private(b, o.k.get(), 0, nullptr) != 1) viol("C18/key", "does not print (" + o.how + ")"); BIO_free(b); return; }
            s = ref::pkey_sign(o.k.get(), t); ref::Sig x; if (s.empty() || !ref::parse_sig(*o.c, s, o.le, x) || !ref::verify(*o.c, Q, t, x)) viol("C18/key", "does not sign correctly (" + o.how + ")"); else if (ref::pkey_verify(o.k.get(), s, t) != 1) viol("C18/key", "does not verify (" + o.how + ")");
        } else if (o.kind == 3) { // key generation context
            EVP_PKEY *k = nullptr; if (!(reg & 8) || !e) return; if (EVP_PKEY_keygen(o.pc.get(), &k) != 1) { viol("C18/keygen", "key generation failed (" + o.how + ")"); return; } Obj n{2}; n.k.reset(k); n.c = o.c; n.le = o.le; n.how = "generated"; if (!private_value(k, n.d)) { viol("C18/keygen", "no private value"); return; } pend.push_back(std::move(n));
        }
        stat("uses");
    }
    std::vector<Obj> pend;
    void retire(Obj &o) {
        if (o.kind == 0) { Bytes d(32); unsigned n = 0; if (EVP_DigestFinal_ex(o.md.get(), d.data(), &n) != 1 || n != 32 || d != ref::hash(o.fed)) viol("C18/digest", "wrong digest (" + o.how + ")"); }
        else if (o.kind == 1) { if (o.out != ref::cfb(ref::default_sbox(), o.key, o.iv, o.fed, true)) viol("C18/cipher", "wrong ciphertext (" + o.how + ")"); }
    }
    void create() {
        int kind = (int)g.below(4), route = (int)g.below(4); Obj o{kind}; ENGINE *with = nullptr; const EVP_MD *m = nullptr; const EVP_CIPHER *c = nullptr; bool tmp_ref = false;
        // a functional reference is held, re-acquired for this use, or taken by libcrypto through the registration
        if (functional == 0 && g.chance(1, 2)) { if (ENGINE_init(e) != 1) { viol("C18/init", "ENGINE_init failed"); return; } tmp_ref = true; }
        unsigned need[] = {1, 2, 0xc, 0xc}; bool registered = (reg & need[kind]) == need[kind];
        if (kind == 0 || kind == 1) {
            if (route == 0 && (functional || tmp_ref)) { with = e; m = ENGINE_get_digest(e, NID_dstu34311); c = ENGINE_get_cipher(e, NID_dstu28147_cfb); o.how = "handle"; }
            else if (route == 1 && registered) { m = EVP_get_digestbyname(g.chance(1, 2) ? SN_dstu34311 : LN_dstu34311); c = EVP_get_cipherbyname(g.chance(1, 2) ? SN_dstu28147_cfb : LN_dstu28147_cfb); o.how = "name"; }
            else if (route == 2 && registered) { m = EVP_get_digestbynid(NID_dstu34311); c = EVP_get_cipherbynid(NID_dstu28147_cfb); o.how = "nid"; }
            else if (registered) { ENGINE *x = kind ? ENGINE_get_cipher_engine(NID_dstu28147_cfb) : ENGINE_get_digest_engine(NID_dstu34311); if (x != e) { viol("C18/lookup", "the engine is registered but not found"); if (x) ENGINE_finish(x); goto out; } with = x; m = ENGINE_get_digest(x, NID_dstu34311); c = ENGINE_get_cipher(x, NID_dstu28147_cfb); o.how = "table"; }
            else goto out;
            h("new-" + std::string(kind ? "cipher" : "digest") + ":" + o.how);
            if (!m || !c) { viol("C18/lookup", "digest or cipher not found by " + o.how); goto out; }
            if (kind == 0) { o.md.reset(EVP_MD_CTX_new()); if (EVP_DigestInit_ex(o.md.get(), m, with) != 1) { viol("C18/digest", "init failed (" + o.how + ")"); o.md.reset(); } }
            else { o.key = g.bytes(32); o.iv = g.bytes(8); o.cc.reset(EVP_CIPHER_CTX_new()); if (EVP_EncryptInit_ex(o.cc.get(), c, with, o.key.data(), o.iv.data()) != 1) { viol("C18/cipher", "init failed (" + o.how + ")"); o.cc.reset(); } }
            if (o.how == "table") ENGINE_finish(with);
            if (!o.md && !o.cc) goto out;
        } else if (kind == 2) {
            if (!registered) goto out;
            Obj k = key_data(); h("new-key"); Bytes der = ref::pkcs8_der(*k.c, k.d, k.le, nullptr); k.k.reset(ref::decode_pkcs8(der)); k.how = "decoded"; if (!k.k) { viol("C18/key", "private key refused while the engine is registered"); goto out; } o = std::move(k);
        } else {
            bool explicitly = functional || tmp_ref; if (!explicitly && !registered) goto out;
            o.c = ref::named((int)g.below(3)); o.le = g.chance(1, 2); h("new-keygen"); o.pc.reset(EVP_PKEY_CTX_new_id(o.le ? NID_dstu4145le : NID_dstu4145be, explicitly ? e : nullptr)); o.how = explicitly ? "handle" : "nid";
            if (!o.pc || EVP_PKEY_keygen_init(o.pc.get()) != 1 || EVP_PKEY_CTX_ctrl_str(o.pc.get(), "curve", o.c->name.c_str()) <= 0) { viol("C18/keygen", "context refused (" + o.how + ")"); goto out; }
        }
        objs.push_back(std::move(o)); stat("objects"); use(objs.back());
    out:
        if (tmp_ref) { ENGINE_finish(e); stat("reacquired"); }
    }
    void drop(size_t i) { retire(objs[i]); objs.erase(objs.begin() + i); }
    void settle() { for (auto &o : pend) objs.push_back(std::move(o)); pend.clear(); }
    void fail_something() {   // leaves an error of the engine in the queue
        h("error"); ERR_clear_error(); for (auto &o : objs) if (o.kind == 2) { PCtx c(EVP_PKEY_CTX_new(o.k.get(), nullptr)); if (c && EVP_PKEY_sign_init(c.get()) == 1) EVP_PKEY_CTX_ctrl(c.get(), -1, EVP_PKEY_OP_SIGN, EVP_PKEY_CTRL_MD, 0, (void *)EVP_sha256()); break; }
        if (reg == 0xf) { Bytes j = ref::pkcs8_der(*ref::named(0), ref::rand_scalar(g, ref::named(0)->n), true, nullptr); j[j.size() - 40] ^= 0x55; j[22] ^= 0x10; PKey k(ref::decode_pkcs8(j)); }
        stat("errors_queued", ERR_peek_error() != 0);
    }
    void read_errors() { unsigned long er; const char *f, *d, *fn; int l, fl; while ((er = ERR_get_error_all(&f, &l, &fn, &d, &fl))) { char b[300]; ERR_error_string_n(er, b, sizeof b); const char *r = ERR_reason_error_string(er), *lib = ERR_lib_error_string(er); volatile size_t n = (r ? strlen(r) : 0) + (lib ? strlen(lib) : 0) + strlen(b); (void)n; stat("errors_read"); } }
    void set_reg(unsigned bits, bool on) {
        for (int i = 0; i < 4; i++) if (bits & (1u << i)) {
            int r = 1; switch (i) { case 0: on ? r = ENGINE_register_digests(e) : (ENGINE_unregister_digests(e), 1); break; case 1: on ? r = ENGINE_register_ciphers(e) : (ENGINE_unregister_ciphers(e), 1); break; case 2: on ? r = ENGINE_register_pkey_meths(e) : (ENGINE_unregister_pkey_meths(e), 1); break; case 3: on ? r = ENGINE_register_pkey_asn1_meths(e) : (ENGINE_unregister_pkey_asn1_meths(e), 1); break; }
            CHECK(r == 1, "C18/register", "registration of part %d refused", i); if (on) reg |= 1u << i; else reg &= ~(1u << i);
        }
    }
    void step() {
        int op = (int)g.below(14);
        switch (op) {
        case 0: case 1: case 2: create(); break;
        case 3: case 4: if (!objs.empty()) { size_t i = g.below(objs.size()); h("use"); use(objs[i]); } break;
        case 5: if (!objs.empty()) { h("drop"); drop(g.below(objs.size())); } break;
        case 6: if (functional < 4) { h("init"); if (ENGINE_init(e) == 1) functional++; else viol("C18/init", "ENGINE_init failed"); } break;
        case 7: if (functional > 0) { h("finish"); CHECK(ENGINE_finish(e) == 1, "C18/finish", "ENGINE_finish failed"); functional--; } break;
        case 8: if (structural < 4) { h("up_ref"); ENGINE_up_ref(e); structural++; } else { h("free"); ENGINE_free(e); structural--; } break;
        case 9: if (structural > 1) { h("free"); ENGINE_free(e); structural--; } else if (listed) { ENGINE *x = ENGINE_by_id("dstu"); h("by_id"); if (x != e) viol("C18/lookup", "listed engine not found by id"); if (x) ENGINE_free(x); } break;
        case 10: { unsigned b = (unsigned)g.range(1, 15); bool on = g.chance(1, 2); h(fmt("%s:%x", on ? "register" : "unregister", b)); set_reg(b, on); break; }
        case 11: { unsigned b = (unsigned)g.range(1, 15), f = 0; for (int i = 0; i < 4; i++) if (b & (1u << i)) f |= PARTS[i]; h(fmt("default:%x", b)); CHECK(ENGINE_set_default(e, f) == 1, "C18/default", "set_default(%x) refused", f); reg |= b; break; }
        case 12: if (g.chance(1, 2)) advertise(); else { h(rand_default ? "rand-off" : "rand-on"); if (rand_default) { install_test_rand(); rand_default = false; } else { CHECK(RAND_set_rand_engine(e) == 1, "C18/rand", "not accepted as random engine"); rand_default = true; } } break;
        case 13: if (g.chance(1, 3)) fail_something(); else { const RAND_METHOD *r = ENGINE_get_RAND(e); Bytes b(g.range(1, 30)); h("rand"); bool f = functional > 0; if (!f) ENGINE_init(e); if (!r || r->bytes(b.data(), (int)b.size()) != 1) viol("C18/rand", "random request failed"); if (g.chance(1, 3) && r) r->cleanup(); if (!f) ENGINE_finish(e); } break;
        }
        settle();
    }
    void release() {   // registrations go first (the tables hold no reference), everything else in any order
        if (rand_default) { install_test_rand(); rand_default = false; }
        h("release"); bool early_drop = g.chance(1, 3); if (early_drop) while (!objs.empty()) drop(g.below(objs.size()));
        set_reg(0xf, false); ENGINE_unregister_RAND(e); if (listed) { ENGINE_remove(e); listed = false; }
        size_t outlive = objs.size(); while (structural + functional > 0) { bool f = functional > 0 && (structural == 0 || g.chance(1, 2)); if (f) { ENGINE_finish(e); functional--; } else { ENGINE_free(e); structural--; } if (!objs.empty() && g.chance(1, 4)) use(objs[g.below(objs.size())]); }
        e = nullptr; settle();
        if (outlive) { stat("outliving_objects", (long)outlive); for (auto &o : objs) if (o.kind != 3) use(o); CHECK(mapped(), "C18/unloaded-early", "the module was unloaded while %zu objects use it", outlive); if (g.chance(1, 2)) fail_after_release(); while (!objs.empty()) drop(g.below(objs.size())); }
        h("gone"); if (held) stat("kept_in_memory"); else if (mapped()) { viol("C18/still-loaded", "all references are released but the module stays loaded"); }
        else stat("unloads");
        CHECK(!EVP_get_digestbyname(SN_dstu34311) && !EVP_get_digestbyname(LN_dstu34311) && !EVP_get_cipherbyname(SN_dstu28147_cfb) && !EVP_get_cipherbyname(LN_dstu28147_cfb), "C18/stale-name", "an algorithm of the unloaded engine is still found by name");
        read_errors(); CHECK(!ENGINE_get_digest_engine(NID_dstu34311) && !ENGINE_get_cipher_engine(NID_dstu28147_cfb) && !ENGINE_get_pkey_meth_engine(NID_dstu4145le) && !ENGINE_get_pkey_asn1_meth_engine(NID_dstu4145be), "C18/stale-table", "an unregistered engine is still found");
        PKey k(ref::decode_pkcs8(ref::pkcs8_der(*ref::named(0), ref::rand_scalar(g, ref::named(0)->n), true, nullptr))); CHECK(!k, "C18/stale-key", "a key is decoded without the engine"); ERR_clear_error();
    }
    void fail_after_release() { for (auto &o : objs) if (o.kind == 2) { PCtx c(EVP_PKEY_CTX_new(o.k.get(), nullptr)); if (c && EVP_PKEY_sign_init(c.get()) == 1) EVP_PKEY_CTX_ctrl(c.get(), -1, EVP_PKEY_OP_SIGN, EVP_PKEY_CTRL_MD, 0, (void *)EVP_sha256()); break; } }
};
static void history(long ci, Rng &g) {
    trand().reset(g.next()); int rounds = (int)g.range(1, 3); std::string all; bool keep = g.chance(1, 4); if (keep) { rounds++; all = "kept "; held = dlopen(run().engine.c_str(), RTLD_NOW); if (!held) harness_error("dlopen"); }
    for (int r = 0; r < rounds; r++) { World w(g); w.hist = all; w.load(); if (!w.e) break; if (g.chance(1, 6)) { w.h("idle"); } else { int n = (int)g.range(3, 40); for (int i = 0; i < n; i++) w.step(); } w.release(); all = w.hist; if (all.size() > 700) all = "..." + all.substr(all.size() - 700); sig(w.hist); stat("rounds"); if (ci < 4) sample(w.hist.substr(0, 500)); }
    if (held) { dlclose(held); held = nullptr; if (mapped()) viol("C18/still-loaded", "everything is released but the module stays loaded"); }
}
// What a program that relies on the registration made while binding sees once it has released its last reference: nothing of the engine may be left in
// libcrypto's tables. Done in a child, because the table entry that is left behind is a freed structure.
static void stale(long ci, Rng &g) {
    bool init = g.chance(1, 2); int what = (int)(ci % 4); desc(fmt("load %srelease, then look up part %d", init ? "init finish " : "", what)); sig(run().cur); if (ci < 2) sample(run().cur);
    fflush(nullptr); pid_t p = fork(); if (p < 0) harness_error("fork");
    if (p == 0) {
        close(2); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGABRT, SIG_DFL); alarm(60);
        ENGINE *e = load_engine_handle(run().engine); if (!e) _exit(3); if (init) { ENGINE_init(e); ENGINE_finish(e); } ENGINE_free(e); if (mapped()) _exit(4);
        ENGINE *x = what == 0 ? ENGINE_get_digest_engine(NID_dstu34311) : what == 1 ? ENGINE_get_cipher_engine(NID_dstu28147_cfb) : what == 2 ? ENGINE_get_pkey_meth_engine(NID_dstu4145le) : ENGINE_get_pkey_asn1_meth_engine(NID_dstu4145be); _exit(x ? 5 : 0);
    }
    int st = 0; waitpid(p, &st, 0); stat("stale_lookups"); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (rc == 3) viol("C18/load", "the engine does not load"); else if (rc == 4) viol("C18/still-loaded", "all references are released but the module stays loaded");
    else if (rc != 0) viol("C18/stale-registration", rc == 5 ? "the freed engine is still found in the registration table" : fmt("using the registration left behind crashes (status %x)", st));
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_ENGINE_DYNAMIC, nullptr); ENGINE_load_dynamic(); install_test_rand(); ref::init_curves(false, false); ref::default_sbox();
    if (mapped()) harness_error("engine already mapped");
    if (run().mode == "stale") for_cases(stale); else for_cases(history);
    ref::free_curves(); return finish_run();
}
