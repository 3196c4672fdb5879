// C23: the openssl utility with the engine. Each case is a short session of commands in a scratch folder; results are judged by the references, every process must end
// normally with the right status. The engine in the utility runs under ASan+UBSan (preloaded runtime).
#include "keyview.hpp"
#include "containers.hpp"
#include <openssl/cms.h>
#include <openssl/pem.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace cont; using ref::Bn; using ref::seq; using ref::oid; using ref::octet; using ref::der; using ref::integer;
static std::string dir, preload; static int route; static std::vector<std::string> base_env;
static void put(const std::string &n, const Bytes &b) { FILE *f = fopen((dir + "/" + n).c_str(), "wb"); if (!f) harness_error("scratch file"); if (!b.empty()) fwrite(b.data(), 1, b.size(), f); fclose(f); }
static void put(const std::string &n, const std::string &s) { put(n, Bytes(s.begin(), s.end())); }
static Bytes get(const std::string &n) { Bytes b; FILE *f = fopen((dir + "/" + n).c_str(), "rb"); if (!f) return b; uint8_t t[65536]; size_t k; while ((k = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + k); fclose(f); return b; }
static std::string gets_(const std::string &n) { Bytes b = get(n); return std::string(b.begin(), b.end()); }
struct Res { int rc; Bytes out; std::string err; };
static Res cli(std::vector<std::string> a, bool engine_flag = true) {
    a.insert(a.begin(), "openssl"); if (engine_flag && (route == 0 || route == 3)) { a.insert(a.begin() + 2, "dstu"); a.insert(a.begin() + 2, "-engine"); }
    std::vector<char *> av; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(nullptr);
    std::vector<std::string> e = base_env; e.push_back("OPENSSL_CONF=" + (route == 0 ? std::string("/dev/null") : dir + "/cnf")); e.push_back("LD_PRELOAD=" + preload); e.push_back("RANDFILE=" + dir + "/rnd");
    std::vector<char *> ev; for (auto &s : e) ev.push_back((char *)s.c_str()); ev.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, (dir + "/stdin").c_str(), O_RDONLY | O_CREAT, 0600);
    posix_spawn_file_actions_addopen(&fa, 1, (dir + "/stdout").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, (dir + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addchdir_np(&fa, dir.c_str());
    pid_t p; if (posix_spawn(&p, "/usr/bin/openssl", &fa, nullptr, av.data(), ev.data()) != 0) harness_error("cannot start openssl"); posix_spawn_file_actions_destroy(&fa);
    int st = 0; waitpid(p, &st, 0); Res r{WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), get("stdout"), gets_("stderr")}; stat("commands"); stat("cmd_" + a[1]);
    std::string line; for (auto &s : a) line += s + " "; if (r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos || r.rc < 0 || r.rc >= 64) { size_t q = r.err.find("ERROR: "); viol("C23/crash:" + a[1], fmt("status %d from: %s\n", r.rc, line.c_str()) + r.err.substr(q == std::string::npos ? 0 : q, 1200)); }
    return r;
}
static std::string tail(const Res &r) { return fmt("status %d: ", r.rc) + r.err.substr(0, 500); }
#define NEED(r, what) do { if ((r).rc != 0) { viol(std::string("C23/failed:") + what, tail(r)); return; } } while (0)
static std::string pem(const char *label, const Bytes &d) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio(b, label, "", d.data(), (long)d.size()); Bytes v = from_bio(b); BIO_free(b); return std::string(v.begin(), v.end()); }
static Bytes unpem(const Bytes &t) { BIO *b = BIO_new_mem_buf(t.data(), (int)t.size()); char *n = nullptr, *h = nullptr; uint8_t *d = nullptr; long l = 0; Bytes r; if (PEM_read_bio(b, &n, &h, &d, &l) == 1) r.assign(d, d + l); OPENSSL_free(n); OPENSSL_free(h); OPENSSL_free(d); BIO_free(b); return r; }
static std::string last_hex(const Bytes &o) { std::string s(o.begin(), o.end()), h; for (auto i = s.rbegin(); i != s.rend(); ++i) { if (isxdigit((unsigned char)*i)) h = (char)tolower(*i) + h; else if (!h.empty()) break; } return h; }
struct K { ref::Curve *c; Bn d; ref::Pt Q; bool le; Bytes sb; bool fc; };
static K mk(Rng &g) { K k; for (;;) { k.c = g.chance(1, 2) ? ref::named((int)g.below(10)) : ref::any_curve(g, true); if (k.c->m < 100) continue; k.d = ref::rand_scalar(g, k.c->n); k.Q = ref::pub_of(*k.c, k.d); if (!BN_is_one((const BIGNUM *)k.Q.x) && !k.Q.x.zero() && !Bn::be(ref::compress(*k.c, k.Q)).zero()) break; } k.le = g.chance(1, 2); k.sb = g.chance(1, 2) ? ref::default_sbox() : ref::random_sbox(g); k.fc = g.chance(1, 4); return k; }
static void write_key(const K &k) { put("k.pem", pem("PRIVATE KEY", ref::pkcs8_der(*k.c, k.d, k.le, &k.sb, k.fc))); put("p.pem", pem("PUBLIC KEY", ref::spki_der(*k.c, k.Q, k.le, &k.sb, k.fc))); }
static Bytes ref_sign(const K &k, const Bytes &tbs, Rng &g) { ref::Sig s; while (!ref::sign_with(*k.c, k.d, tbs, ref::rand_scalar(g, k.c->n), s)) {} return octet(ref::sig_body(*k.c, s, k.le)); }
static bool ref_ok(const K &k, const Bytes &tbs, const Bytes &sg) { ref::Sig s; return ref::parse_sig(*k.c, sg, k.le, s) && ref::verify(*k.c, k.Q, tbs, s); }
static Bytes message(Rng &g) { return g.bytes(g.pick<size_t>({0, 1, 31, 32, 33, 63, 64, 100, g.below(300), g.below(5000), 8192, 8193, 20000})); }
static std::string word(Rng &g) { std::string s; size_t n = g.range(1, 20); for (size_t i = 0; i < n; i++) s += "abcdefghijkXYZ0123456789_-."[g.below(27)]; return s; }
static void one(long ci, Rng &g) {
    route = (int)g.below(5); int op = (int)g.below(13); Bytes m = message(g); bool in_stdin = g.chance(1, 2); put("m", m); put("stdin", in_stdin ? m : Bytes()); auto in = [&](std::vector<std::string> a) { if (!in_stdin) { a.push_back("-in"); a.push_back("m"); } return a; };
    { std::string c = "openssl_conf = i\n[i]\nengines = es\n[es]\ndstu = ds\n[ds]\n"; if (g.chance(1, 2) || route != 3) c += "engine_id = dstu\n"; c += "dynamic_path = " + run().engine + "\n"; if (route == 1) c += "default_algorithms = ALL\n"; if (route == 2) { std::string l; for (const char *x : {"DIGESTS", "CIPHERS", "PKEY_CRYPTO", "PKEY_ASN1", "RAND"}) if (g.chance(1, 2)) l += (l.empty() ? "" : ",") + std::string(x); c += "default_algorithms = " + (l.empty() ? "DIGESTS,CIPHERS,PKEY,RAND" : l) + "\n"; } if (route != 3) c += g.chance(1, 2) ? "init = 1\n" : ""; put("cnf", c); }
    bool conf = route == 1 || route == 2 || route == 4; static const char *RN[] = {"-engine", "default ALL", "default list", "config and -engine", "no defaults"}; desc(fmt("%s op=%d message %zu %s", RN[route], op, m.size(), in_stdin ? "stdin" : "file"));
    switch (op) {
    case 0: { std::vector<std::string> a = {"dgst", "-dstu34311"}; int f = (int)g.below(3); if (f == 1) a.push_back("-binary"); if (f == 2) a.push_back("-r"); if (!in_stdin) a.push_back("m"); Res r = cli(a); NEED(r, "dgst"); Bytes w = ref::hash(m); std::string s(r.out.begin(), r.out.end()); CHECK(f == 1 ? r.out == w : f == 2 ? s.compare(0, 64, hex(w)) == 0 : last_hex(r.out) == hex(w), "C23/digest", "%s expected %s", s.c_str(), hex(w).c_str()); break; }
    case 1: { std::string k = word(g); Bytes kb(k.begin(), k.end()); bool mac = conf && g.chance(1, 2); Res r;
        if (mac) { std::vector<std::string> a = in({"mac", "-digest", "dstu34311", "-macopt", "hexkey:" + hex(kb)}); a.push_back("HMAC"); r = cli(a, false); } else { std::vector<std::string> a = {"dgst", "-dstu34311", "-hmac", k}; if (!in_stdin) a.push_back("m"); r = cli(a); }
        NEED(r, "hmac"); CHECK(last_hex(r.out) == hex(ref::hmac(kb, m)), "C23/hmac", "%s expected %s", last_hex(r.out).c_str(), hex(ref::hmac(kb, m)).c_str()); break; }
    case 2: { Bytes k = g.bytes(32), iv = g.bytes(8); Bytes w = ref::cfb(ref::default_sbox(), k, iv, m, true); Res r = cli(in({"enc", "-dstu28147-cfb", "-e", "-K", hex(k), "-iv", hex(iv), "-out", "c"})); NEED(r, "enc"); CHECK(get("c") == w, "C23/encrypt", "ciphertext %s expected %s", shorthex(get("c")).c_str(), shorthex(w).c_str());
        put("c", w); Res d = cli({"enc", "-dstu28147-cfb", "-d", "-K", hex(k), "-iv", hex(iv), "-in", "c", "-out", "d"}); NEED(d, "dec"); CHECK(get("d") == m, "C23/decrypt", "plaintext differs"); break; }
    case 3: { std::string pw = word(g); Bytes salt = g.bytes(8); int it = (int)g.range(1, 60); Bytes kv = ref::pbkdf2(Bytes(pw.begin(), pw.end()), salt, it, 40); Res r = cli(in({"enc", "-dstu28147-cfb", "-pbkdf2", "-iter", std::to_string(it), "-md", "dstu34311", "-pass", "pass:" + pw, "-S", hex(salt), "-out", "c"})); NEED(r, "enc-password");
        Bytes w = ref::cfb(ref::default_sbox(), Bytes(kv.begin(), kv.begin() + 32), Bytes(kv.begin() + 32, kv.end()), m, true); CHECK(get("c") == w, "C23/password", "ciphertext %s expected %s", shorthex(get("c")).c_str(), shorthex(w).c_str()); break; }
    case 4: { bool le = g.chance(1, 2), dr = g.chance(1, 2); int ci2 = (int)g.below(11); Bytes sb = ref::default_sbox(); std::vector<std::string> a = {"genpkey", "-algorithm", le ? "dstu4145le" : "dstu4145be"}; if (ci2 < 10) { a.push_back("-pkeyopt"); a.push_back(fmt("curve:uacurve%d", ci2)); } if (g.chance(1, 2)) { sb = ref::random_sbox(g); while (sb[0] < 16) sb = ref::random_sbox(g); a.push_back("-pkeyopt"); a.push_back("sbox:" + hex(sb)); }
        if (dr) { a.push_back("-outform"); a.push_back("DER"); } ref::Curve &c = *ref::named(ci2 < 10 ? ci2 : 6); Bn prev;
        for (int i = 0; i < 2; i++) { Res r = cli(a); NEED(r, "genpkey"); Bytes d = dr ? r.out : unpem(r.out); PKey k(ref::decode_pkcs8(d)); Bn v; if (!k || !private_value(k.get(), v)) { viol("C23/genpkey", "key not readable: " + shorthex(d, 200)); break; } CHECK(!v.zero() && v < c.n, "C23/genpkey", "private value out of range"); CHECK(d == ref::pkcs8_der(c, v, le, &sb), "C23/genpkey", "key %s is not a %s key", shorthex(d, 300).c_str(), c.name.c_str()); CHECK(!(v == prev), "C23/genpkey", "the same key twice"); prev = v; stat("keys_generated"); } break; }
    case 5: case 6: { K k = mk(g); write_key(k); if (m.empty()) { m = {1}; put("m", m); } bool raw = op == 6; Bytes tbs = raw ? g.bytes(g.pick<size_t>({32, 32, 20, 64, 1})) : ref::hash(m, k.sb); put("h", tbs);
        Res r = raw ? cli({"pkeyutl", "-sign", "-inkey", "k.pem", "-in", "h", "-out", "s"}) : cli({"dgst", "-dstu34311", "-sign", "k.pem", "-out", "s", "m"}); NEED(r, "sign"); CHECK(ref_ok(k, tbs, get("s")), "C23/sign", "the signature made does not verify: %s", shorthex(get("s"), 200).c_str());
        Bytes sg = ref_sign(k, tbs, g); put("s", sg); auto ver = [&]() { return raw ? cli({"pkeyutl", "-verify", "-pubin", "-inkey", "p.pem", "-in", "h", "-sigfile", "s"}) : cli({"dgst", "-dstu34311", "-verify", "p.pem", "-signature", "s", "m"}); };
        Res v = ver(); CHECK(v.rc == 0, "C23/verify", "a right signature is refused: %s", tail(v).c_str()); if (g.chance(1, 2)) { sg[sg.size() - 1 - g.below(2 * k.c->os())] ^= 1 << g.below(8); put("s", sg); } else if (raw) { tbs[g.below(tbs.size())] ^= 1 << g.below(8); put("h", tbs); } else { m[g.below(m.size())] ^= 1 << g.below(8); put("m", m); tbs = ref::hash(m, k.sb); }
        bool want = ref_ok(k, tbs, sg); v = ver(); CHECK((v.rc == 0) == want, "C23/verify", "changed signature or data: %s", tail(v).c_str()); stat("signatures"); break; }
    case 7: { K k = mk(g); write_key(k); Bytes w = ref::spki_der(*k.c, k.Q, k.le, &k.sb); bool dr = g.chance(1, 2); std::vector<std::string> a = {"pkey", "-in", "k.pem", "-pubout"}; if (dr) { a.push_back("-outform"); a.push_back("DER"); } Res r = cli(a); NEED(r, "pkey"); Bytes d = dr ? r.out : unpem(r.out); CHECK(d == w, "C23/pubout", "%s expected %s", shorthex(d, 300).c_str(), shorthex(w, 300).c_str());
        r = cli({"pkey", "-pubin", "-in", "p.pem", "-pubout", "-outform", "DER"}); NEED(r, "pkey"); CHECK(r.out == w, "C23/pubout", "public key changed"); r = cli({"pkey", "-in", "k.pem", "-outform", "DER"}); NEED(r, "pkey"); CHECK(r.out == ref::pkcs8_der(*k.c, k.d, k.le, &k.sb), "C23/pkey", "private key changed"); 
        r = cli({"pkey", "-in", "k.pem", "-noout", "-text"}); NEED(r, "pkey"); std::string all; for (auto c : r.out) if (isxdigit(c)) all += (char)tolower(c); CHECK(all.find(hex(k.d.bytes(k.d.nbytes()))) != std::string::npos || k.d.nbytes() < 8, "C23/text", "private value not in the text"); r = cli({"pkey", "-in", "k.pem", "-noout", "-text_pub"}); NEED(r, "pkey"); all.clear(); for (auto c : r.out) if (isxdigit(c)) all += (char)tolower(c); CHECK(k.d.nbytes() < 8 || all.find(hex(k.d.bytes(k.d.nbytes()))) == std::string::npos, "C23/text", "private value in the public text"); break; }
    case 8: { K k = mk(g); write_key(k); std::string pw = word(g); Res r = cli({"pkcs8", "-topk8", "-in", "k.pem", "-v2", "dstu28147-cfb", "-iter", std::to_string(g.range(1, 50)), "-passout", "pass:" + pw, "-out", "e.pem"}); NEED(r, "pkcs8"); r = cli({"pkey", "-in", "e.pem", "-passin", "pass:" + pw, "-outform", "DER"}); NEED(r, "pkcs8-read"); CHECK(r.out == ref::pkcs8_der(*k.c, k.d, k.le, &k.sb), "C23/pkcs8", "the key changed under encryption");
        r = cli({"pkey", "-in", "e.pem", "-passin", "pass:" + pw + "x", "-outform", "DER"}); CHECK(r.rc != 0 || r.out != ref::pkcs8_der(*k.c, k.d, k.le, &k.sb), "C23/pkcs8", "a wrong password opens the key"); break; }
    case 9: { K k = mk(g); if (g.chance(1, 2)) k.sb = ref::default_sbox(); write_key(k); Bytes spki = ref::spki_der(*k.c, k.Q, k.le, &k.sb, k.fc), sn = g.bytes(8); sn[0] = sn[0] % 127 + 1; put("c.pem", pem("CERTIFICATE", cert_der(tbs_cert(spki, sn, "signer", k.le), octet(Bytes(64, 1)), k.le))); bool na = g.chance(1, 3); std::vector<std::string> a = {"cms", "-sign", "-binary", "-nodetach", "-md", "dstu34311", "-signer", "c.pem", "-inkey", "k.pem", "-in", "m", "-outform", "DER", "-out", "s.cms"}; if (na) a.push_back("-noattr");
        Res r = cli(a); NEED(r, "cms-sign"); r = cli({"cms", "-verify", "-noverify", "-binary", "-in", "s.cms", "-inform", "DER", "-out", "d"}); CHECK(r.rc == 0 && get("d") == m, "C23/cms", "the message made does not verify: %s", tail(r).c_str());
        Bytes s = get("s.cms"); if (m.size() >= 16) { auto it = std::search(s.begin(), s.end(), m.begin(), m.end()); if (it != s.end()) { it[(long)g.below(m.size())] ^= 1 << g.below(8); put("s.cms", s); r = cli({"cms", "-verify", "-noverify", "-binary", "-in", "s.cms", "-inform", "DER", "-out", "d"}); CHECK(r.rc != 0, "C23/cms", "a changed message verifies"); } } stat("messages"); break; }
    case 10: { Bytes k = g.bytes(32); Res r = cli({"cms", "-EncryptedData_encrypt", "-binary", "-secretkey", hex(k), "-dstu28147-cfb", "-in", "m", "-outform", "DER", "-out", "e"}); NEED(r, "cms-encrypt"); r = cli({"cms", "-EncryptedData_decrypt", "-binary", "-secretkey", hex(k), "-in", "e", "-inform", "DER", "-out", "d"}); NEED(r, "cms-decrypt"); CHECK(get("d") == m, "C23/cms", "content changed under encryption"); Bytes e = get("e"); CHECK(m.size() < 16 || std::search(e.begin(), e.end(), m.begin(), m.end()) == e.end(), "C23/cms", "content in clear"); break; }
    case 11: { int n = (int)g.pick({1, 16, 33, 1000}); Res a = cli({"rand", "-hex", std::to_string(n)}), b = cli({"rand", "-hex", std::to_string(n)}); NEED(a, "rand"); NEED(b, "rand"); std::string x = last_hex(a.out), y = last_hex(b.out); CHECK(x.size() == 2u * n && y.size() == 2u * n, "C23/rand", "%zu digits for %d bytes", x.size(), n); CHECK(n < 16 || x != y, "C23/rand", "two processes delivered the same bytes"); break; }
    case 12: { if (g.chance(1, 2)) { Res r = cli({"cms", "-verify", "-in", run().repo + "/tests/cms.pem", "-inform", "PEM", "-noverify", "-out", "d"}); CHECK(r.rc == 0, "C23/readme", "the documented command fails: %s", tail(r).c_str()); std::string t = gets_("d"); CHECK(t.find("<RQ V=\"1\">") != std::string::npos, "C23/readme", "other content"); }
        else { Res r = cli({"engine", "-t", "-c", "dstu"}, false); std::string t(r.out.begin(), r.out.end()); CHECK(r.rc == 0 && t.find("[ available ]") != std::string::npos, "C23/engine", "%s", t.c_str()); for (const char *w : {"RAND", "dstu28147-cfb", "dstu34311", "dstu4145le", "dstu4145be"}) CHECK(t.find(w) != std::string::npos, "C23/engine", "%s is missing: %s", w, t.c_str()); } break; }
    }
    sig(fmt("%d/%d/%zu/%d", route, op, std::min<size_t>(m.size(), 70), in_stdin)); if (ci < 3) sample(run().cur);
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    dir = run().tmp + "/cli"; mkdir(dir.c_str(), 0700); const char *p = getenv("C23_PRELOAD"); preload = p ? p : ""; if (!preload.empty() && access(preload.c_str(), R_OK)) harness_error("no sanitizer runtime"); if (access("/usr/bin/openssl", X_OK)) harness_error("no openssl utility");
    std::string ed = run().engine; ed = ed.substr(0, ed.rfind('/')); base_env = {"PATH=/usr/bin:/bin", "HOME=" + dir, "OPENSSL_ENGINES=" + ed}; for (const char *v : {"ASAN_OPTIONS", "UBSAN_OPTIONS"}) if (getenv(v)) base_env.push_back(std::string(v) + "=" + getenv(v));
    for_cases(one); ref::free_curves(); done_engine(); return finish_run();
}
