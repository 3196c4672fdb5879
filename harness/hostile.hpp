// Hostile-input machinery: DER-aware and byte-level mutation, per-execution heap monitors (leaks, budgets, uninitialised-memory metamorphism).
#pragma once
#include "keyview.hpp"

// ------------------------------------------------------------------ heap monitors
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
struct HeapMon { uint64_t count = 0, bytes = 0, biggest = 0; std::atomic<int> fill{0xbe}; bool hooked = false; };
inline HeapMon &heap() { static HeapMon h; return h; }
inline void heap_hook_malloc(const volatile void *, size_t n) { auto &h = heap(); h.count++; h.bytes += n; if (n > h.biggest) h.biggest = n; }
inline void heap_hook_free(const volatile void *) {}
// OPENSSL_malloc fills fresh memory with a chosen pattern; what the code does must not depend on it
inline void *fill_malloc(size_t n, const char *, int) { void *p = n ? malloc(n) : nullptr; if (p) memset(p, heap().fill, n); return p; }
inline void *fill_realloc(void *p, size_t n, const char *, int) { return realloc(p, n); }
inline void fill_free(void *p, const char *, int) { free(p); }
inline void init_heap_monitor(bool fill = true) {   // first thing in main
    if (fill && !getenv("VERIF_NOFILL") && !CRYPTO_set_mem_functions(fill_malloc, fill_realloc, fill_free)) harness_error("CRYPTO_set_mem_functions");
    if (__sanitizer_install_malloc_and_free_hooks && __sanitizer_install_malloc_and_free_hooks(heap_hook_malloc, heap_hook_free) > 0) heap().hooked = true;
}
inline size_t live_heap() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

// fnv accumulator of what an execution showed the caller
struct Outcome { uint64_t h = 1469598103934665603ull; std::string text; void add(const std::string &s) { h = fnv(s, h); if (text.size() < 2000) text += s + ";"; } void add(const char *k, long v) { add(fmt("%s=%ld", k, v)); } void add(const char *k, const Bytes &b) { add(fmt("%s:%zu:%016llx", k, b.size(), (unsigned long long)fnv(b.data(), b.size()))); } };

// Runs body under the monitors. body gets an Outcome to fill and must be repeatable (same inputs, same random stream each time).
inline Outcome guarded(const std::string &id, const std::string &kind, const std::function<void(Outcome &)> &body, uint64_t rseed, long rng_budget = 20000, uint64_t big = 8u << 20, uint64_t cnt = 3000000) {
    auto once = [&](int fill) { heap().fill = fill; trand().reset(rseed); trand().budget = rng_budget; Outcome o; body(o); ERR_clear_error(); if (trand().tripped) viol(id + "/no-termination:" + kind, fmt("more than %ld random requests", rng_budget)); return o; };
    heap().count = heap().bytes = heap().biggest = 0;
    size_t l0 = live_heap(); Outcome a = once(0xbe); size_t l1 = live_heap();
    if (heap().hooked) {
        if (heap().biggest > big) viol(id + "/memory:" + kind, fmt("a single request of %llu bytes", (unsigned long long)heap().biggest));
        if (heap().count > cnt) viol(id + "/work:" + kind, fmt("%llu allocations", (unsigned long long)heap().count));
    }
    Outcome b = once(0x41); size_t l2 = live_heap();
    if (a.h != b.h) viol(id + "/uninitialised:" + kind, "outcome depends on the contents of fresh memory: [" + a.text.substr(0, 600) + "] vs [" + b.text.substr(0, 600) + "]");
    if (l1 > l0 && l2 > l1) {     // growth that repeats with every execution is a leak
        size_t l = l2; bool leak = true; long per = 0;
        for (int i = 0; i < 4 && leak; i++) { once(0xbe); size_t n = live_heap(); per = (long)n - (long)l; leak = n > l; l = n; }
        if (leak) viol(id + "/leak:" + kind, fmt("%ld bytes stay allocated after every execution; outcome [%s]", per, a.text.substr(0, 800).c_str()));
    }
    return a;
}

// ------------------------------------------------------------------ DER tree
struct Node { uint8_t tag = 0; Bytes val; std::vector<Node> kids; bool cons = false, inner = false; int liehdr = 0; };   // inner: OCTET/BIT STRING whose content is DER
inline bool der_read(const uint8_t *p, size_t n, size_t &pos, uint8_t &tag, size_t &len) {
    if (pos + 2 > n) return false; tag = p[pos++]; if ((tag & 31) == 31) return false; uint8_t l = p[pos++];
    if (l < 128) len = l; else { int k = l & 127; if (k == 0 || k > 4 || pos + k > n) return false; len = 0; while (k--) len = len << 8 | p[pos++]; }
    return len <= n - pos;
}
inline bool der_parse(const uint8_t *p, size_t n, std::vector<Node> &o, int depth = 0) {
    size_t pos = 0; if (depth > 16) return false;
    while (pos < n) {
        Node x; size_t len; if (!der_read(p, n, pos, x.tag, len)) return false; x.val.assign(p + pos, p + pos + len);
        if (x.tag & 0x20) { x.cons = der_parse(p + pos, len, x.kids, depth + 1); if (!x.cons) { x.kids.clear(); return false; } }
        else if ((x.tag == 4 || x.tag == 3) && len > 2) { size_t off = x.tag == 3 ? 1 : 0; std::vector<Node> k; if (der_parse(p + pos + off, len - off, k, depth + 1) && !k.empty() && (k[0].tag == 0x30 || k[0].tag == 4)) { x.kids = k; x.inner = true; } }
        o.push_back(x); pos += len;
    }
    return true;
}
inline void der_write(const Node &x, Bytes &o) {
    Bytes v; if (x.cons || x.inner) { if (x.inner && x.tag == 3) v.push_back(0); for (auto &k : x.kids) der_write(k, v); } else v = x.val;
    Bytes e = ref::der(x.tag, v);
    if (x.liehdr) { Bytes h{x.tag}; switch (x.liehdr) { case 1: h.push_back((uint8_t)(v.size() + 1)); break; case 2: h.push_back((uint8_t)(v.size() ? v.size() - 1 : 127)); break; case 3: h.insert(h.end(), {0x84, 0xff, 0xff, 0xff, 0xff}); break; case 4: h.insert(h.end(), {0x84, 0x7f, 0xff, 0xff, 0xff}); break; case 5: h.push_back(0x80); break; case 6: h.insert(h.end(), {0x82, (uint8_t)(v.size() >> 8), (uint8_t)v.size()}); break; case 7: h.insert(h.end(), {0x83, 0, 0xff, 0xff}); break; } h.insert(h.end(), v.begin(), v.end()); if (x.liehdr == 5) h.insert(h.end(), {0, 0}); e = h; }
    o.insert(o.end(), e.begin(), e.end());
}
inline Bytes der_write(const std::vector<Node> &v) { Bytes o; for (auto &x : v) der_write(x, o); return o; }
inline void collect(std::vector<Node> &v, std::vector<std::pair<std::vector<Node> *, size_t>> &o) { for (size_t i = 0; i < v.size(); i++) { o.push_back({&v, i}); collect(v[i].kids, o); } }
inline Bytes hostile_int(Rng &g, const Bytes &cur) {
    switch (g.below(14)) {
    case 0: return {}; case 1: return {0}; case 2: return {1}; case 3: return {2}; case 4: return {0xff}; case 5: return {0x80};
    case 6: return {0x7f, 0xff, 0xff, 0xff}; case 7: return {0, 0x80, 0, 0, 0}; case 8: return {0, 0xff, 0xff, 0xff, 0xff}; case 9: return {1, 0, 0, 0, 0, 0, 0, 0, (uint8_t)g.below(200)};
    case 10: { unsigned v = (unsigned)g.range(1, 700); return v < 128 ? Bytes{(uint8_t)v} : v < 32768 ? Bytes{(uint8_t)(v >> 8), (uint8_t)v} : Bytes{0, 0x80, 0}; }
    case 11: { Bytes b = cur; if (!b.empty()) b.back() ^= (uint8_t)(1 << g.below(8)); return b; }
    case 12: return g.bytes(g.range(1, 80)); default: { Bytes b = g.bytes(g.chance(1, 8) ? g.range(100, 4000) : g.range(1, 30)); b[0] &= 0x7f; return b; }
    }
}
inline void mutate_node(std::vector<Node> &root, Rng &g) {
    std::vector<std::pair<std::vector<Node> *, size_t>> all; collect(root, all); if (all.empty()) return;
    auto pr = all[g.below(all.size())]; auto &sib = *pr.first; size_t i = pr.second; Node &x = sib[i];
    auto flat = [&](Node &y) { if (y.cons || y.inner) { Bytes v; if (y.inner && y.tag == 3) v.push_back(0); for (auto &k : y.kids) der_write(k, v); y.val = v; y.cons = y.inner = false; y.kids.clear(); } };
    switch (g.below(15)) {
    case 0: sib.erase(sib.begin() + i); break;
    case 1: { Node c = x; sib.insert(sib.begin() + i, c); break; }
    case 2: { size_t j = g.below(sib.size()); std::swap(sib[i], sib[j]); break; }
    case 3: { flat(x); static const std::vector<uint8_t> tags{2, 3, 4, 5, 6, 0x30, 0x31, 0xa0, 0xa1, 0x80, 0x81, 1, 12, 0x24, 0x23, 0x0c, 0x18}; x.tag = g.pick(tags); break; }
    case 4: x.liehdr = 1 + (int)g.below(7); break;
    case 5: flat(x); x.val.clear(); break;
    case 6: flat(x); x.val.resize(x.val.size() ? g.below(x.val.size()) : 0); break;
    case 7: flat(x); { Bytes t = g.bytes(g.range(1, 24)); x.val.insert(x.val.end(), t.begin(), t.end()); } break;
    case 8: flat(x); if (!x.val.empty()) x.val[g.below(x.val.size())] ^= (uint8_t)(1 << g.below(8)); break;
    case 9: flat(x); std::fill(x.val.begin(), x.val.end(), g.chance(1, 2) ? 0 : 0xff); break;
    case 10: { auto &o = *all[g.below(all.size())].first; if (!o.empty()) { Node c = o[g.below(o.size())]; sib[i] = c; } break; }
    case 11: flat(x); x.val = g.bytes(g.chance(1, 20) ? g.range(1000, 70000) : g.below(120)); break;
    case 12: if (!x.cons) { flat(x); if (!x.val.empty() && x.tag == 3) x.val[0] = (uint8_t)g.below(10); } break;
    default:   // integers get edge values most of the time
        { std::vector<Node *> ints; for (auto &a : all) if ((*a.first)[a.second].tag == 2) ints.push_back(&(*a.first)[a.second]); if (ints.empty()) break; Node &n = *ints[g.below(ints.size())]; n.val = hostile_int(g, n.val); }
    }
}
inline Bytes mutate_raw(Bytes b, Rng &g) {
    int n = 1 + (int)g.below(3);
    while (n--) switch (g.below(8)) {
        case 0: if (!b.empty()) b.resize(g.below(b.size())); break;
        case 1: { Bytes t = g.bytes(g.range(1, 8)); b.insert(b.begin() + g.below(b.size() + 1), t.begin(), t.end()); break; }
        case 2: if (!b.empty()) { size_t i = g.below(b.size()), k = std::min(b.size() - i, (size_t)g.range(1, 8)); b.erase(b.begin() + i, b.begin() + i + k); } break;
        case 3: if (!b.empty()) b[g.below(b.size())] = g.pick<uint8_t>({0, 1, 0x7f, 0x80, 0xff, 0x30, 4, 2}); break;
        case 4: { Bytes t = g.bytes(g.range(1, 40)); b.insert(b.end(), t.begin(), t.end()); break; }
        default: if (!b.empty()) b[g.below(b.size())] ^= (uint8_t)(1 << g.below(8));
    }
    return b;
}
inline Bytes mutate_der(const Bytes &b, Rng &g) {
    if (g.chance(1, 4)) return mutate_raw(b, g);
    std::vector<Node> t; if (!der_parse(b.data(), b.size(), t)) return mutate_raw(b, g);
    int n = g.chance(2, 3) ? 1 : (int)g.range(2, 4); while (n--) mutate_node(t, g);
    Bytes o = der_write(t); if (g.chance(1, 12)) o = mutate_raw(o, g); return o;
}
// heap copy of exactly the right size, so that any read beyond it is reported
struct Exact { uint8_t *p; size_t n; explicit Exact(const Bytes &b) : p((uint8_t *)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); } ~Exact() { free(p); } Exact(const Exact &) = delete; };
// non-empty data at the very end of an allocation of the right size; empty data gets a pointer one past a byte
inline const uint8_t *exact_ptr(const Exact &e) { return e.n ? e.p : e.p + 1; }
