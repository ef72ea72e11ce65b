/* Values, types, validity, generation, corruption and the independent reference encoders (uPER and ACN). */
#pragma once
#include <cmath>
#include <cfloat>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include "nodeapi.h"
typedef __int128 i128;
typedef unsigned __int128 u128;
typedef std::vector<uint8_t> Bytes;
using std::string;
using std::vector;

// ------------------------------------------------------------------ the tape: every decision of a run goes through it
uint32_t draw(uint32_t n);             // uniform in [0,n); 0 is the simplest choice
inline bool chance(uint32_t pct) { return draw(100) >= 100 - pct; }   // 0 -> false
inline uint64_t draw64() { uint64_t a = draw(65536), b = draw(65536), c = draw(65536), d = draw(65536); return d << 48 | c << 32 | b << 16 | a; }
inline uint64_t splitmix(uint64_t& s) { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

enum Kind { K_INT, K_BOOL, K_NULL, K_REAL, K_ENUM, K_OCT, K_BIT, K_STR, K_OID, K_SEQOF, K_SEQ, K_CHOICE, K_CONT, K_REF, K_TIME };
enum Enc { E_DEF, E_POS, E_TWO, E_BCD, E_BCDNT, E_ASC, E_ASCNT, E_IEEE, E_BOOLP, E_NULLP, E_STR8, E_STRNT, E_BITNT, E_EXT, E_EXT8, E_POSLE, E_TWOLE, E_BCDLE, E_ASCLE };
struct T;
struct EItem { const char* n; long long v, a; };
struct Fld {
    string name; T* t; int opt = 0; i128 dflt = 0; bool pw = false;
    bool ins = false; string ik; int up = 0; vector<vector<int>> paths; vector<i128> vals;
};
struct T {
    Kind k = K_NULL; Enc enc = E_DEF;
    i128 lo = 0, hi = 0; bool hasLo = false, hasHi = false; double rlo = 0, rhi = 0;
    int p1 = 0, p2 = 0; string pat, pat2; int align = 0;
    vector<EItem> items; vector<int> alpha; bool ia5 = false, relative = false;
    T* elem = nullptr; vector<Fld> f;
    string refname; std::function<void(T*)> over;
    int nreal() const { int n = 0; for (auto& x : f) n += !x.ins; return n; }
};
struct Model { string name; std::map<string, T*> defs; vector<string> pdus; T* pdu(int i); };
static Model* cur;
static T* mk(Kind k, std::function<void(T*)> g) { T* t = new T; t->k = k; g(t); return t; }
static T* ref(const char* n, std::function<void(T*)> g) { T* t = new T; t->k = K_REF; t->refname = n; t->over = g; return t; }
static void fld(T* t, const char* n, T* ft, int opt, i128 d, bool pw) { Fld f; f.name = n; f.t = ft; f.opt = opt; f.dflt = d; f.pw = pw; t->f.push_back(f); }
static void ins(T* t, const char* n, T* ft, const char* k, int up, vector<vector<int>> paths, vector<i128> vals) {
    Fld f; f.name = n; f.t = ft; f.ins = true; f.ik = k; f.up = up; f.paths = paths; f.vals = vals; t->f.push_back(f); }
static void def(const char* n, T* t) { cur->defs[n] = t; }
// resolve references (shallow copy of the definition plus overrides)
static std::map<T*, bool> done_;
static void res(T* t, Model* m) {
    if (done_[t]) return;
    if (t->k == K_REF) {
        T* d = m->defs.at(t->refname); res(d, m);
        auto o = t->over; string n = t->refname; *t = *d; t->refname = n; o(t);
        done_[t] = true; return;
    }
    done_[t] = true;
    for (auto& f : t->f) res(f.t, m);
    if (t->elem) res(t->elem, m);
}
static void resolve_model(Model* m) { for (auto& d : m->defs) res(d.second, m); }
inline T* Model::pdu(int i) { return defs.at(pdus[i]); }

struct Val { i128 n = 0; double d = 0; Bytes by; vector<uint64_t> oid; vector<Val> k; bool has = true; };

// ------------------------------------------------------------------ tokens
struct Toks { vector<int64_t> v; };
static void toTok(const T* t, const Val& x, vector<int64_t>& o) {
    switch (t->k) {
    case K_INT: case K_BOOL: case K_ENUM: o.push_back((int64_t)(uint64_t)x.n); break;
    case K_NULL: break;
    case K_REAL: { int64_t b; memcpy(&b, &x.d, 8); o.push_back(b); break; }
    case K_OCT: case K_BIT: {
        o.push_back((int64_t)x.n);
        for (uint8_t b : x.by) o.push_back(b);
        break; }
    case K_STR: o.push_back((int64_t)x.by.size()); for (uint8_t b : x.by) o.push_back(b); break;
    case K_OID: o.push_back((int64_t)x.n); for (uint64_t b : x.oid) o.push_back((int64_t)b); break;
    case K_SEQOF: o.push_back((int64_t)x.n); for (auto& e : x.k) toTok(t->elem, e, o); break;
    case K_SEQ: { size_t i = 0;
        for (auto& f : t->f) if (!f.ins) { if (f.opt) o.push_back(x.k[i].has); i++; }
        i = 0;
        for (auto& f : t->f) if (!f.ins) { if (x.k[i].has || f.opt == 2) toTok(f.t, x.k[i], o); i++; }
        break; }
    case K_CHOICE: o.push_back((int64_t)x.n); if (x.n >= 0 && x.n < (i128)t->f.size()) toTok(t->f[(size_t)x.n].t, x.k[0], o); break;
    case K_CONT: toTok(t->elem, x, o); break;
    default: abort();
    }
}
static Val fromTok(const T* t, const vector<int64_t>& v, size_t& p) {
    auto nx = [&]() -> int64_t { return p < v.size() ? v[p++] : (p++, 0); };
    auto clamp = [&](i128 n, i128 hi) -> long { return n < 0 ? 0 : n > hi ? (long)hi : (long)n; };
    Val x;
    switch (t->k) {
    case K_INT: { int64_t a = nx(); x.n = (t->hasLo && t->lo >= 0) ? (i128)(uint64_t)a : (i128)a; break; }
    case K_BOOL: case K_ENUM: x.n = nx(); break;
    case K_NULL: break;
    case K_REAL: { int64_t a = nx(); memcpy(&x.d, &a, 8); break; }
    case K_OCT: { x.n = nx(); long m = clamp(x.n, t->hi); for (long i = 0; i < m; i++) x.by.push_back((uint8_t)nx()); break; }
    case K_BIT: { x.n = nx(); long m = (clamp(x.n, t->hi) + 7) / 8; for (long i = 0; i < m; i++) x.by.push_back((uint8_t)nx()); break; }
    case K_STR: { long m = clamp(nx(), t->hi + 1); x.n = m; for (long i = 0; i < m; i++) x.by.push_back((uint8_t)nx()); break; }
    case K_OID: { x.n = nx(); long m = clamp(x.n, 20); for (long i = 0; i < m; i++) x.oid.push_back((uint64_t)nx()); break; }
    case K_SEQOF: { x.n = nx(); long m = clamp(x.n, t->hi); for (long i = 0; i < m; i++) x.k.push_back(fromTok(t->elem, v, p)); break; }
    case K_SEQ: {
        vector<bool> has;
        for (auto& f : t->f) if (!f.ins) has.push_back(f.opt ? nx() != 0 : true);
        size_t i = 0;
        for (auto& f : t->f) if (!f.ins) { Val c; if (has[i] || f.opt == 2) c = fromTok(f.t, v, p); c.has = has[i]; x.k.push_back(c); i++; }
        break; }
    case K_CHOICE: x.n = nx(); if (x.n >= 0 && x.n < (i128)t->f.size()) x.k.push_back(fromTok(t->f[(size_t)x.n].t, v, p)); break;
    case K_CONT: x = fromTok(t->elem, v, p); break;
    default: abort();
    }
    return x;
}
static string show(const T* t, const Val& x, int lim = 400);
static string showB(const Bytes& b, size_t lim = 48) {
    string s; char q[4];
    for (size_t i = 0; i < b.size() && i < lim; i++) { snprintf(q, 4, "%02x", b[i]); s += q; }
    if (b.size() > lim) s += ".." + std::to_string(b.size());
    return s;
}
static string i2s(i128 v) { if (v == 0) return "0"; bool n = v < 0; u128 u = n ? -(u128)v : (u128)v; string s; while (u) { s += char('0' + (int)(u % 10)); u /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
static void show_(const T* t, const Val& x, string& s, size_t lim) {
    if (s.size() > lim) { return; }
    switch (t->k) {
    case K_INT: case K_BOOL: case K_ENUM: s += i2s(x.n); break;
    case K_NULL: s += "NULL"; break;
    case K_REAL: { char b[40]; snprintf(b, 40, "%.17g", x.d); s += b; break; }
    case K_OCT: case K_BIT: s += i2s(x.n) + "'" + showB(x.by, 40) + "'"; break;
    case K_STR: s += '"'; for (uint8_t c : x.by) { if (c >= 32 && c < 127) s += c; else { char q[6]; snprintf(q, 6, "\\x%02x", c); s += q; } } s += '"'; break;
    case K_OID: s += i2s(x.n) + ":"; for (auto o : x.oid) s += std::to_string(o) + "."; break;
    case K_SEQOF: s += i2s(x.n) + "["; for (auto& e : x.k) { show_(t->elem, e, s, lim); s += ","; if (s.size() > lim) break; } s += "]"; break;
    case K_SEQ: { size_t i = 0; s += "{"; for (auto& f : t->f) if (!f.ins) { s += f.name + "="; if (x.k[i].has) show_(f.t, x.k[i], s, lim); else s += "-"; s += " "; i++; } s += "}"; break; }
    case K_CHOICE: s += "<" + i2s(x.n) + ":"; if (!x.k.empty()) show_(t->f[(size_t)x.n].t, x.k[0], s, lim); s += ">"; break;
    case K_CONT: show_(t->elem, x, s, lim); break;
    default: s += "?";
    }
}
static string show(const T* t, const Val& x, int lim) { string s; show_(t, x, s, lim); if ((int)s.size() > lim) s = s.substr(0, lim) + "..."; return s; }

// ------------------------------------------------------------------ equality (NaN equals NaN)
static bool same(const T* t, const Val& a, const Val& b, string* why = nullptr, const string& at = "") {
    auto bad = [&](const string& m) { if (why && why->empty()) *why = at + ": " + m; return false; };
    switch (t->k) {
    case K_INT: case K_BOOL: case K_ENUM: return a.n == b.n ? true : bad(i2s(a.n) + " vs " + i2s(b.n));
    case K_NULL: return true;
    case K_REAL: return (a.d == b.d || (std::isnan(a.d) && std::isnan(b.d))) ? true : bad(show(t, a) + " vs " + show(t, b));
    case K_OCT: case K_BIT: case K_STR: return (a.n == b.n || t->k == K_STR) && a.by == b.by ? true : bad(show(t, a) + " vs " + show(t, b));
    case K_OID: return a.n == b.n && a.oid == b.oid ? true : bad(show(t, a) + " vs " + show(t, b));
    case K_SEQOF: if (a.n != b.n || a.k.size() != b.k.size()) return bad("count " + i2s(a.n) + " vs " + i2s(b.n));
        for (size_t i = 0; i < a.k.size(); i++) if (!same(t->elem, a.k[i], b.k[i], why, at + "[" + std::to_string(i) + "]")) return false;
        return true;
    case K_SEQ: { size_t i = 0;
        for (auto& f : t->f) if (!f.ins) {
            if (a.k[i].has != b.k[i].has) return bad("presence of " + f.name);
            if ((a.k[i].has || f.opt == 2) && !same(f.t, a.k[i], b.k[i], why, at + "." + f.name)) return false;
            i++; }
        return true; }
    case K_CHOICE: if (a.n != b.n || a.k.size() != b.k.size()) return bad("alternative " + i2s(a.n) + " vs " + i2s(b.n));
        return a.k.empty() || same(t->f[(size_t)a.n].t, a.k[0], b.k[0], why, at + "." + t->f[(size_t)a.n].name);
    case K_CONT: return same(t->elem, a, b, why, at);
    default: abort();
    }
}

// ------------------------------------------------------------------ validity against the ASN.1 constraints
// builtin: also the characters outside the built-in alphabet of IA5String (bytes above 127) are judged
static bool g_builtin_alpha = true;
static bool valid(const T* t, const Val& x, string* why = nullptr, const string& at = "") {
    auto bad = [&](const char* m) { if (why && why->empty()) *why = at + ": " + m + " " + show(t, x, 120); return false; };
    switch (t->k) {
    case K_INT: return (!t->hasLo || x.n >= t->lo) && (!t->hasHi || x.n <= t->hi) ? true : bad("out of range");
    case K_BOOL: case K_NULL: return true;
    case K_REAL: return !t->hasLo || (x.d >= t->rlo && x.d <= t->rhi) ? true : bad("real out of range");
    case K_ENUM: for (auto& i : t->items) if (i.v == x.n) return true; return bad("not an enumerant");
    case K_OCT: case K_BIT: return x.n >= t->lo && x.n <= t->hi ? true : bad("size");
    case K_STR: if ((i128)x.by.size() < t->lo || (i128)x.by.size() > t->hi) return bad("length");
        for (uint8_t c : x.by) if (!std::binary_search(t->alpha.begin(), t->alpha.end(), (int)c) && (g_builtin_alpha || !t->ia5)) return bad("alphabet");
        return true;
    case K_OID:
        if (t->relative) return x.n >= 1 && x.n <= 20 ? true : bad("oid");
        return x.n >= 2 && x.n <= 20 && x.oid[0] <= 2 && (x.oid[0] == 2 || x.oid[1] <= 39) ? true : bad("oid");
    case K_SEQOF: if (x.n < t->lo || x.n > t->hi) return bad("count");
        for (size_t i = 0; i < x.k.size(); i++) if (!valid(t->elem, x.k[i], why, at + "[" + std::to_string(i) + "]")) return false;
        return true;
    case K_SEQ: { size_t i = 0;
        for (auto& f : t->f) if (!f.ins) { if (x.k[i].has && !valid(f.t, x.k[i], why, at + "." + f.name)) return false; i++; }
        return true; }
    case K_CHOICE: if (x.n < 0 || x.n >= (i128)t->f.size()) return bad("selector");
        return valid(t->f[(size_t)x.n].t, x.k[0], why, at + "." + t->f[(size_t)x.n].name);
    case K_CONT: return valid(t->elem, x, why, at);
    default: abort();
    }
}

// holds an OCTET STRING or a SEQUENCE OF with a termination pattern
static bool looks_ahead(const T* t) {
    if (t->enc == E_BITNT && (t->k == K_OCT || t->k == K_SEQOF)) return true;
    if ((t->k == K_SEQOF || t->k == K_CONT) && looks_ahead(t->elem)) return true;
    for (auto& f : t->f) if (looks_ahead(f.t)) return true;
    return false;
}
// violating only by bytes above 127 in an IA5String that has no other alphabet constraint
static bool only_builtin_alphabet(const T* t, const Val& x) { if (valid(t, x)) return false; g_builtin_alpha = false; bool r = valid(t, x); g_builtin_alpha = true; return r; }

// ------------------------------------------------------------------ generation of valid values
struct GenOpt { int size = 1; bool w32 = false, frag = false; };     // frag: lengths around the fragments; size 0 minimal, 1 typical, 2 maximal ; w32: 32-bit words only
static i128 pick_int(i128 lo, i128 hi) {
    u128 span = (u128)(hi - lo);
    switch (draw(8)) {
    case 0: return lo <= 0 && hi >= 0 ? 0 : lo;
    case 1: return lo;
    case 2: return hi;
    case 3: { i128 v = lo + (i128)draw(4); return v > hi ? hi : v; }
    case 4: { i128 v = hi - (i128)draw(4); return v < lo ? lo : v; }
    case 5: { // near a power of two
        int b = (int)draw(64); i128 v = ((i128)1 << b) + (i128)draw(3) - 1; if (draw(2)) v = -v;
        return v < lo ? lo : v > hi ? hi : v; }
    case 6: { int b = 1 + (int)draw(64); i128 v = (i128)(draw64() >> (64 - b)); if (lo < 0 && draw(2)) v = -v; return v < lo ? lo : v > hi ? hi : v; }
    default: return span == ~(u128)0 ? (i128)draw64() : lo + (i128)((u128)draw64() % (span + 1));
    }
}
static long pick_len(long lo, long hi, const GenOpt& g) {
    if (lo == hi) return lo;
    long soft = hi > 400 ? std::max(lo, 300L) : hi;
    if (hi >= 16384 && (g.frag || draw(3) == 2)) {      // lengths around the fragments of X.691, 11.9.3.8
        static const long d[] = { 0, -1, 1, 127, 128, -128, 16383, 3000 };
        long v = 16384L * (1 + (long)draw((uint32_t)(hi / 16384))) + d[draw(4) ? draw(8) : 0];
        if (draw(6) == 5) v = hi - (long)draw(2);
        return v < lo ? lo : v > hi ? hi : v;
    }
    if (g.size == 2) return hi > 400 ? soft - (long)draw(8) : (draw(4) ? hi - 0 : lo + draw((uint32_t)(hi - lo + 1)));
    if (g.size == 0) return lo + (draw(4) == 3 ? (long)draw((uint32_t)std::min(hi - lo + 1, 3L)) : 0);
    switch (draw(6)) {
    case 0: return lo;
    case 1: return std::min(hi, lo + (long)draw(4));
    case 2: return hi > 400 ? lo + (long)draw(260) : hi;
    case 3: { static const long b[] = { 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 129, 255, 256 }; long v = b[draw(15)]; return v < lo ? lo : v > soft ? soft : v; }
    default: return lo + (long)draw((uint32_t)(soft - lo + 1));
    }
}
static void fill_bytes(Bytes& b, size_t n) {
    b.assign(n, 0);
    uint32_t m = draw(5);
    if (m == 0) return;
    if (m == 1) { std::fill(b.begin(), b.end(), 0xFF); return; }
    if (m == 2 && n <= 24) { for (auto& x : b) x = (uint8_t)draw(256); return; }
    uint64_t s = draw(65536) + 1;
    for (auto& x : b) x = (uint8_t)splitmix(s);
    if (m == 3) for (auto& x : b) if (x & 1) x = (x & 2) ? 0xFF : 0;
}
static double pick_real(const T* t) {
    double d;
    auto bits = [](uint64_t u) { double r; memcpy(&r, &u, 8); return r; };
    bool f32 = t->p1 == 32;
    if (t->hasLo) {
        switch (draw(5)) { case 0: d = (t->rlo <= 0 && t->rhi >= 0) ? 0 : t->rlo; break; case 1: d = t->rlo; break; case 2: d = t->rhi; break;
            default: d = t->rlo + (t->rhi - t->rlo) * ((double)(draw64() >> 11) / 9007199254740992.0); if (d < t->rlo) d = t->rlo; if (d > t->rhi) d = t->rhi; }
    } else switch (draw(9)) {
        case 0: d = 0; break;
        case 1: d = (double)draw(1000) - 500; break;
        case 2: d = ((double)draw(100000) - 50000) / 64; break;
        case 3: { static const double c[] = { 1, -1, 0.5, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 3.141592653589793, 1e300, 1e-300, 255, 256, 0.1, DBL_EPSILON, 4.9406564584124654e-324, 2.2250738585072009e-308 }; d = c[draw(16)]; break; }
        case 4: d = draw(2) ? INFINITY : -INFINITY; break;
        case 5: d = std::ldexp((double)(1 + draw(4096)), (int)draw(2000) - 1040); break;
        case 6: d = bits(draw64() & 0x000FFFFFFFFFFFFFULL); break;                       // denormal
        case 7: d = std::ldexp((double)(draw64() >> 11), (int)draw(200) - 100); if (draw(2)) d = -d; break;
        default: d = bits(draw64()); if (std::isnan(d)) d = 1.5; break;
    }
    if (f32) d = (double)(float)d;
    return d;
}
static bool bits_contain_early(const vector<bool>& d, const string& pat) {
    // does data+pat contain pat before its end?
    vector<bool> a = d; for (char c : pat) a.push_back(c == '1');
    for (size_t i = 0; i + pat.size() < a.size(); i++) { bool m = true; for (size_t j = 0; j < pat.size() && m; j++) m = a[i + j] == (pat[j] == '1'); if (m) return true; }
    return false;
}
static void harmonise(const T* t, Val& v, const GenOpt& g);
static Val gen_(const T* t, const GenOpt& g, int depth = 0);
static Val gen(const T* t, const GenOpt& g, int depth = 0) { Val v = gen_(t, g, depth); if (depth == 0) harmonise(t, v, g); return v; }
static Val gen_(const T* t, const GenOpt& g, int depth) {
    Val x;
    GenOpt g2 = g;
    switch (t->k) {
    case K_INT: {
        i128 lo = t->hasLo ? t->lo : -((i128)1 << (g.w32 ? 31 : 63));
        bool uns = t->hasLo && t->lo >= 0;
        i128 hi = t->hasHi ? t->hi : g.w32 ? (((i128)1 << (uns ? 32 : 31)) - 1) : uns ? ((i128)1 << 64) - 1 : ((i128)1 << 63) - 1;
        x.n = pick_int(lo, hi); break; }
    case K_BOOL: x.n = draw(2); break;
    case K_NULL: break;
    case K_REAL: x.d = pick_real(t); break;
    case K_ENUM: x.n = t->items[draw((uint32_t)t->items.size())].v; break;
    case K_OCT:
        x.n = pick_len((long)t->lo, (long)t->hi, g); fill_bytes(x.by, (size_t)x.n);
        if (t->enc == E_BITNT) { vector<bool> b; for (uint8_t c : x.by) for (int i = 7; i >= 0; i--) b.push_back(c >> i & 1); if (bits_contain_early(b, t->pat)) std::fill(x.by.begin(), x.by.end(), 0x11); }
        break;
    case K_BIT: {
        x.n = pick_len((long)t->lo, (long)t->hi, g); fill_bytes(x.by, (size_t)((x.n + 7) / 8));
        if (t->enc == E_BITNT) {
            vector<bool> b; for (long i = 0; i < (long)x.n; i++) b.push_back(x.by[i / 8] >> (7 - i % 8) & 1);
            if (bits_contain_early(b, t->pat)) std::fill(x.by.begin(), x.by.end(), 0xFF);
        }
        if (x.n % 8) x.by.back() &= (uint8_t)(0xFF << (8 - (int)(x.n % 8)));
        break; }
    case K_STR: {
        long n = pick_len((long)t->lo, (long)t->hi, g); x.n = n;
        uint32_t m = draw(3);
        for (long i = 0; i < n; i++) { int c; do { c = t->alpha[m == 0 ? (t->alpha.size() > 66 ? 65 : 0) : m == 1 ? t->alpha.size() - 1 : draw((uint32_t)t->alpha.size())]; if (c == 0) c = 1; } while (c == 0); x.by.push_back((uint8_t)c); }
        break; }
    case K_OID: {
        int n = t->relative ? 1 + (int)draw(5) : 2 + (int)draw(5);
        if (g.size == 2 && draw(4) == 3) n = 20;
        uint64_t top = g.w32 ? 0xFFFFFFFFu : ~0ULL; bool big = draw(6) == 5;
        for (int i = 0; i < n; i++) {
            if (big && i >= 2) { x.oid.push_back(top - draw(3)); continue; }
            if (!t->relative && i == 0) x.oid.push_back(draw(3));
            else if (!t->relative && i == 1) x.oid.push_back(x.oid[0] < 2 ? draw(40) : (uint64_t)pick_int(0, 2000));
            else x.oid.push_back((uint64_t)pick_int(0, draw(4) ? 100000 : (i128)top));
        }
        x.n = n; break; }
    case K_SEQOF: {
        if (depth > 0 && g.size == 2 && t->hi > 6 && draw(2)) g2.size = 1;
        long n = pick_len((long)t->lo, (long)t->hi, g);
        x.n = n;
        if (n > 40) { // long lists: one generated element pattern
            uint64_t s = draw(65536);
            for (long i = 0; i < n; i++) { Val e; i128 span = t->elem->k == K_BOOL ? 1 : t->elem->hi - t->elem->lo; e.n = t->elem->lo + (i128)((s ? splitmix(s) : 0) % (uint64_t)(span + 1)); x.k.push_back(e); }
        } else for (long i = 0; i < n; i++) x.k.push_back(gen_(t->elem, g2, depth + 1));
        break; }
    case K_SEQ:
        for (auto& f : t->f) if (!f.ins) {
            bool has = f.opt == 0 ? true : g.size == 2 ? !draw(5) || true : g.size == 0 ? draw(5) == 4 : draw(2);
            Val c;
            if (has) { c = gen_(f.t, g, depth + 1); if (f.opt == 2 && c.n == f.dflt) { has = false; } }
            if (!has && f.opt == 2) { c = Val(); c.n = f.dflt; }
            if (!has && f.opt != 2) c = Val();
            c.has = has; x.k.push_back(c);
        }
        break;
    case K_CHOICE: x.n = draw((uint32_t)t->f.size()); x.k.push_back(gen_(t->f[(size_t)x.n].t, g, depth + 1)); break;
    case K_CONT: x = gen_(t->elem, g, depth + 1); break;
    default: abort();
    }
    return x;
}

// ------------------------------------------------------------------ one determinant for several fields: make them agree
static Val* walk(const T* t, Val& v, const vector<int>& path, const T** tt, Fld const** ff) {
    Val* x = &v; *ff = nullptr;
    for (int k : path) {
        while (t->k == K_CONT) t = t->elem;
        int r = 0; for (auto& f : t->f) if (!f.ins) { if (r == k) { *ff = &f; break; } r++; }
        x = &x->k[(size_t)k]; t = (*ff)->t;
    }
    *tt = t; return x;
}
static void resize_val(const T* t, Val& v, long n, const GenOpt& g) {
    switch (t->k) {
    case K_OCT: v.n = n; v.by.resize((size_t)n, 0x5A); break;
    case K_BIT: v.n = n; v.by.resize((size_t)(n + 7) / 8, 0x5A); if (n % 8) v.by.back() &= (uint8_t)(0xFF << (8 - n % 8)); break;
    case K_STR: v.n = n; v.by.resize((size_t)n, (uint8_t)t->alpha[t->alpha.size() / 2]); break;
    case K_SEQOF: v.n = n; while ((long)v.k.size() < n) v.k.push_back(gen_(t->elem, g, 1)); v.k.resize((size_t)n); break;
    default: abort();
    }
}
// how: 0 make everything governed by one determinant agree, else make one of the governed fields of the how-th shared determinant disagree if it can
static void agree(const T* t, Val& v, const Fld& f, const GenOpt& g, bool break_) {
    const T* t0; const Fld* f0; Val* first = walk(t, v, f.paths[0], &t0, &f0);
    size_t odd = break_ ? 1 + draw((uint32_t)f.paths.size() - 1) : 0;
    if (f.ik == "len") {
        long lo = 0, hi = 1 << 30; for (auto& p : f.paths) { const T* a; const Fld* b; walk(t, v, p, &a, &b); lo = std::max(lo, (long)a->lo); hi = std::min(hi, (long)a->hi); }
        long n = std::min(std::max((long)first->n, lo), hi);
        for (auto& p : f.paths) { const T* a; const Fld* b; Val* x = walk(t, v, p, &a, &b); resize_val(a, *x, n, g); }
        if (odd) { const T* a; const Fld* b; Val* x = walk(t, v, f.paths[odd], &a, &b); long m = (long)pick_int(a->lo, a->hi); if (m == n) m = n > (long)a->lo ? n - 1 : n + 1; resize_val(a, *x, m, g); }
        return;
    }
    for (size_t i = 1; i < f.paths.size(); i++) {
        const T* a; const Fld* b; Val* x = walk(t, v, f.paths[i], &a, &b);
        if (f.ik == "pres") { bool want = first->has != (i == odd); if (want != x->has) { if (want) *x = gen_(a, g, 1); else *x = Val(); x->has = want; } }
        else { i128 want = first->n; if (i == odd) want = (want + 1 + draw((uint32_t)a->f.size() - 1)) % (i128)a->f.size(); if (x->n != want) { bool h = x->has; *x = Val(); x->n = want; x->has = h; x->k.push_back(gen_(a->f[(size_t)want].t, g, 1)); } }
    }
}
static void shared_(const T* t, Val& v, std::function<void(const T*, Val&, const Fld&)> fn) {
    switch (t->k) {
    case K_SEQ: {
        size_t i = 0;
        for (auto& f : t->f) if (!f.ins) { if (v.k[i].has) shared_(f.t, v.k[i], fn); i++; }
        // the governing fields sit in this sequence or in a header directly below it
        for (auto& f : t->f) {
            if (f.ins && f.up == 0 && f.paths.size() > 1) fn(t, v, f);
            if (!f.ins && f.t->k == K_SEQ) for (auto& h : f.t->f) if (h.ins && h.up == 1 && h.paths.size() > 1) fn(t, v, h);
        }
        break; }
    case K_SEQOF: for (auto& e : v.k) shared_(t->elem, e, fn); break;
    case K_CHOICE: if (!v.k.empty()) shared_(t->f[(size_t)v.n].t, v.k[0], fn); break;
    case K_CONT: shared_(t->elem, v, fn); break;
    default: break;
    }
}
static void harmonise(const T* t, Val& v, const GenOpt& g) { shared_(t, v, [&](const T* a, Val& x, const Fld& f) { agree(a, x, f, g, false); }); }
// make one shared determinant govern fields that disagree; false when the value has none
static bool disagree(const T* t, Val& v, const GenOpt& g) {
    int n = 0; shared_(t, v, [&](const T*, Val&, const Fld&) { n++; });
    if (!n) return false;
    int k = (int)draw((uint32_t)n), i = 0;
    shared_(t, v, [&](const T* a, Val& x, const Fld& f) { if (i++ == k) agree(a, x, f, g, true); });
    return true;
}

// ------------------------------------------------------------------ corruption (in-memory damage)
struct Site { const T* t; Val* v; string at; };
static void sites(const T* t, Val& x, vector<Site>& o, const string& at = "") {
    if (o.size() > 4000) return;
    switch (t->k) {
    case K_NULL: case K_BOOL: return;
    case K_REAL: if (t->hasLo) o.push_back({ t, &x, at }); return;
    case K_OCT: case K_BIT: if (t->lo != t->hi) o.push_back({ t, &x, at }); return;
    case K_SEQOF: if (t->lo != t->hi) o.push_back({ t, &x, at });
        for (size_t i = 0; i < x.k.size() && i < 40; i++) sites(t->elem, x.k[i], o, at + "[" + std::to_string(i) + "]");
        return;
    case K_SEQ: { size_t i = 0; for (auto& f : t->f) if (!f.ins) { if (x.k[i].has) sites(f.t, x.k[i], o, at + "." + f.name); i++; } return; }
    case K_CHOICE: o.push_back({ t, &x, at }); sites(t->f[(size_t)x.n].t, x.k[0], o, at + "." + t->f[(size_t)x.n].name); return;
    case K_CONT: sites(t->elem, x, o, at); return;
    case K_INT: if (!t->hasLo && !t->hasHi) return; o.push_back({ t, &x, at }); return;
    default: o.push_back({ t, &x, at });
    }
}
static void corrupt(Site s) {
    const T* t = s.t; Val& x = *s.v;
    auto cnt = [&](i128 lo, i128 hi) -> i128 { switch (draw(6)) { case 0: return hi + 1; case 1: return lo - 1; case 2: return -1; case 3: return INT32_MAX; case 4: return INT32_MIN; default: return (i128)(int32_t)(draw64()); } };
    switch (t->k) {
    case K_INT: {
        bool uns = t->hasLo && t->lo >= 0;
        i128 mn = uns ? 0 : -((i128)1 << 63), mx = uns ? ((i128)1 << 64) - 1 : ((i128)1 << 63) - 1;
        i128 v;
        switch (draw(5)) { case 0: v = t->hasHi ? t->hi + 1 + draw(3) : t->lo - 1 - draw(3); break; case 1: v = t->hasLo ? t->lo - 1 - draw(3) : t->hi + 1; break;
            case 2: v = x.n ^ ((i128)1 << draw(64)); break; case 3: v = mx - draw(2); break; default: v = mn + (i128)draw64(); }
        if (v < mn) v = mn; if (v > mx) v = mx;
        x.n = v; break; }
    case K_REAL: { switch (draw(5)) { case 0: x.d = std::nextafter(t->rhi, INFINITY); break; case 1: x.d = std::nextafter(t->rlo, -INFINITY); break; case 2: x.d = NAN; break; case 3: x.d = INFINITY; break; default: x.d = -1e30; } break; }
    case K_ENUM: { switch (draw(4)) { case 0: x.n = t->items.back().v + 1; break; case 1: x.n = t->items[draw((uint32_t)t->items.size())].v + 1 - 2 * (int)draw(2); break; case 2: x.n = (i128)(int32_t)draw64(); break; default: x.n = x.n ^ ((i128)1 << draw(31)); } break; }
    case K_OCT: x.n = cnt(t->lo, t->hi); { long m = x.n < 0 ? 0 : x.n > t->hi ? (long)t->hi : (long)x.n; x.by.resize(m); } break;
    case K_BIT: x.n = cnt(t->lo, t->hi); { long m = x.n < 0 ? 0 : x.n > t->hi ? (long)t->hi : (long)x.n; x.by.resize((m + 7) / 8); if (m % 8) x.by.back() &= (uint8_t)(0xFF << (8 - m % 8)); } break;
    case K_STR:
        if (draw(2) || x.by.empty()) { if (t->lo > 0) x.by.resize(draw((uint32_t)t->lo)); else if (!x.by.empty()) x.by[0] = 200; }
        else { size_t i = draw((uint32_t)x.by.size()); x.by[i] = draw(2) ? (uint8_t)(x.by[i] ^ (1 << draw(8))) : (uint8_t)(1 + draw(255)); if (!x.by[i]) x.by.resize(i); }
        x.n = x.by.size();
        break;
    case K_OID: { switch (draw(4)) { case 0: x.n = 0; break; case 1: x.n = 21 + draw(3); break; case 2: x.n = -1; break; default: if (!t->relative) { x.oid[0] = 3 + draw(3); } else x.n = 0; }
        long m = x.n < 0 ? 0 : x.n > 20 ? 20 : (long)x.n; x.oid.resize(m); break; }
    case K_SEQOF: { x.n = cnt(t->lo, t->hi); long m = x.n < 0 ? 0 : x.n > t->hi ? (long)t->hi : (long)x.n; Val z; if (x.k.empty()) { GenOpt g; g.size = 0; z = gen(t->elem, g); } else z = x.k[0]; x.k.resize(m, z); break; }
    case K_CHOICE: { switch (draw(4)) { case 0: x.n = -1; break; case 1: x.n = (i128)t->f.size(); break; case 2: x.n = (i128)t->f.size() + draw(1000); break; default: x.n = -1 - (i128)draw(1000); } x.k.clear(); break; }
    default: break;
    }
}

// ------------------------------------------------------------------ the reference encoders
struct BitW {
    vector<bool> b;
    void bit(bool v) { b.push_back(v); }
    void bits(u128 v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back((bool)(v >> i & 1)); }
    void byte(int v) { bits((u128)v, 8); }
    void pat(const string& s) { for (char c : s) b.push_back(c == '1'); }
    Bytes bytes() const { Bytes r((b.size() + 7) / 8, 0); for (size_t i = 0; i < b.size(); i++) if (b[i]) r[i / 8] |= (uint8_t)(0x80 >> (i % 8)); return r; }
};
static int nbits(u128 range) { int n = 0; while (range) { n++; range >>= 1; } return n; }   // bits to hold 0..range
static int minbytes_u(u128 v) { int n = 1; while (v >>= 8) n++; return n; }
static int minbytes_s(i128 v) { int n = 1; while (v < -((i128)1 << (8 * n - 1)) || v >= ((i128)1 << (8 * n - 1))) n++; return n; }
struct RefEnc {
    BitW w; bool acn = false; bool conflict = false;      // conflict: one determinant would need two values
    // the forger: a hostile sender that follows the format but writes other control fields (sizes, selectors, presence, headers)
    int* points = nullptr; int target = -1, target2 = -1; int forged = 0;
    u128 ctl(u128 v, u128 mx) {
        if (!points) return v;
        int k = (*points)++;
        if (k != target && k != target2) return v;
        u128 nv = v;
        switch (draw(7)) { case 0: nv = mx; break; case 1: nv = v + 1; break; case 2: nv = v - 1; break; case 3: nv = 0; break; case 4: nv = mx - draw(4); break; case 5: nv = v ^ ((u128)1 << draw(8)); break;
            default: nv = ((u128)draw64() << 32 | draw64()) & mx; }
        if (nv > mx) nv = mx;
        forged += nv != v;
        return nv;
    }
    static u128 ones(int n) { return n >= 128 ? ~(u128)0 : (((u128)1 << n) - 1); }
    void fill(long nbits) { uint32_t m = draw(3); uint64_t q = 1; for (long i = 0; i < nbits; i++) w.bit(m == 0 ? false : m == 1 ? true : (splitmix(q) & 1)); }
    struct Scope { const T* t; const Val* v; };
    vector<Scope> stk;
    void len_det(long n) { if (n < 128) w.byte((int)n); else { w.bits(2, 2); w.bits((u128)n, 14); } }
    void xbits(u128 v, int n) { w.bits(ctl(v, ones(n)), n); }
    void integer(const T* t, i128 v) {
        if (t->hasLo && t->hasHi) { xbits((u128)(v - t->lo), nbits((u128)(t->hi - t->lo))); }
        else if (t->hasLo) { u128 u = (u128)(v - t->lo); int n = minbytes_u(u); if (points) { int m = (int)ctl(n, 255); w.byte(m); if (m != n) { fill(8 * m); return; } } else w.byte(n); w.bits(u, 8 * n); }
        else { int n = minbytes_s(v); if (points) { int m = (int)ctl(n, 255); w.byte(m); if (m != n) { fill(8 * m); return; } } else w.byte(n); w.bits((u128)v, 8 * n); }
    }
    void real(double d) {       // X.690 8.5, binary base 2, 53-bit mantissa as the tool emits it
        if (points && d != 0) {         // forge the length, the header or the exponent length
            int k = (int)ctl(0, 5);
            if (k) { int L = k == 1 ? draw(256) : 1 + (int)draw(14); w.byte(L); if (L) { w.byte(0x80 | (int)draw(128)); fill(8 * (L - 1)); } return; }
        }
        if (d == 0) { w.byte(0); return; }
        if (std::isinf(d)) { w.byte(1); w.byte(d > 0 ? 0x40 : 0x41); return; }
        if (std::isnan(d)) { w.byte(1); w.byte(0x42); return; }
        int e; double m = std::frexp(std::fabs(d), &e); uint64_t M; 
        uint64_t raw; memcpy(&raw, &d, 8); (void)m;
        int be = (int)(raw >> 52 & 0x7FF);
        if (be == 0) { M = raw & 0xFFFFFFFFFFFFFULL; e = -1074; }
        else { M = (raw & 0xFFFFFFFFFFFFFULL) | 0x10000000000000ULL; e = be - 1075; }
        int ne = minbytes_s(e), nm = minbytes_u(M);
        w.byte(1 + ne + nm); w.byte(0x80 | (d < 0 ? 0x40 : 0) | (ne - 1)); w.bits((u128)(i128)e, 8 * ne); w.bits(M, 8 * nm);
    }
    // general length with fragmentation (X.691 11.9.3.8): emits items through put(i)
    void frag(long n, std::function<void(long)> put) {
        long i = 0;
        if (points) {
            long n0 = n; int blocks = 0;
            auto item = [&](long j) { if (n0 > 0) put(j % n0); else fill(8); };
            while (n - i >= 16384 || (blocks < 6 && ctl(0, 1))) {
                long k = std::max(1L, std::min(4L, (n - i) / 16384)); long k2 = (long)ctl((u128)k, 63);
                w.bits(3, 2); w.bits((u128)k2, 6); if (k2 > 8) k2 = 1; for (long j = 0; j < k2 * 16384; j++) item(i++); blocks++; }
            long rest = n > i ? n - i : 0; long m = (long)ctl((u128)rest, 16383);
            if (m == rest && ctl(0, 1)) { w.bits(2, 2); w.bits((u128)m, 14); } else len_det(m);
            for (long j = 0; j < m; j++) item(i++);
            return;
        }
        while (n - i >= 16384) { long k = std::min(4L, (n - i) / 16384); w.bits(3, 2); w.bits((u128)k, 6); for (long j = 0; j < k * 16384; j++) put(i++); }
        len_det(n - i); while (i < n) put(i++);
    }
    void sized(const T* t, long n, std::function<void(long)> put) {
        if (t->enc == E_EXT || t->enc == E_EXT8) { for (long i = 0; i < n; i++) put(i); return; }
        if (t->hi < 65536 && t->p2 != 77) {
            if (t->lo != t->hi && points) { int nb = nbits((u128)(t->hi - t->lo)); long m = (long)ctl((u128)(n - t->lo), ones(nb)); w.bits((u128)m, nb); m += (long)t->lo;
                for (long i = 0; i < m; i++) { if (n > 0) put(i % n); else fill(8); } return; }
            if (t->lo != t->hi) w.bits((u128)(n - t->lo), nbits((u128)(t->hi - t->lo))); for (long i = 0; i < n; i++) put(i); }
        else frag(n, put);
    }
    void chr(const T* t, int c) {
        if (t->enc == E_STR8 || t->enc == E_STRNT || t->enc == E_EXT8) { w.byte(c); return; }
        if (t->ia5) { w.bits((u128)c, 7); return; }
        size_t i = std::lower_bound(t->alpha.begin(), t->alpha.end(), c) - t->alpha.begin();
        int nb = nbits(t->alpha.size() - 1);
        if (points && (*points & 3) == 0) xbits(i, nb); else w.bits(i, nb);
    }
    void oid(const T* t, const Val& v) {
        Bytes b;
        auto sub = [&](u128 x) { Bytes r; r.push_back((uint8_t)(x & 127)); while (x >>= 7) r.push_back((uint8_t)(x & 127) | 128); b.insert(b.end(), r.rbegin(), r.rend()); };
        size_t i = 0;
        if (!t->relative) { sub((u128)v.oid[0] * 40 + v.oid[1]); i = 2; }
        for (; i < v.oid.size(); i++) sub(v.oid[i]);
        if (points) { long m = (long)ctl(b.size(), 200); int last = (int)ctl(0, 2); if (m || !last) len_det(m);
            for (long j = 0; j < m; j++) w.byte((last == 1 && j == m - 1) || last == 2 ? b[(size_t)j % b.size()] | 0x80 : b[(size_t)j % b.size()]); return; }
        len_det((long)b.size()); for (uint8_t x : b) w.byte(x);
    }
    void fixedint(const T* t, i128 v) {
        if (t->p2) for (int i = 0; i < t->p1 / 8; i++) w.byte((int)((u128)v >> (8 * i) & 255));
        else w.bits((u128)v, t->p1);
    }
    void intlike(const T* t, i128 v) {
        if (points) switch (t->enc) {
        case E_POS: case E_TWO: v = (i128)ctl((u128)v & ones(t->p1), ones(t->p1)); break;
        case E_BCD: { u128 m = 1; for (int i = 0; i < t->p1 && i < 36; i++) m *= 10; v = (i128)ctl((u128)v, m - 1); break; }
        case E_BCDNT: { int k = (int)ctl(0, 3); if (k) { int nd = k == 1 ? 40 : (int)draw(30); for (int i = 0; i < nd; i++) w.bits(draw(10), 4); w.bits(k == 3 ? 9 + draw(7) : 15, 4); return; } break; }
        case E_ASC: { int k = (int)ctl(0, 3); if (k) { for (int i = 0; i < t->p1; i++) w.byte(i == 0 && t->lo < 0 ? (k == 1 ? '-' : k == 2 ? '+' : '0') : k == 3 ? (int)draw(256) : '0' + (int)draw(10)); return; } break; }
        case E_ASCNT: { int k = (int)ctl(0, 3); if (k) { int nd = k == 1 ? 40 : (int)draw(30); if (t->lo < 0) w.byte(draw(2) ? '-' : '+'); for (int i = 0; i < nd; i++) w.byte(k == 3 ? (int)draw(128) : '0' + (int)draw(10)); w.pat(t->pat); return; } break; }
        case E_POSLE: case E_TWOLE: case E_BCDLE: case E_ASCLE: { int k = (int)ctl(0, 5); if (k) { int L = k == 1 ? draw(256) : k == 2 ? (int)draw(24) : (int)draw(12); w.byte(L); if (k == 5) { fill(8 * L); return; }
            for (int i = 0; i < L; i++) if (t->enc == E_BCDLE) w.bits(k == 4 && i > 8 ? 9 : draw(10), 4); else if (t->enc == E_ASCLE) w.byte(i == 0 && t->lo < 0 ? (draw(2) ? '-' : '+') : '0' + (int)draw(10)); else w.byte(draw(256));
            return; } break; }
        default: break;
        }
        switch (t->enc) {
        case E_POSLE: { int n = minbytes_u((u128)v); w.byte(n); w.bits((u128)v, 8 * n); break; }
        case E_TWOLE: { int n = minbytes_s(v); w.byte(n); w.bits((u128)v, 8 * n); break; }
        case E_BCDLE: { string s = v == 0 ? string() : i2s(v); w.byte((int)s.size()); for (char c : s) w.bits((u128)(c - '0'), 4); break; }
        case E_ASCLE: { bool sg = t->lo < 0; string s = i2s(v < 0 ? -v : v); if (sg) s = (v < 0 ? "-" : "+") + s; w.byte((int)s.size()); for (char c : s) w.byte(c); break; }
        case E_POS: case E_TWO: fixedint(t, v); break;
        case E_BCD: { string s = i2s(v); while ((int)s.size() < t->p1) s = "0" + s; for (char c : s) w.bits((u128)(c - '0'), 4); break; }
        case E_BCDNT: { string s = v == 0 ? string() : i2s(v); /* the tool writes no digit for 0 */ for (char c : s) w.bits((u128)(c - '0'), 4); w.bits(15, 4); break; }
        case E_ASC: { bool sg = t->lo < 0; string s = i2s(v < 0 ? -v : v); while ((int)s.size() < t->p1 - (sg ? 1 : 0)) s = "0" + s; if (sg) s = (v < 0 ? "-" : "+") + s; for (char c : s) w.byte(c); break; }
        case E_ASCNT: { bool sg = t->lo < 0; string s = i2s(v < 0 ? -v : v); if (sg) s = (v < 0 ? "-" : "+") + s; for (char c : s) w.byte(c); w.pat(t->pat); break; }
        default: integer(t, v);
        }
    }
    const Val* at(const Scope& s, const vector<int>& path, const T** tt, size_t upto) {
        const Val* v = s.v; const T* t = s.t;
        for (size_t i = 0; i < upto; i++) {
            if (t->k == K_CONT) t = t->elem;
            int k = path[i], r = 0; const Fld* ff = nullptr;
            for (auto& f : t->f) if (!f.ins) { if (r == k) { ff = &f; break; } r++; }
            v = &v->k[k]; t = ff->t;
            if (!v->has) { *tt = t; return nullptr; }
        }
        *tt = t; return v;
    }
    RefEnc sub(bool forge) const { RefEnc r; r.acn = acn; r.stk = stk; if (forge) { r.points = points; r.target = target; r.target2 = target2; } return r; }
    // size of a contained encoding: bytes (padded), or bits for BIT STRING
    long cont_size(const T* t, const Val& v) { RefEnc r = sub(false); r.enc(t->elem, v); return t->p1 ? (long)r.w.b.size() : (long)((r.w.b.size() + 7) / 8); }
    i128 insval(const Fld& f) {
        if (f.ik == "const") return f.vals[0];
        i128 r = insval1(f, f.paths[0]);
        for (size_t i = 1; i < f.paths.size(); i++) if (insval1(f, f.paths[i]) != r) conflict = true;
        return r;
    }
    i128 insval1(const Fld& f, const vector<int>& path) {
        Scope s = stk[stk.size() - 1 - f.up];
        const T* t; 
        const Val* v = at(s, path, &t, path.size());
        if (f.ik == "pres") return v != nullptr;
        if (!v) return f.vals.empty() || f.ik == "choice" ? absent_default(f) : 0;
        if (f.ik == "len") return t->k == K_STR ? (i128)v->by.size() : t->k == K_CONT ? (i128)cont_size(t, *v) : v->n;
        if (f.ik == "choice") return f.vals.empty() ? f.t->items[(size_t)v->n].v : f.vals[(size_t)v->n];
        abort();
    }
    i128 absent_default(const Fld& f) { return f.t->k == K_ENUM ? f.t->items[0].v : 0; }
    void enc(const T* t, const Val& v) {
        if (acn && t->align) while (w.b.size() % t->align) w.bit(0);
        switch (t->k) {
        case K_INT: intlike(t, v.n); break;
        case K_BOOL: if (t->enc == E_BOOLP) w.pat(v.n ? t->pat : t->pat2); else w.bit(v.n != 0); break;
        case K_NULL: w.pat(t->pat); break;
        case K_REAL:
            if (t->enc == E_IEEE) {
                uint64_t u; int n = t->p1 / 8;
                if (n == 8) memcpy(&u, &v.d, 8); else { float f = (float)v.d; uint32_t q; memcpy(&q, &f, 4); u = q; }
                for (int i = 0; i < n; i++) w.byte((int)(u >> (8 * (t->p2 ? i : n - 1 - i)) & 255));
            } else real(v.d);
            break;
        case K_ENUM: {
            vector<EItem> it = t->items;
            if (t->enc == E_DEF) {
                std::sort(it.begin(), it.end(), [](const EItem& a, const EItem& b) { return a.v < b.v; });
                for (size_t i = 0; i < it.size(); i++) if (it[i].v == v.n) { xbits(i, nbits(it.size() - 1)); break; }
            } else for (auto& i : it) if (i.v == v.n) intlike(t, i.a);
            break; }
        case K_OCT: if (t->enc == E_BITNT) { for (uint8_t c : v.by) w.byte(c); w.pat(t->pat); break; } sized(t, (long)v.n, [&](long i) { w.byte(v.by[i]); }); break;
        case K_BIT:
            if (t->enc == E_BITNT) { for (long i = 0; i < (long)v.n; i++) w.bit(v.by[i / 8] >> (7 - i % 8) & 1); w.pat(t->pat); }
            else sized(t, (long)v.n, [&](long i) { w.bit(v.by[i / 8] >> (7 - i % 8) & 1); });
            break;
        case K_STR:
            if (t->enc == E_STRNT) { for (uint8_t c : v.by) w.byte(c); w.pat(t->pat); }
            else if (t->enc == E_STR8) for (uint8_t c : v.by) w.byte(c);
            else sized(t, (long)v.by.size(), [&](long i) { chr(t, v.by[i]); });
            break;
        case K_OID: oid(t, v); break;
        case K_SEQOF: if (t->enc == E_BITNT) { for (auto& k : v.k) enc(t->elem, k); w.pat(t->pat); break; } sized(t, (long)v.n, [&](long i) { enc(t->elem, v.k[i]); }); break;
        case K_SEQ: {
            stk.push_back({ t, &v });
            size_t i = 0;
            for (auto& f : t->f) if (!f.ins) { if (f.opt && !f.pw) w.bit(ctl(v.k[i].has, 1) != 0); i++; }
            i = 0;
            for (auto& f : t->f) {
                if (f.ins) { Val q; q.n = insval(f); enc(f.t, q); }
                else { if (v.k[i].has) enc(f.t, v.k[i]); i++; }
            }
            stk.pop_back();
            break; }
        case K_CHOICE:
            if (t->enc != E_EXT) xbits((u128)v.n, nbits(t->f.size() - 1));
            enc(t->f[(size_t)v.n].t, v.k[0]); break;
        case K_CONT: { RefEnc r = sub(true); r.enc(t->elem, v); forged += r.forged; conflict |= r.conflict;
            if (!t->p1) while (r.w.b.size() % 8) r.w.bit(0);
            if (t->enc != E_DEF) { w.b.insert(w.b.end(), r.w.b.begin(), r.w.b.end()); break; }
            long u = t->p1 ? 1 : 8, n = (long)r.w.b.size() / u; 
            if (!points && (n < t->lo || n > t->hi)) { fprintf(stderr, "contained size %ld outside %lld..%lld\n", n, (long long)t->lo, (long long)t->hi); abort(); }
            sized(t, n, [&](long i) { for (long j = 0; j < u; j++) w.bit(r.w.b[(size_t)(i * u + j)]); });
            break; }
        default: abort();
        }
    }
};
