/* Deterministic simulation of asn1scc-generated nodes: scenarios and command line. */
#include "world.h"
#include "models_gen.h"
#include <sys/stat.h>
#include <cctype>
#include <cerrno>

static const char* intern(const string& s) { static std::set<string> p; return p.insert(s).first->c_str(); }
static vector<Node*> pick_nodes(const vector<string>& want) { vector<Node*> r; for (auto& w : want) if (nodes.count(w)) r.push_back(nodes[w]); return r; }
static bool w32(const Node* n) { return n->api->wordsize == 4; }
static const int64_t TOKMAX = 160000;
static int64_t tokbuf[TOKMAX];

struct Obj {                 // one in-memory value of a node, exactly sized so that any overrun is caught
    Node* n; const Pdu* d; const T* t; uint8_t* p;
    Obj(Node* n_, int pdu, int fill) : n(n_), d(&n_->api->pdus[n_->map[(size_t)pdu]]), t(n_->m->pdu(pdu)) {
        p = (uint8_t*)malloc(d->size); 
        if (fill >= 0) memset(p, fill, d->size); else { uint64_t s = (uint64_t)(-fill); for (size_t i = 0; i < d->size; i++) p[i] = (uint8_t)splitmix(s); }
    }
    ~Obj() { free(p); }
    void put(const Val& v) { vector<int64_t> o; toTok(t, v, o); Tok k; k.p = o.data(); k.n = (long)o.size(); k.cap = k.n; k.pos = 0; d->put(p, &k);
        if (k.pos != k.n) violation("sim:put", "token mismatch for %s", d->name); }
    Val get() { Tok k; k.p = tokbuf; k.n = 0; k.cap = TOKMAX; k.pos = 0; d->get(p, &k);
        vector<int64_t> o(tokbuf, tokbuf + std::min<int64_t>(k.n, TOKMAX)); size_t q = 0; Val v = fromTok(t, o, q);
        return v; }
    Obj(const Obj&) = delete;
};
struct Item { int pdu; Val v; int phase = 0; uint32_t pbits = 0; };
static string desc(Node* n, const Item& it) { return n->m->pdus[(size_t)it.pdu] + " " + show(n->m->pdu(it.pdu), it.v, 300); }

static uint64_t enc_limit(const Pdu* d) { return 200000 + 300ULL * (d->size + (uint64_t)std::max(0L, d->required)); }
static uint64_t dec_limit(const Pdu* d, uint64_t nbytes) { return 200000 + 300ULL * (d->size + nbytes); }

struct Strm { vector<uint8_t> mem; void* s; Strm(Node* n) : mem(n->api->strm_size + 16) { s = mem.data(); } };

// reference bits of a sequence of items on one stream; ends[i] = bit position after item i
static vector<bool> reference(Node* n, const vector<Item>& its, vector<long>* ends = nullptr) {
    RefEnc r; r.acn = n->model != "uper";
    for (auto& it : its) {
        for (int i = it.phase - 1; i >= 0; i--) r.w.bit(it.pbits >> i & 1);
        r.enc(n->m->pdu(it.pdu), it.v);
        if (ends) ends->push_back((long)r.w.b.size());
    }
    return r.w.b;
}
static Bytes pack(const vector<bool>& b) { BitW w; w.b = b; return w.bytes(); }

struct EncRes { bool ok = true; int err = 0; Bytes bytes; long bits = 0; size_t failed = 0; };
// encode into one exactly sized buffer
static EncRes encode_whole(Node* n, const vector<Item>& its, size_t cap, int check = 1) {
    const NodeApi* a = n->api; EncRes r; Strm s(n);
    uint8_t* buf = (uint8_t*)malloc(cap);
    a->init_enc(s.s, buf, (long)cap, nullptr);
    for (size_t i = 0; i < its.size() && r.ok; i++) {
        for (int b = its[i].phase - 1; b >= 0; b--) a->put_bit(s.s, its[i].pbits >> b & 1);
        Obj o(n, its[i].pdu, 0xA5); o.put(its[i].v);
        r.err = 12345;
        { Guard g(intern("encoding " + n->m->pdus[(size_t)its[i].pdu] + " on " + n->name), enc_limit(o.d)); r.ok = o.d->enc(o.p, s.s, &r.err, check); }
        if (!r.ok) r.failed = i;
        shm->msgs++;
    }
    long by = a->byte(s.s); int bi = a->bit(s.s);
    r.bits = by * 8 + bi;
    long nb = by + (bi ? 1 : 0);
    if (nb < 0 || nb > (long)cap) violation("overrun:" + n->name, "stream position %ld of %zu after encoding on %s", nb, cap, n->name.c_str());
    r.bytes.assign(buf, buf + nb);
    free(buf);
    return r;
}
struct DecRes { bool ok = false; int err = 0; Val v; long bits = 0; };
static void poison_stack(int pat) { volatile uint8_t b[49152]; if (pat >= 0) memset((void*)b, pat, sizeof b); else { uint64_t s = (uint64_t)-pat; for (size_t i = 0; i < sizeof b; i += 8) { uint64_t z = splitmix(s); memcpy((void*)(b + i), &z, 8); } } }
// decode one item on an initialised stream
static DecRes decode_one(Node* n, void* s, int pdu, uint64_t inlen, int fill = 0xC3, int stk = -2) {
    DecRes r; Obj o(n, pdu, fill); r.err = 12345;
    if (stk != -2) poison_stack(stk);
    { Guard g(intern("decoding " + n->m->pdus[(size_t)pdu] + " on " + n->name), dec_limit(o.d, inlen)); r.ok = o.d->dec(o.p, s, &r.err); }
    shm->msgs++;
    r.bits = n->api->byte(s) * 8 + n->api->bit(s);
    if (r.ok) r.v = o.get();
    return r;
}
// decode a whole buffer holding the items' layout (phases given); stops at the first failure
static vector<DecRes> decode_whole(Node* n, const Bytes& in, const vector<Item>& its, int fill = 0xC3, int stk = -2, bool* phase_bad = nullptr) {
    uint8_t* b = (uint8_t*)malloc(in.size()); if (!in.empty()) memcpy(b, in.data(), in.size());
    Strm s(n); n->api->init_dec(s.s, b, (long)in.size(), nullptr);
    vector<DecRes> out;
    for (auto& it : its) {
        bool ok = true;
        for (int k = 0; k < it.phase && ok; k++) { int v; g_phase = "reading a bit"; if (n->api->byte(s.s) >= (long)in.size()) { ok = false; break; } ok = n->api->get_bit(s.s, &v); }
        if (!ok) { if (phase_bad) *phase_bad = true; DecRes r; r.ok = false; r.err = -1; out.push_back(r); break; }
        out.push_back(decode_one(n, s.s, it.pdu, in.size(), fill, stk));
        if (!out.back().ok) break;
    }
    free(b);
    return out;
}

static bool g_heavy;   // this run is about fragmented lengths
static GenOpt gen_opt(bool narrow) { GenOpt g; uint32_t z = draw(8); g.size = z < 2 ? 0 : z < 6 ? 1 : 2; g.w32 = narrow; g.frag = g_heavy; return g; }
static bool heavy(const string& n) { return n.compare(0, 4, "Frag") == 0; }
// PktI (a header given in place instead of as a named type) is not supported by deferred patching: see known_findings.json
static bool usable(const Node* n, const string& pdu) { return !(n->name == "acn_def" && pdu == "PktI"); }
static int pick_pdu(Node* n, int hv = 12) {
    Model* m = n->m;
    if (g_heavy) { vector<int> h; for (size_t i = 0; i < m->pdus.size(); i++) if (heavy(m->pdus[i])) h.push_back((int)i); if (!h.empty()) return h[draw((uint32_t)h.size())]; }
    for (;;) { int i = (int)draw((uint32_t)m->pdus.size()); if (!usable(n, m->pdus[(size_t)i]) || heavy(m->pdus[(size_t)i]) && draw((uint32_t)hv) != 0) { continue; } return i; }
}
static Item gen_item(Node* n, bool narrow, bool phase = true, int hv = 12) {
    Model* m = n->m; Item it; it.pdu = pick_pdu(n, hv); GenOpt g = gen_opt(narrow);
    if (phase) { it.phase = (int)draw(8); it.pbits = draw(256); }
    it.v = gen(m->pdu(it.pdu), g);
    return it;
}
static string sigpdu(Node* n, int pdu) { return n->name + ":" + n->m->pdus[(size_t)pdu]; }
// which item does bit position p belong to?
static size_t item_at(const vector<long>& ends, long p) { for (size_t i = 0; i < ends.size(); i++) if (p < ends[i]) return i; return ends.empty() ? 0 : ends.size() - 1; }
static long first_diff(const Bytes& a, const Bytes& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i == a.size() && i == b.size() ? -1 : (long)i; }

// =================================================================== S01
struct PushCtx { Node* n; Strm* s; Link* l; Bytes out; int mode; bool slow; size_t pushes = 0; const uint8_t* buf; long cap; };
static void on_push(void* s, void* prm) {
    PushCtx* c = (PushCtx*)prm;
    bool cnt = g_count; g_count = false;
    if (s != c->s->s) violation("push:stream", "push callback got a foreign stream or parameter");
    long nb = c->n->api->byte(s);
    if (nb < 0 || nb > c->cap) violation("push:count:" + c->n->name, "push of %ld bytes from a %ld byte buffer", nb, c->cap);
    c->out.insert(c->out.end(), c->buf, c->buf + nb);
    c->l->send(c->buf, (size_t)nb); c->pushes++; STAT("push.blocks");
    // the block has been handed over: what the buffer holds afterwards is the receiver's business
    if (c->mode == 1) { memset((void*)c->buf, 0xFF, (size_t)c->cap); STAT("fault.buffer-scribbled"); }
    else if (c->mode == 2) { uint64_t q = draw(65536) + 1; for (long i = 0; i < c->cap; i++) ((uint8_t*)c->buf)[i] = (uint8_t)splitmix(q); STAT("fault.buffer-scribbled"); }
    if (c->slow && draw(4) == 3) { STAT("fault.slow-link"); sim->sleep(1 + draw(5000)); }
    g_count = cnt;
}
static size_t pick_cap() { static const int c[] = { 64, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 100, 128, 256, 1024 }; uint32_t k = draw(20); return k < 18 ? (size_t)c[k] : 1 + draw(200); }
static void sc_S01() {
    g_heavy = draw(80) == 79;
    static Sim S; sim = &S;
    auto ns = pick_nodes({ "uper_stream", "acn_stream", "uper_ws4s", "rtl_stream" });
    int ntask = 1 + (int)draw(3);
    struct Task { Node* n; vector<Item> its; PushCtx c; Link l; Bytes got; size_t cap; Strm* s; };
    vector<Task*> ts;
    for (int k = 0; k < ntask; k++) {
        Task* t = new Task; ts.push_back(t);
        t->n = ns[draw((uint32_t)ns.size())]; t->cap = pick_cap();
        int cnt = 1 + (int)draw(4);
        for (int i = 0; i < cnt; i++) t->its.push_back(gen_item(t->n, w32(t->n), true, 50));
        t->c.n = t->n; t->c.l = &t->l; t->c.mode = (int)draw(3); t->c.slow = draw(2); t->c.cap = (long)t->cap;
        for (auto& it : t->its) ev("task %d on %s, buffer %zu, scribble %d: %d bits then %s", k, t->n->name.c_str(), t->cap, t->c.mode, it.phase, desc(t->n, it).c_str());
        S.spawn("sender", [t] {
            Node* n = t->n; const NodeApi* a = n->api; *a->on_push = on_push;
            t->s = new Strm(n); t->c.s = t->s;
            uint8_t* b = (uint8_t*)malloc(t->cap); t->c.buf = b;
            a->init_enc(t->s->s, b, (long)t->cap, &t->c);
            for (auto& it : t->its) {
                for (int i = it.phase - 1; i >= 0; i--) a->put_bit(t->s->s, it.pbits >> i & 1);
                Obj o(n, it.pdu, 0xA5); o.put(it.v);
                int err = 12345; bool ok;
                { Guard g(intern("streamed encoding " + n->m->pdus[(size_t)it.pdu] + " on " + n->name), enc_limit(o.d)); ok = o.d->enc(o.p, t->s->s, &err, 1); }
                shm->msgs++;
                if (!ok) violation("refused:" + sigpdu(n, it.pdu), "streamed encoding of the valid value %s through a %zu byte buffer failed with error %d", desc(n, it).c_str(), t->cap, err);
            }
            long by = a->byte(t->s->s); int bi = a->bit(t->s->s); long nb = by + (bi ? 1 : 0);
            if (nb < 0 || nb > (long)t->cap) violation("overrun:" + n->name, "final position %ld of %zu", nb, t->cap);
            t->c.out.insert(t->c.out.end(), b, b + nb);
            t->l.send(b, (size_t)nb); t->l.close();
            free(b);
        });
        S.spawn("receiver", [t] { uint8_t tmp[256]; size_t k2; while ((k2 = t->l.recv(tmp, sizeof tmp))) t->got.insert(t->got.end(), tmp, tmp + k2); });
    }
    if (ntask > 1 && draw(2)) S.quantum = 40 + draw(2000);
    if (!S.run()) violation("stuck", "the senders and receivers stopped making progress");
    STAT(S.quantum ? "cfg.preemptive" : "cfg.cooperative");
    for (auto t : ts) {
        vector<long> ends; Bytes want = pack(reference(t->n, t->its, &ends));
        ev("sent %zu bytes in %zu pushes", t->c.out.size(), t->c.pushes);
        hash_bytes(t->c.out.data(), t->c.out.size());
        if (t->got != t->c.out) violation("sim:link", "link damaged data");
        if (t->c.pushes) NONTRIV("probe.message-spans-blocks");
        string wn = t->n->name == "acn_stream" ? "acn_c64" : t->n->name == "rtl_stream" ? "rtl_c64" : "uper_c64";
        EncRes w = encode_whole(nodes.count(wn) ? nodes[wn] : t->n, t->its, want.size() + 1);
        if (!w.ok) violation("whole-refused:" + sigpdu(t->n, t->its[w.failed].pdu), "whole-buffer encoding of %s failed with error %d", desc(t->n, t->its[w.failed]).c_str(), w.err);
        long d = first_diff(t->c.out, w.bytes);
        if (d >= 0) { size_t i = item_at(ends, d * 8);
            violation("differs:" + sigpdu(t->n, t->its[i].pdu), "streamed through a %zu byte buffer (scribble mode %d), byte %ld differs (in item %zu: %s): streamed %s whole %s", t->cap, t->c.mode, d, i, desc(t->n, t->its[i]).c_str(), showB(t->c.out).c_str(), showB(w.bytes).c_str()); }
    }
}

// =================================================================== S02
static void damage(Bytes& b) {
    int k = 1 + (int)draw(3);
    while (k--) switch (draw(6)) {
        case 0: if (!b.empty()) { size_t i = draw((uint32_t)b.size()); b[i] ^= (uint8_t)(1 << draw(8)); STAT("fault.bit-flip"); } break;
        case 1: if (!b.empty()) { b[draw((uint32_t)b.size())] = (uint8_t)draw(256); STAT("fault.byte-set"); } break;
        case 2: if (!b.empty()) { b.resize(draw((uint32_t)b.size())); STAT("fault.truncate"); } break;
        case 3: if (b.size() > 1) { size_t i = draw((uint32_t)b.size()); size_t n = std::min<size_t>(b.size() - i, 1 + draw(4)); b.erase(b.begin() + (long)i, b.begin() + (long)(i + n)); STAT("fault.bytes-lost"); } break;
        case 4: { size_t i = draw((uint32_t)b.size() + 1); size_t n = 1 + draw(4); Bytes d; for (size_t j = 0; j < n; j++) d.push_back((uint8_t)(draw(3) == 0 ? 0xFF : draw(256))); b.insert(b.begin() + (long)i, d.begin(), d.end()); STAT("fault.bytes-inserted"); } break;
        default: if (b.size() > 2) { size_t i = draw((uint32_t)b.size()), j = draw((uint32_t)b.size()), n = 1 + draw(4); for (size_t q = 0; q < n && i + q < b.size() && j + q < b.size(); q++) b[i + q] = b[j + q]; STAT("fault.bytes-duplicated"); } break;
    }
}
struct FetchCtx { Node* n; Strm* s; Link* l; uint8_t* buf; size_t cap; long before; int calls = 0; bool eof = false; };
static void fill_block(FetchCtx* c, bool first) {
    __asan_unpoison_memory_region(c->buf, c->cap);
    if (!first) c->before += c->n->api->count(c->s->s) * 8;
    uint8_t* tmp = (uint8_t*)malloc(c->cap);
    size_t k = c->l->recv(tmp, c->cap);
    memset(c->buf, 0xEE, c->cap); memcpy(c->buf, tmp, k); free(tmp);
    if (k < c->cap) __asan_poison_memory_region(c->buf + k, c->cap - k);
    if (k == 0) c->eof = true;
    if (first) c->n->api->init_dec(c->s->s, c->buf, (long)k, c); else c->n->api->set_count(c->s->s, (long)k);
    STAT("fetch.blocks"); if (k == 1) STAT("fault.one-byte-block");
    if (++c->calls > 400000) violation("unbounded:fetch", "the decoder fetched 400000 blocks");
}
static void on_fetch(void* s, void* prm) {
    FetchCtx* c = (FetchCtx*)prm; bool cnt = g_count; g_count = false;
    if (s != c->s->s) violation("fetch:stream", "fetch callback got a foreign stream");
    if (c->eof) { STAT("fetch.after-eof"); if (c->calls++ > 4000) { violation("unbounded:fetch-after-eof:" + c->n->name, "the decoder keeps fetching after the end of the data, in %s", g_phase); } }
    else fill_block(c, false);
    g_count = cnt;
}
struct StreamDec { vector<DecRes> out; };
// receiver fiber body: decode the items from the link
static void stream_decode(Node* n, Link* l, size_t cap, const vector<Item>& its, uint64_t inlen, vector<DecRes>* out) {
    const NodeApi* a = n->api; *a->on_fetch = on_fetch;
    Strm s(n); FetchCtx c; c.n = n; c.s = &s; c.l = l; c.cap = cap; c.before = 0; c.buf = (uint8_t*)malloc(cap);
    fill_block(&c, true);
    if (c.eof) a->set_count(s.s, 0);
    for (auto& it : its) {
        bool ok = true;
        for (int k = 0; k < it.phase && ok; k++) { int v; if (a->byte(s.s) >= a->count(s.s)) ok = false; else { g_phase = "reading a bit"; ok = a->get_bit(s.s, &v); } }
        if (!ok) { DecRes r; r.ok = false; r.err = -1; out->push_back(r); break; }
        DecRes r = decode_one(n, s.s, it.pdu, inlen);
        r.bits += c.before;
        out->push_back(r);
        if (!r.ok) break;
    }
    __asan_unpoison_memory_region(c.buf, c.cap); free(c.buf);
}
static void sc_S02() {
    g_heavy = draw(80) == 79;
    static Sim S; sim = &S;
    auto ns = pick_nodes({ "uper_stream", "acn_stream", "uper_ws4s", "rtl_stream" });
    int ntask = 1 + (int)draw(2);
    struct Task { Node* n; vector<Item> its; Bytes wire; Link l; size_t cap; vector<DecRes> got; bool damaged; };
    vector<Task*> ts;
    for (int k = 0; k < ntask; k++) {
        Task* t = new Task; ts.push_back(t); t->n = ns[draw((uint32_t)ns.size())]; t->cap = pick_cap();
        int cnt = 1 + (int)draw(4);
        for (int i = 0; i < cnt; i++) t->its.push_back(gen_item(t->n, w32(t->n)));
        t->wire = pack(reference(t->n, t->its));
        t->damaged = chance(35); if (t->damaged) damage(t->wire); else if (draw(4) == 3) t->wire.push_back((uint8_t)draw(256));
        for (auto& it : t->its) ev("task %d on %s, buffer %zu: %d bits then %s", k, t->n->name.c_str(), t->cap, it.phase, desc(t->n, it).c_str());
        ev("task %d wire%s %s", k, t->damaged ? " (damaged)" : "", showB(t->wire, 200).c_str());
        S.spawn("sender", [t] { size_t i = 0; while (i < t->wire.size()) { size_t m = draw(3) == 0 ? t->wire.size() - i : 1 + draw((uint32_t)std::min<size_t>(t->wire.size() - i, 40)); t->l.send(t->wire.data() + i, m); i += m; if (draw(3) == 2) { sim->sleep(1 + draw(3000)); } } t->l.close(); });
        S.spawn("receiver", [t] { stream_decode(t->n, &t->l, t->cap, t->its, t->wire.size(), &t->got); });
    }
    if (ntask > 1 && draw(2)) S.quantum = 40 + draw(2000);
    if (!S.run()) violation("stuck", "the receivers stopped making progress");
    for (auto t : ts) {
        string wn = t->n->name == "acn_stream" ? "acn_c64" : t->n->name == "rtl_stream" ? "rtl_c64" : t->n->name == "uper_ws4s" ? "uper_ws4" : "uper_c64";
        Node* w = nodes.count(wn) ? nodes[wn] : t->n;
        vector<DecRes> whole = decode_whole(w, t->wire, t->its);
        for (size_t i = 0; i < std::max(whole.size(), t->got.size()); i++) {
            if (i >= whole.size() || i >= t->got.size()) violation("verdict:" + t->n->name, "the streamed decoder handled %zu messages, the whole-buffer decoder %zu", t->got.size(), whole.size());
            DecRes &a = whole[i], &b = t->got[i]; Item& it = t->its[i];
            ev("item %zu whole ok=%d streamed ok=%d bits %ld %ld", i, a.ok, b.ok, a.bits, b.bits);
            if (a.ok && !b.ok && looks_ahead(t->n->m->pdu(it.pdu))) { FOUND("stream-null-terminated", "%s in blocks through a %zu byte buffer is rejected (error %d)", t->n->m->pdus[(size_t)it.pdu].c_str(), t->cap, b.err); break; }
            if (a.ok != b.ok) violation(string(a.ok ? "rejected:" : "accepted:") + sigpdu(t->n, it.pdu), "%s in blocks through a %zu byte buffer: whole-buffer verdict %d, streamed verdict %d (error %d); value sent %s", t->n->m->pdus[(size_t)it.pdu].c_str(), t->cap, a.ok, b.ok, b.ok ? a.err : b.err, desc(t->n, it).c_str());
            if (!a.ok) { STAT(t->damaged ? "probe.damaged-rejected" : "probe.undamaged-rejected"); if (!t->damaged) violation("both-reject:" + sigpdu(t->n, it.pdu), "an undamaged message is rejected: %s", desc(t->n, it).c_str()); break; }
            string why;
            if (!same(t->n->m->pdu(it.pdu), a.v, b.v, &why)) violation("value:" + sigpdu(t->n, it.pdu), "streamed and whole-buffer decoding disagree at %s", why.c_str());
            if (a.bits != b.bits) violation("bits:" + sigpdu(t->n, it.pdu), "whole-buffer decoding consumed %ld bits, streamed %ld", a.bits, b.bits);
        }
        if (t->wire.size() > t->cap) NONTRIV("probe.message-spans-blocks");
    }
}

// =================================================================== S03: a crash cuts the log
static void sc_S03() {
    g_heavy = draw(80) == 79;
    static Sim S; sim = &S;
    auto ns = pick_nodes({ "uper_c64", "acn_c64", "uper_stream", "acn_stream", "uper_slim", "acn_slim", "rtl_c64", "rtl_stream" });
    Node* n = ns[draw((uint32_t)ns.size())]; bool stream = n->api->streaming;
    vector<Item> its; int cnt = 1 + (int)draw(5); bool aligned = draw(2);
    for (int i = 0; i < cnt; i++) its.push_back(gen_item(n, false, !aligned && draw(2)));
    vector<long> ends; Bytes full = pack(reference(n, its, &ends));
    // the crash point: some byte offset; deployments lose whole sectors too
    size_t cut = full.empty() ? 0 : draw(3) == 2 ? (full.size() > 1 ? full.size() - 1 - draw((uint32_t)std::min<size_t>(full.size() - 1, 6)) : 0) : draw((uint32_t)full.size());
    Bytes part(full.begin(), full.begin() + (long)cut);
    size_t complete = 0; while (complete < ends.size() && ends[complete] <= (long)cut * 8) complete++;
    for (auto& it : its) ev("%s: %d bits then %s", n->name.c_str(), it.phase, desc(n, it).c_str());
    ev("crash leaves %zu of %zu bytes: %s", cut, full.size(), showB(part, 200).c_str());
    STAT("fault.crash-cut"); if (cut) NONTRIV("probe.cut-inside-data"); if (complete) STAT("probe.some-complete");
    size_t scap = 0; vector<DecRes> got;
    if (stream) {
        scap = pick_cap(); size_t cap = scap; static Link l;
        S.spawn("sender", [&] { if (!part.empty()) l.send(part.data(), part.size()); l.close(); });
        S.spawn("receiver", [&] { stream_decode(n, &l, cap, its, part.size(), &got); });
        if (!S.run()) violation("stuck", "receiver stopped making progress");
        ev("streamed through %zu", cap);
    } else got = decode_whole(n, part, its);
    for (size_t i = 0; i < got.size(); i++) {
        ev("item %zu ok=%d", i, got[i].ok);
        if (i < complete) {
            if (!got[i].ok && scap && looks_ahead(n->m->pdu(its[i].pdu))) { FOUND("stream-null-terminated", "%s through a %zu byte buffer is rejected (error %d)", n->m->pdus[(size_t)its[i].pdu].c_str(), scap, got[i].err); return; }
            if (!got[i].ok) violation("lost:" + sigpdu(n, its[i].pdu), "message %zu was written completely but decoding it from the cut log fails with error %d: %s", i, got[i].err, desc(n, its[i]).c_str());
            string why; if (!same(n->m->pdu(its[i].pdu), its[i].v, got[i].v, &why)) violation("changed:" + sigpdu(n, its[i].pdu), "message %zu recovered from the cut log differs at %s", i, why.c_str());
        } else if (got[i].ok)
            violation("accepted:" + sigpdu(n, its[i].pdu), "message %zu was cut after %ld of %ld bits yet decoding succeeds: %s", i, (long)cut * 8 - (i ? ends[i - 1] : 0), ends[i] - (i ? ends[i - 1] : 0), desc(n, its[i]).c_str());
        else if (got[i].err == 0) violation("no-error-code:" + sigpdu(n, its[i].pdu), "decoding a cut message fails without an error code");
    }
    if (got.size() < std::min(its.size(), complete + 1) ) violation("lost-tail:" + n->name, "recovered %zu of %zu messages", got.size(), complete);
}

// =================================================================== C01
static Bytes hostile(Model* m, bool acn, Node* n, int pdu) {
    (void)m; (void)acn;
    Bytes b;
    uint32_t how = draw(8);
    if (how >= 5) {     // a sender that follows the format but lies in one or two control fields
        GenOpt g = gen_opt(w32(n)); Val v = gen(n->m->pdu(pdu), g);
        int pts = 0; { RefEnc e; e.acn = n->model != "uper"; e.points = &pts; e.enc(n->m->pdu(pdu), v); }
        if (pts) {
            RefEnc e; e.acn = n->model != "uper"; int p2 = 0; e.points = &p2; e.target = (int)draw((uint32_t)pts); if (draw(3) == 2) e.target2 = (int)draw((uint32_t)pts);
            e.enc(n->m->pdu(pdu), v); b = e.w.bytes();
            if (e.forged) { STAT("fault.forged-field"); NONTRIV("input.forged"); }
            if (draw(3) == 0) { size_t k = draw(30); uint8_t x = draw(2) ? 0xFF : 0; for (size_t i = 0; i < k; i++) b.push_back(x); }
            if (draw(6) == 5) damage(b);
            return b;
        }
    }
    switch (how) {
    case 0: { size_t k = draw(3) == 0 ? draw(600) : draw(40); uint32_t mode = draw(4); uint64_t s = draw(65536) + 1; for (size_t i = 0; i < k; i++) b.push_back(mode == 0 ? 0 : mode == 1 ? 0xFF : mode == 2 ? (uint8_t)draw(256) : (uint8_t)splitmix(s)); NONTRIV("input.random"); break; }
    default: { GenOpt g = gen_opt(w32(n)); Item it; it.pdu = pdu; it.v = gen(n->m->pdu(pdu), g); b = pack(reference(n, { it })); damage(b); NONTRIV("input.damaged-valid"); }
    }
    return b;
}
static void check_accepted(Node* n, int pdu, const DecRes& r, size_t nbytes, const char* what) {
    string why;
    if (only_builtin_alphabet(n->m->pdu(pdu), r.v)) { FOUND("invalid-accepted:builtin-alphabet", "%s: decoding succeeded with a character above 127 in an IA5String: %s", what, show(n->m->pdu(pdu), r.v, 200).c_str()); }
    else if (!valid(n->m->pdu(pdu), r.v, &why)) violation("invalid-accepted:" + sigpdu(n, pdu), "%s: decoding succeeded with a value violating its constraints at %s", what, why.c_str());
    if (r.bits > (long)nbytes * 8) violation("overread:" + sigpdu(n, pdu), "%s: decoding succeeded having consumed %ld of %zu bits", what, r.bits, nbytes * 8);
}
static void sc_C01() {
    g_heavy = draw(40) == 39;
    auto ns = pick_nodes({ "uper_c64", "acn_c64", "uper_slim", "acn_slim", "uper_ws4", "acn_def", "def_c64", "def_def", "acn4_ws4", "uper_stream", "acn_stream", "rtl_c64", "rtl_ws4" });
    int rounds = 4 + (int)draw(5);
    while (rounds--) {
        Node* n = ns[draw((uint32_t)ns.size())]; int pdu = pick_pdu(n, 8);
        Bytes b = hostile(n->m, n->model != "uper", n, pdu);
        ev("%s %s <- %s", n->name.c_str(), n->m->pdus[(size_t)pdu].c_str(), showB(b, 300).c_str());
        Item it; it.pdu = pdu;
        DecRes r = decode_whole(n, b, { it })[0];
        ev("ok=%d err=%d bits=%ld", r.ok, r.err, r.bits);
        if (r.ok) { STAT("probe.accepted"); check_accepted(n, pdu, r, b.size(), "damaged input"); }
        else { STAT("probe.rejected"); if (r.err == 0 || r.err == 12345) violation("no-error-code:" + sigpdu(n, pdu), "decoding fails without setting an error code (%d)", r.err); }
    }
}

// =================================================================== C02
static void sc_C02() {
    g_heavy = draw(80) == 79;
    auto ns = pick_nodes({ "uper_c64", "acn_c64", "uper_slim", "acn_slim", "uper_ws4", "acn_def", "def_c64", "def_def", "acn4_ws4", "uper_stream", "acn_stream", "rtl_c64", "rtl_ws4" });
    int rounds = 3 + (int)draw(4);
    while (rounds--) {
        Node* n = ns[draw((uint32_t)ns.size())]; Item it; it.pdu = pick_pdu(n, 12);
        GenOpt g; g.size = draw(4) ? 2 : 1; g.w32 = w32(n); it.v = gen(n->m->pdu(it.pdu), g);
        const Pdu& d = n->api->pdus[n->map[(size_t)it.pdu]];
        ev("%s %s required %ld", n->name.c_str(), desc(n, it).c_str(), d.required);
        EncRes r = encode_whole(n, { it }, (size_t)d.required, (int)draw(2) ? 0 : 1);
        ev("ok=%d bits=%ld", r.ok, r.bits);
        if (!r.ok) violation("refused:" + sigpdu(n, it.pdu), "encoding a valid value into the advertised %ld bytes failed with error %d: %s", d.required, r.err, desc(n, it).c_str());
        if ((long)r.bytes.size() > d.required) violation("too-long:" + sigpdu(n, it.pdu), "%zu bytes needed, %ld advertised", r.bytes.size(), d.required);
        if ((long)r.bytes.size() == d.required) NONTRIV("probe.maximum-reached");
        hash_bytes(r.bytes.data(), r.bytes.size());
    }
}

// =================================================================== C03
static vector<vector<string>> families = {
    { "uper_c64", "uper_stream", "uper_slim", "uper_eee", "uper_ws4", "uper_slimeee" },
    { "acn_c64", "acn_stream", "acn_slim", "acn_eee", "acn_def" },
    { "acn4_c64", "acn4_ws4" }, { "rtl_c64", "rtl_stream" }, { "rtl_ws4" }, { "def_c64", "def_def" } };
static void sc_C03() {
    g_heavy = draw(30) == 29;
    vector<vector<Node*>> fam; for (auto& f : families) { auto v = pick_nodes(f); if (!v.empty()) fam.push_back(v); }
    uint32_t fi = g_heavy ? (draw(2) ? 0 : 9 + draw(2)) : draw(12); auto& ns = fam[fi < 3 ? 0 : fi < 6 ? std::min<size_t>(1, fam.size() - 1) : 2 + fi % (fam.size() - 2)];
    Node* n0 = ns[0];
    bool narrow = draw(3) == 2; for (auto n : ns) if (n->model == "acn4" || w32(n) && n == n0) narrow = true;
    int cnt = g_heavy ? 1 : 1 + (int)draw(3); vector<Item> its; for (int i = 0; i < cnt; i++) its.push_back(gen_item(n0, narrow));
    vector<long> ends; Bytes want = pack(reference(n0, its, &ends));
    for (auto& it : its) ev("%s family: %d bits then %s", n0->model.c_str(), it.phase, desc(n0, it).c_str());
    ev("reference %s", showB(want, 200).c_str());
    for (auto n : ns) {
        if (w32(n) && !narrow) continue;
        bool skip = false; for (auto& it : its) if (!usable(n, n->m->pdus[(size_t)it.pdu])) skip = true;
        if (skip) { // the call site of a listed finding: exercised alone, reported under one name
            if (its.size() == 1 && draw(4) == 3) { g_site = "deferred-inline-header"; } else continue;
        }
        EncRes r = encode_whole(n, its, want.size() + 8);
        if (!r.ok) violation("refused:" + sigpdu(n, its[r.failed].pdu), "%s refuses the valid value %s with error %d", n->name.c_str(), desc(n, its[r.failed]).c_str(), r.err);
        long d = first_diff(r.bytes, want);
        if (d >= 0 || r.bits != ends.back()) { size_t i = d < 0 ? its.size() - 1 : item_at(ends, d * 8);
            violation("wire:" + sigpdu(n, its[i].pdu), "%s encodes differently from the rules at byte %ld (%ld bits, expected %ld), item %s: got %s expected %s", n->name.c_str(), d, r.bits, ends.back(), desc(n, its[i]).c_str(), showB(r.bytes).c_str(), showB(want).c_str()); }
        vector<DecRes> ds = decode_whole(n, want, its, 0xC3 + (int)draw(2));
        for (size_t i = 0; i < ds.size(); i++) {
            if (!ds[i].ok) violation("rejected:" + sigpdu(n, its[i].pdu), "%s rejects (error %d) the correct encoding of %s: %s", n->name.c_str(), ds[i].err, desc(n, its[i]).c_str(), showB(want).c_str());
            string why;
            if (!same(n->m->pdu(its[i].pdu), its[i].v, ds[i].v, &why)) violation("lossy:" + sigpdu(n, its[i].pdu), "%s decodes a different value at %s", n->name.c_str(), why.c_str());
            if (ds[i].bits != ends[i]) violation("bits:" + sigpdu(n, its[i].pdu), "%s consumed %ld bits, expected %ld", n->name.c_str(), ds[i].bits, ends[i]);
        }
        // the generated equality function agrees
        Obj a(n, its[0].pdu, 0), b(n, its[0].pdu, 0xFF); a.put(its[0].v); b.put(its[0].v);
        if (!a.d->eq(a.p, b.p)) violation("equal:" + sigpdu(n, its[0].pdu), "the generated equality function says a value differs from itself: %s", desc(n, its[0]).c_str());
        NONTRIV("node.exchanges");
    }
}

// =================================================================== C04
static void sc_C04() {
    auto ns = pick_nodes({ "uper_c64", "acn_c64", "uper_slim", "acn_slim", "uper_eee", "uper_ws4", "acn_def", "def_c64", "def_def", "acn4_ws4", "uper_stream", "acn_stream", "rtl_c64", "rtl_ws4" });
    int rounds = 4 + (int)draw(5);
    while (rounds--) {
        Node* n = ns[draw((uint32_t)ns.size())]; Item it; it.pdu = pick_pdu(n, 60); GenOpt g = gen_opt(w32(n)); g.size = std::min(g.size, 2);
        const T* t = n->m->pdu(it.pdu); it.v = gen(t, g);
        vector<Site> ss; sites(t, it.v, ss);
        int hits = ss.empty() ? 0 : (int)draw(3); string where;
        while (hits--) { ss.clear(); if (!valid(t, it.v)) break; sites(t, it.v, ss); if (ss.empty()) break; Site s = ss[draw((uint32_t)ss.size())]; corrupt(s); where = s.at; STAT("fault.memory-corruption"); }
        Obj o(n, it.pdu, (int)draw(256)); o.put(it.v);
        Val seen = o.get();                       // what the (possibly narrower) C struct can actually hold
        if (only_builtin_alphabet(t, seen)) {
            int e2; bool v2; { Guard gd("checking constraints", enc_limit(o.d)); v2 = o.d->val(o.p, &e2); }
            if (v2) { FOUND("invalid-passed:builtin-alphabet", "IsConstraintValid accepts a character above 127 in an IA5String: %s", show(t, seen, 200).c_str()); continue; }
        }
        string why; bool ok = valid(t, seen, &why);
        ev("%s %s valid=%d %s", n->name.c_str(), n->m->pdus[(size_t)it.pdu].c_str(), ok, show(t, seen, 300).c_str());
        // judged with the generated checker first
        int err = 12345; bool vok;
        { Guard gd(intern("checking constraints of " + n->m->pdus[(size_t)it.pdu] + " on " + n->name), enc_limit(o.d)); vok = o.d->val(o.p, &err); }
        if (vok != ok) violation(string(ok ? "valid-refused:" : "invalid-passed:") + sigpdu(n, it.pdu), "IsConstraintValid says %d for a %s value (%s): %s", vok, ok ? "valid" : "violating", why.c_str(), show(t, seen, 300).c_str());
        if (!vok && (err == 0 || err == 12345)) violation("no-error-code:" + sigpdu(n, it.pdu), "IsConstraintValid fails without an error code (%d) at %s", err, why.c_str());
        if (ok && (n->model == "acn" || n->model == "acn4") ) { // values a BIT STRING with a terminator cannot carry are outside the encoding's domain
        }
        long cap = o.d->required + 8; uint8_t* buf = (uint8_t*)malloc((size_t)cap); Strm s(n); n->api->init_enc(s.s, buf, cap, nullptr);
        err = 12345; bool eok;
        { Guard gd(intern("encoding " + n->m->pdus[(size_t)it.pdu] + " on " + n->name), enc_limit(o.d)); eok = o.d->enc(o.p, s.s, &err, 1); }
        shm->msgs++;
        if (eok != ok) violation(string(ok ? "valid-refused:" : "invalid-sent:") + sigpdu(n, it.pdu), "Encode says %d (error %d) for a %s value (%s): %s", eok, err, ok ? "valid" : "violating", why.c_str(), show(t, seen, 300).c_str());
        if (!eok) {
            NONTRIV("probe.refused");
            if (err == 0 || err == 12345) violation("no-error-code:" + sigpdu(n, it.pdu), "Encode fails without an error code (%d)", err);
            if (n->api->byte(s.s) || n->api->bit(s.s)) violation("bytes-produced:" + sigpdu(n, it.pdu), "a refused value moved the stream to %ld.%d", n->api->byte(s.s), n->api->bit(s.s));
            for (long i = 0; i < cap; i++) if (buf[i]) violation("bytes-produced:" + sigpdu(n, it.pdu), "a refused value left bytes in the buffer");
        } else STAT("probe.sent");
        free(buf);
    }
}

// =================================================================== C05
static void sc_C05() {
    g_heavy = draw(80) == 79;
    auto ns = pick_nodes({ "uper_c64", "acn_c64", "uper_slim", "acn_slim", "uper_stream", "acn_stream", "acn_def", "def_c64", "def_def", "uper_ws4", "rtl_c64", "rtl_ws4" });
    int rounds = 2 + (int)draw(3);
    while (rounds--) {
        Node* n = ns[draw((uint32_t)ns.size())]; int pdu = pick_pdu(n, 60); Item it; it.pdu = pdu;
        Bytes b; bool dam = draw(2);
        if (dam) b = hostile(n->m, n->model != "uper", n, pdu);
        else { it.v = gen(n->m->pdu(pdu), gen_opt(w32(n))); b = pack(reference(n, { it })); }
        ev("%s %s <- %s", n->name.c_str(), n->m->pdus[(size_t)pdu].c_str(), showB(b, 300).c_str());
        auto dec = [&](const Bytes& in, int fill, int stk, int tail) {
            // 'tail' bytes of other memory follow the received bytes in the same allocation
            uint8_t* m = (uint8_t*)malloc(in.size()); if (!in.empty()) memcpy(m, in.data(), in.size()); (void)tail;
            Strm s(n); n->api->init_dec(s.s, m, (long)in.size(), nullptr);
            DecRes r = decode_one(n, s.s, pdu, in.size(), fill, stk); free(m); return r; };
        DecRes a = dec(b, 0, 0, 0);
        ev("ok=%d err=%d bits=%ld", a.ok, a.err, a.bits);
        STAT(a.ok ? "probe.accepted" : "probe.rejected");
        int var = 2 + (int)draw(3);
        for (int k = 0; k < var; k++) {
            static const int pats[] = { 0xFF, 0xAA, 0x01, 0x80, 0x7F, -77, -999 };
            int fill = pats[draw(7)], stk = pats[draw(7)]; string what = "memory contents";
            Bytes in = b;
            switch (draw(4)) {
            case 0: { // history: something else is decoded (or fails) first
                int q = pick_pdu(n, 200); Bytes h = hostile(n->m, n->model != "uper", n, q); Item hi; hi.pdu = q; decode_whole(n, h, { hi }, pats[draw(7)], pats[draw(7)]); what = "history"; NONTRIV("fault.history"); break; }
            case 1: if (a.ok) { // bytes after the message, in its last byte too
                in.resize((size_t)(a.bits + 7) / 8); uint32_t m = draw(3); size_t ex = draw(8); uint64_t s = draw(65536) + 1;
                if (a.bits % 8) in.back() = (uint8_t)((in.back() & (0xFF << (8 - a.bits % 8))) | (m == 0 ? 0 : m == 1 ? (0xFF >> (a.bits % 8)) : ((uint8_t)splitmix(s) >> (a.bits % 8))));
                for (size_t i = 0; i < ex; i++) in.push_back(m == 0 ? 0 : m == 1 ? 0xFF : (uint8_t)splitmix(s));
                what = "trailing bytes"; NONTRIV("fault.trailing-bytes"); } break;
            default: NONTRIV("fault.memory-poison"); break;
            }
            DecRes c = dec(in, fill, stk, 0);
            if (a.ok != c.ok) violation("verdict:" + sigpdu(n, pdu), "the verdict for the same bytes changes from %d to %d with %s (destination fill %d, stack fill %d): %s", a.ok, c.ok, what.c_str(), fill, stk, showB(in).c_str());
            if (!a.ok) { if (a.err != c.err) violation("error:" + sigpdu(n, pdu), "the error code for the same bytes changes from %d to %d with %s", a.err, c.err, what.c_str()); continue; }
            string why;
            if (a.bits != c.bits) violation("bits:" + sigpdu(n, pdu), "bits consumed change from %ld to %ld with %s", a.bits, c.bits, what.c_str());
            if (!same(n->m->pdu(pdu), a.v, c.v, &why)) violation("value:" + sigpdu(n, pdu), "the decoded value depends on %s (destination fill %d, stack fill %d) at %s: %s", what.c_str(), fill, stk, why.c_str(), showB(in).c_str());
        }
    }
}

// =================================================================== C06
static void sc_C06() {
    static Sim S; sim = &S;
    auto all = pick_nodes({ "uper_c64", "acn_c64", "uper_stream", "acn_stream", "acn_def", "def_c64", "def_def", "rtl_c64", "xer_c64" });
    Node* n = all[draw((uint32_t)all.size())];
    struct Task { vector<Item> its; bool dec; Bytes in; EncRes e, e0; vector<DecRes> d, d0; };
    int nt = 2 + (int)draw(3); vector<Task*> ts;
    for (int k = 0; k < nt; k++) {
        Task* t = new Task; ts.push_back(t); t->dec = draw(2); int c = 1 + (int)draw(2);
        for (int i = 0; i < c; i++) { Item it = gen_item(n, w32(n), !n->api->xer, 400); t->its.push_back(it); }
        if (n->api->xer) { EncRes r = encode_whole(n, t->its, 200000); if (!r.ok) violation("refused:" + n->name, "encode failed"); t->in = r.bytes; }
        else t->in = pack(reference(n, t->its));
        if (t->dec && chance(25)) damage(t->in);
        for (auto& it : t->its) ev("task %d %s %s", k, t->dec ? "decodes" : "encodes", desc(n, it).c_str());
        auto body = [n, t](EncRes* e, vector<DecRes>* d) { if (t->dec) *d = decode_whole(n, t->in, t->its); else *e = encode_whole(n, t->its, t->in.size() + 64); };
        body(&t->e0, &t->d0);
        S.spawn("task", [t, body] { body(&t->e, &t->d); });
    }
    S.quantum = draw(3) == 0 ? 2 + draw(20) : 30 + draw(800);
    ev("%d tasks on %s, time slice up to %u steps", nt, n->name.c_str(), S.quantum);
    if (!S.run(20000000)) violation("stuck", "tasks stopped making progress");
    STAT("sched.switches", S.switches); if (S.switches > ts.size()) NONTRIV("probe.preempted-inside-a-call");
    for (size_t k = 0; k < ts.size(); k++) {
        Task* t = ts[k];
        if (!t->dec) {
            if (t->e.ok != t->e0.ok || t->e.err != t->e0.err || t->e.bytes != t->e0.bytes) violation("encode:" + sigpdu(n, t->its[0].pdu), "task %zu encodes %s differently when other tasks run: alone ok=%d %s, interleaved ok=%d %s", k, desc(n, t->its[0]).c_str(), t->e0.ok, showB(t->e0.bytes).c_str(), t->e.ok, showB(t->e.bytes).c_str());
        } else {
            if (t->d.size() != t->d0.size()) violation("decode:" + sigpdu(n, t->its[0].pdu), "task %zu decodes %zu messages alone, %zu interleaved", k, t->d0.size(), t->d.size());
            for (size_t i = 0; i < t->d.size(); i++) { DecRes &a = t->d0[i], &b = t->d[i]; string why;
                if (a.ok != b.ok || a.err != b.err || a.bits != b.bits || (a.ok && !same(n->m->pdu(t->its[i].pdu), a.v, b.v, &why)))
                    violation("decode:" + sigpdu(n, t->its[i].pdu), "task %zu decodes %s differently when other tasks run: alone ok=%d err=%d bits=%ld, interleaved ok=%d err=%d bits=%ld %s", k, desc(n, t->its[i]).c_str(), a.ok, a.err, a.bits, b.ok, b.err, b.bits, why.c_str()); }
        }
    }
}
#include "more.h"
#include "xer.h"
#include "ada.h"

// =================================================================== command line
static std::map<string, Scenario> scenarios = { { "S01", sc_S01 }, { "S02", sc_S02 }, { "S03", sc_S03 }, { "C01", sc_C01 }, { "C02", sc_C02 }, { "C03", sc_C03 }, { "C04", sc_C04 }, { "C05", sc_C05 }, { "C06", sc_C06 }, { "D01", sc_D01 }, { "X01", sc_X01 }, { "X02", sc_X02 }, { "A01", sc_A01 } };
static string jstr(const string& s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }

int main(int argc, char** argv) {
    if (!getenv("VF_NOASLR")) { setenv("VF_NOASLR", "1", 1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    string prop, out, replay, repdir = "."; uint64_t seeds = 100, base = 1; int W = 8; double wall = 600; int verb = 0; vector<string> known; double minb = 40;
    vector<std::array<string, 3>> nl, al;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--prop") prop = nx(); else if (a == "--seeds") seeds = strtoull(nx().c_str(), 0, 10); else if (a == "--base") base = strtoull(nx().c_str(), 0, 10);
        else if (a == "--workers") W = atoi(nx().c_str()); else if (a == "--wall") wall = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--repdir") repdir = nx(); else if (a == "-v") verb = 1; else if (a == "--minimise") minb = atof(nx().c_str()); else if (a == "--known") known.push_back(nx());
        else if (a == "--ada") { string n = nx(), m = nx(), p = nx(); al.push_back({ n, m, p }); }
        else if (a == "--node") { string n = nx(), m = nx(), p = nx(); nl.push_back({ n, m, p }); }
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
    }
    build_models();
    for (auto& m : models) resolve_model(m.second);
    for (auto& n : nl) load_node(n[0], n[1], n[2]);
    for (auto& n : al) load_ada(n[0], n[1], n[2]);
    if (!replay.empty() && prop.empty()) { FILE* f = fopen(replay.c_str(), "r"); char b[64] = ""; if (f) { if (fscanf(f, "# replay file: property %63s", b) == 1) prop = b; fclose(f); } }
    if (!scenarios.count(prop)) { fprintf(stderr, "no scenario for property '%s'\n", prop.c_str()); return 3; }
    g_prop = prop;
    Scenario sc = scenarios.at(prop);
    g_known = known;
    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 3; }
        vector<uint32_t> t; char line[8192]; uint64_t seed = 0; bool have = false;
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "seed ", 5)) seed = strtoull(line + 5, 0, 10);
            else if (!strncmp(line, "tape ", 5)) { have = true; for (char* p = line + 5; *p && *p != '\n';) { t.push_back((uint32_t)strtoul(p, &p, 10)); while (*p == ' ') p++; } }
        }
        fclose(f);
        shm = new_shm(); verbose = verb;
        int r = run_one(sc, seed, have ? &t : nullptr);
        printf("result %d sig %s hash %016llx\n", r, shm->sig, (unsigned long long)shm->hash);
        return r ? 1 : 0;
    }
    double t0 = wnow();
    vector<Shm*> sh; vector<pid_t> ps; char tmpl[] = "/tmp/vfsimXXXXXX"; string td = mkdtemp(tmpl);
    int* stop = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int w = 0; w < W; w++) {
        sh.push_back(new_shm());
        pid_t p = fork();
        if (p == 0) {
            shm = sh[(size_t)w]; std::set<string> seen; int nf = 0; int nstop = getenv("VF_STOP") ? atoi(getenv("VF_STOP")) : 3;
            FILE* o = fopen((td + "/w" + std::to_string(w)).c_str(), "w");
            for (uint64_t k = (uint64_t)w; k < seeds; k += (uint64_t)W) {
                if (wnow() - t0 > wall || *stop) break;
                uint64_t seed = base * 1000000007ULL + k;
                int r = run_one(sc, seed, nullptr);
                uint64_t h = shm->hash;
                fprintf(o, "R %llu %016llx %u %d\n", (unsigned long long)seed, (unsigned long long)h, shm->ntape, shm->nontriv);
                if (r) {
                    string sig = shm->sig;
                    bool kn = is_known(sig);
                    if (!seen.count(sig) ) {
                        seen.insert(sig);
                        vector<uint32_t> tape(shm->tape, shm->tape + shm->ntape);
                        // gate: the same seed again, in a fresh process image, must do exactly the same
                        int r2 = run_one(sc, seed, nullptr); bool same_ = r2 == 1 && sig == shm->sig && shm->hash == h;
                        fprintf(o, "V %llu %016llx %d %d %s\n", (unsigned long long)seed, (unsigned long long)h, same_, kn, sig.c_str());
                        if (!kn && ++nf >= nstop) { *stop = 1; }
                    } else fprintf(o, "D %llu %d %s\n", (unsigned long long)seed, kn, sig.c_str());
                } else if (k < 40 || k % 997 == 0) {
                    int r2 = run_one(sc, seed, nullptr);
                    fprintf(o, "P %d\n", r2 == 0 && shm->hash == h);
                }
            }
            fclose(o); _exit(0);
        }
        ps.push_back(p);
    }
    for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
    uint64_t runs = 0, steps = 0, simus = 0, msgs = 0, proved = 0, notproved = 0, dup = 0, kdup = 0, draws = 0, nontriv = 0; std::set<uint64_t> hashes, nth;
    std::map<string, uint64_t> st; static uint8_t cov[MAXCOV]; 
    struct V { uint64_t seed; uint64_t hash; int same_; int kn; string sig; }; std::map<string, V> vs; std::map<string, uint64_t> cnt;
    for (int w = 0; w < W; w++) {
        Shm* s = sh[(size_t)w]; steps += s->steps; simus += s->simus; msgs += s->msgs;
        for (int i = 0; i < s->nst; i++) st[s->st[i].name] += s->st[i].n;
        for (int i = 0; i < MAXCOV; i++) cov[i] |= s->cov[i];
        FILE* f = fopen((td + "/w" + std::to_string(w)).c_str(), "r"); char line[600];
        while (f && fgets(line, sizeof line, f)) {
            unsigned long long a, b; unsigned c; int x, y; char sig[300];
            if (sscanf(line, "R %llu %llx %u %d", &a, &b, &c, &x) == 4) { runs++; hashes.insert(b); if (x) { nontriv++; nth.insert(b); } draws += c; }
            else if (sscanf(line, "V %llu %llx %d %d %299[^\n]", &a, &b, &x, &y, sig) == 5) { cnt[sig]++; if (!vs.count(sig) || a < vs[sig].seed) vs[sig] = { a, b, x, y, sig }; }
            else if (sscanf(line, "D %llu %d %299[^\n]", &a, &x, sig) == 3) { cnt[sig]++; dup++; kdup += (uint64_t)x; }
            else if (sscanf(line, "P %d", &x) == 1) { if (x) proved++; else notproved++; }
        }
        if (f) fclose(f);
        unlink((td + "/w" + std::to_string(w)).c_str());
    }
    rmdir(td.c_str());
    uint64_t edges = 0; for (int i = 0; i < MAXCOV; i++) edges += cov[i];
    double t1 = wnow();
    // confirm, minimise, write replay files
    shm = new_shm(); string vj; int done = 0; string kj;
    for (auto& kv : vs) {
        V& v = kv.second;
        if (v.kn) { kj += (kj.empty() ? "" : ",") + ("{\"sig\":" + jstr(v.sig)) + ",\"count\":" + std::to_string(cnt[v.sig]) + ",\"seed\":" + std::to_string(v.seed) + "}"; continue; }
        int r = run_one(sc, v.seed, nullptr); bool again = r == 1 && v.sig == shm->sig;
        string text = shm->text; vector<uint32_t> tape(shm->tape, shm->tape + shm->ntape); int tries = 0;
        size_t orig = tape.size(); string path;
        if (again && done < 4 && !repdir.empty()) {
            done++;
            if (tape.size() < MAXTAPE) tape = minimise(sc, tape, v.sig, minb, &tries);
            int m1 = run_one(sc, 0, &tape); string s1 = shm->sig; uint64_t h1 = shm->hash; text = m1 ? shm->text : text;
            int m2 = run_one(sc, 0, &tape); bool exact = m1 && m2 && s1 == shm->sig && h1 == shm->hash && s1 == v.sig;
            string safe; for (char c : v.sig) safe += isalnum((unsigned char)c) ? c : '_'; if (safe.size() > 60) safe.resize(60);
            path = repdir + "/" + prop + "_" + safe + "_" + std::to_string(v.seed) + ".replay";
            FILE* f = fopen(path.c_str(), "w");
            if (f) {
                fprintf(f, "# replay file: property %s\n# violation %s\n# %s\n# minimised from %zu to %zu decisions in %d attempts, exact replay: %s\nseed %llu\ntape ", prop.c_str(), v.sig.c_str(), text.c_str(), orig, tape.size(), tries, exact ? "yes" : "no", (unsigned long long)v.seed);
                for (uint32_t x : tape) fprintf(f, "%u ", x); fprintf(f, "\n# trace:\n"); fclose(f);
                // append the readable schedule and fault trace
                pid_t p = fork(); if (p == 0) { int fd = open(path.c_str(), O_WRONLY | O_APPEND); dup2(fd, 1); verbose = true; run_one(sc, 0, &tape); fflush(stdout); _exit(0); } int q; waitpid(p, &q, 0);
            }
        }
        vj += (vj.empty() ? "" : ",") + ("{\"sig\":" + jstr(v.sig)) + ",\"text\":" + jstr(text) + ",\"seed\":" + std::to_string(v.seed) + ",\"count\":" + std::to_string(cnt[v.sig]) +
            ",\"same_twice\":" + (v.same_ ? "true" : "false") + ",\"again\":" + (again ? "true" : "false") + ",\"replay\":" + jstr(path) + "}";
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"prop\":\"%s\",\"runs\":%llu,\"base\":%llu,\"wall\":%.2f,\"steps\":%llu,\"sim_us\":%llu,\"messages\":%llu,\"draws\":%llu,\"distinct_traces\":%zu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"edges\":%llu,\"edges_total\":%u,\"determinism_checked\":%llu,\"determinism_failed\":%llu,\"stats\":{", prop.c_str(), (unsigned long long)runs, (unsigned long long)base, t1 - t0, (unsigned long long)steps, (unsigned long long)simus, (unsigned long long)msgs, (unsigned long long)draws, hashes.size(), (unsigned long long)nontriv, nth.size(), (unsigned long long)edges, ncov, (unsigned long long)(proved + notproved), (unsigned long long)notproved);
    bool first = true; for (auto& s : st) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(s.first).c_str(), (unsigned long long)s.second); first = false; }
    fprintf(f, "},\"violations\":[%s],\"known\":[%s]}\n", vj.c_str(), kj.c_str());
    if (f != stdout) fclose(f);
    return 0;
}
