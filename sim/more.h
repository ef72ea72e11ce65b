/* Further scenarios: deferred determinants (D01). */

// =================================================================== D01
// part one: random histories of reserving, writing and patching against a reference bit vector
struct DetKind { const char* name; int bits, form; };
typedef int (*det_fn)(int kind, int patch, unsigned long long v, const char* str, int n, void* strm, void* ref, int* err);
static void d01_history(Node* n) {
    const NodeApi* a = n->api;
    auto det = (det_fn)dlsym(n->h, "vf_det"); auto kinds = (const DetKind*)dlsym(n->h, "vf_detkinds"); auto refsize = ((size_t(*)(void))dlsym(n->h, "vf_detsize"))();
    auto dist = (void (*)(long, int, long, int, unsigned long long*, unsigned long long*))dlsym(n->h, "vf_dist");
    int nk = 0; while (kinds[nk].name) nk++;
    int wb = a->wordsize * 8;
    struct Ref { int kind, w, form; size_t pos; bool set = false; unsigned long long v = 0; string s; void* mem; };
    vector<Ref> refs; vector<bool> bits;
    size_t cap = 64 + draw(400); uint8_t* buf = (uint8_t*)malloc(cap); Strm s(n);
    a->init_enc(s.s, buf, (long)cap, nullptr);
    int ops = 3 + (int)draw(30); bool patched = false, refused = false;
    auto put = [&](unsigned long long v, int w, int form) { vector<bool> r; for (int i = 0; i < w; i++) { int sh = form == 1 ? 8 * (i / 8) + 7 - i % 8 : w - 1 - i; r.push_back(v >> sh & 1); } return r; };
    auto strbits = [&](const string& t, int nch) { vector<bool> r; for (int i = 0; i < nch; i++) { int c = i < (int)t.size() ? (uint8_t)t[i] : 0x20; for (int b = 6; b >= 0; b--) r.push_back(c >> b & 1); } return r; };
    auto sig = [&](const char* k) { return n->name + ":" + k; };
    auto compare = [&](const char* what, const char* kn) {
        size_t pos = (size_t)a->byte(s.s) * 8 + (size_t)a->bit(s.s);
        if (pos != bits.size()) violation("position:" + sig(kn), "after %s %s the write position is bit %zu, expected %zu", what, kn, pos, bits.size());
        for (size_t i = 0; i < bits.size(); i++) if ((buf[i / 8] >> (7 - i % 8) & 1) != (int)bits[i])
            violation("bits:" + sig(kn), "after %s %s bit %zu of %zu is %d, expected %d: %s expected %s", what, kn, i, bits.size(), !bits[i], (int)bits[i], showB(Bytes(buf, buf + (bits.size() + 7) / 8)).c_str(), showB(pack(bits)).c_str());
    };
    while (ops--) {
        uint32_t what = draw(4);
        if (what == 0) {
            Ref r; r.kind = (int)draw((uint32_t)nk); const DetKind& k = kinds[r.kind]; r.form = k.form;
            int m = k.form == 3 ? 1 + (int)draw(12) : k.bits ? 0 : 1 + (int)draw((uint32_t)wb); r.w = k.form == 3 ? 7 * m : k.bits ? k.bits : m;
            if (bits.size() + (size_t)r.w > cap * 8 - 8) continue;
            r.pos = bits.size(); r.mem = malloc(refsize); memset(r.mem, (int)draw(256), refsize);
            int e = 777; { Guard g("reserving a determinant", 100000); det(r.kind, 0, 0, nullptr, m, s.s, r.mem, &e); }
            if (k.form == 3) r.w = m; else if (!k.bits) r.w = m;
            bits.insert(bits.end(), (size_t)(k.form == 3 ? 7 * m : r.w), false);
            ev("reserve #%zu %s width %d at bit %zu", refs.size(), k.name, r.w, r.pos);
            refs.push_back(r); compare("reserving", k.name);
        } else if (what == 1 || refs.empty()) {
            int m = 1 + (int)draw(draw(3) ? 9 : 70); if (bits.size() + (size_t)m > cap * 8 - 8) continue;
            uint64_t q = draw(65536); uint32_t mode = draw(3);
            for (int i = 0; i < m; i++) { bool b = mode == 0 ? true : mode == 1 ? (splitmix(q) & 1) : false; a->put_bit(s.s, b); bits.push_back(b); }
            ev("write %d bits", m);
        } else {
            size_t ri = draw((uint32_t)refs.size()); Ref& r = refs[ri]; const DetKind& k = kinds[r.kind];
            int e = 777, ok; bool again = r.set && draw(2); shm->msgs++;
            if (r.form == 3) {
                string t; int L = (int)draw((uint32_t)r.w + 1); for (int i = 0; i < L; i++) t += (char)(draw(4) ? 'A' + draw(3) : 33 + draw(94));
                if (again) t = r.s;
                { Guard g("patching a determinant", 100000); ok = det(r.kind, 1, 0, t.c_str(), r.w, s.s, r.mem, &e); }
                ev("patch #%zu %s \"%s\" -> %d", ri, k.name, t.c_str(), ok);
                bool want = !r.set || strbits(t, r.w) == strbits(r.s, r.w);
                if (!want && t.find_last_not_of(' ') != string::npos) {}
                if ((bool)ok != want) violation("verdict:" + sig(k.name), "patching \"%s\" over %s\"%s\" returns %d", t.c_str(), r.set ? "" : "unset ", r.s.c_str(), ok);
                if (!r.set) { auto b = strbits(t, r.w); std::copy(b.begin(), b.end(), bits.begin() + (long)r.pos); r.set = true; r.s = t; patched = true; }
                if (!want) { refused = true; if (e != 203) violation("code:" + sig(k.name), "a disagreeing second value sets error %d", e); }
            } else {
                unsigned long long mx = r.w >= 64 ? ~0ULL : (1ULL << r.w) - 1, v;
                if (r.form == 2) { long long lo = r.w >= 64 ? (long long)(1ULL << 63) : -(1LL << (r.w - 1)), hi = -(lo + 1); v = (unsigned long long)(long long)pick_int(lo, hi); if (wb == 32) v = (uint32_t)v; }
                else v = (unsigned long long)pick_int(0, (i128)mx);
                if (again) v = r.v; else if (r.set && draw(2)) { v = r.v ^ (1ULL << draw((uint32_t)r.w)); if (wb == 32) v = (uint32_t)v; }
                { Guard g("patching a determinant", 100000); ok = det(r.kind, 1, v, nullptr, r.w, s.s, r.mem, &e); }
                ev("patch #%zu %s %llx -> %d", ri, k.name, v, ok);
                bool want = !r.set || v == r.v;
                if ((bool)ok != want) violation("verdict:" + sig(k.name), "patching %llx over %s%llx returns %d", v, r.set ? "" : "unset ", r.v, ok);
                if (!r.set) { auto b = put(v, r.w, r.form); std::copy(b.begin(), b.end(), bits.begin() + (long)r.pos); r.set = true; r.v = v; patched = true; }
                if (!want) { refused = true; if (e != 203) violation("code:" + sig(k.name), "a disagreeing second value sets error %d", e); }
            }
            if (ok && e != 777) violation("code:" + sig(k.name), "a successful patch sets error %d", e);
            compare("patching", k.name);
        }
    }
    compare("writing", "data");
    for (int i = 0; i < 3; i++) { // distance between two positions
        long p = (long)draw(5000), q = p + (long)draw(3000); unsigned long long by, bi; dist(p / 8, (int)(p % 8), q / 8, (int)(q % 8), &by, &bi);
        if (bi != (unsigned long long)(q - p) || by != (unsigned long long)(q - p + 7) / 8) violation("distance:" + n->name, "from bit %ld to %ld: %llu bits, %llu bytes", p, q, bi, by);
    }
    if (patched) NONTRIV("probe.patched"); if (refused) STAT("fault.disagreeing-patch");
    for (auto& r : refs) free(r.mem); free(buf);
}
// part two: generated code with deferred patching against the rules and against code without it
static void d01_generated(const vector<Node*>& ns) {
    Node* n0 = ns[0]; int cnt = 1 + (int)draw(3); vector<Item> its;
    GenOpt g = gen_opt(false);
    for (int i = 0; i < cnt; i++) its.push_back(gen_item(n0, false));
    Item& last = its.back(); const T* t = n0->m->pdu(last.pdu);
    bool bad = draw(3) == 2 && disagree(t, last.v, g);
    if (bad) { RefEnc r; r.acn = true; r.enc(t, last.v); bad = r.conflict; if (!bad) harmonise(t, last.v, g); }
    vector<long> ends; Bytes want = pack(reference(n0, its, &ends));
    for (auto& it : its) ev("%d bits then %s", it.phase, desc(n0, it).c_str());
    ev("%s %s", bad ? "the last value needs two values for one determinant; otherwise" : "reference", showB(want, 200).c_str());
    for (auto n : ns) {
        EncRes r = encode_whole(n, its, want.size() + 300);
        ev("%s ok=%d err=%d", n->name.c_str(), r.ok, r.err);
        if (bad) {
            NONTRIV("fault.disagreeing-fields");
            if (r.ok) violation("emitted:" + sigpdu(n, last.pdu), "%s encodes a value whose fields need two values for one determinant: %s -> %s", n->name.c_str(), desc(n, last).c_str(), showB(r.bytes).c_str());
            if (r.failed + 1 != its.size()) violation("refused:" + sigpdu(n, its[r.failed].pdu), "%s refuses the valid value %s with error %d", n->name.c_str(), desc(n, its[r.failed]).c_str(), r.err);
            if (n->name == "def_def" ? r.err != 203 : r.err == 0) violation("code:" + sigpdu(n, last.pdu), "%s reports error %d for a value whose fields need two values for one determinant: %s", n->name.c_str(), r.err, desc(n, last).c_str());
            continue;
        }
        if (!r.ok) violation("refused:" + sigpdu(n, its[r.failed].pdu), "%s refuses the valid value %s with error %d", n->name.c_str(), desc(n, its[r.failed]).c_str(), r.err);
        long d = first_diff(r.bytes, want);
        if (d >= 0 || r.bits != ends.back()) { size_t i = d < 0 ? its.size() - 1 : item_at(ends, d * 8);
            violation("wire:" + sigpdu(n, its[i].pdu), "%s: byte %ld differs from the rules (%ld bits, expected %ld), item %s: got %s expected %s", n->name.c_str(), d, r.bits, ends.back(), desc(n, its[i]).c_str(), showB(r.bytes).c_str(), showB(want).c_str()); }
        vector<DecRes> ds = decode_whole(n, want, its, 0xC3 + (int)draw(2));
        for (size_t i = 0; i < ds.size(); i++) {
            if (!ds[i].ok) violation("rejected:" + sigpdu(n, its[i].pdu), "%s rejects (error %d) the correct encoding of %s: %s", n->name.c_str(), ds[i].err, desc(n, its[i]).c_str(), showB(want).c_str());
            string why;
            if (!same(n->m->pdu(its[i].pdu), its[i].v, ds[i].v, &why)) violation("lossy:" + sigpdu(n, its[i].pdu), "%s decodes a different value at %s", n->name.c_str(), why.c_str());
            if (ds[i].bits != ends[i]) violation("length:" + sigpdu(n, its[i].pdu), "%s consumed %ld bits, expected %ld", n->name.c_str(), ds[i].bits, ends[i]);
        }
        NONTRIV("node.exchanges");
    }
}
static void sc_D01() {
    auto h = pick_nodes({ "rtl_c64", "rtl_ws4" }); auto ns = pick_nodes({ "def_c64", "def_def" });
    if (draw(2) && !h.empty()) d01_history(h[draw((uint32_t)h.size())]); else d01_generated(ns);
}
