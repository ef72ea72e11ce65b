/* A01: nodes built from the Ada code generated from the same specifications, exchanging messages with C nodes. */
struct AdaNode { string name, model; Model* m; void* h;
    int (*enc)(int pdu, int check, int phase, int size, const int64_t* toks, int ntok, uint8_t* buf, int* bits, char* msg);
    int (*dec)(int pdu, int phase, int size, const uint8_t* buf, int64_t* toks, int prev, int cap, int* ntok, int* bits, char* msg);
    int (*eq)(int pdu, const int64_t* toks, int ntok, char* msg); int (*req)(int pdu); };
static std::map<string, AdaNode*> ada_nodes;
static void load_ada(const string& name, const string& model, const string& path) {
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    struct sigaction old[32]; for (int s = 1; s < 32; s++) sigaction(s, nullptr, &old[s]);
    ((void (*)())dlsym(h, "vfainit"))();
    for (int s = 1; s < 32; s++) if (s != SIGKILL && s != SIGSTOP) sigaction(s, &old[s], nullptr);
    AdaNode* n = new AdaNode; n->name = name; n->model = model; n->m = models.at(model); n->h = h;
    n->enc = (decltype(n->enc))dlsym(h, "vfa_encode"); n->dec = (decltype(n->dec))dlsym(h, "vfa_decode"); n->eq = (decltype(n->eq))dlsym(h, "vfa_equal"); n->req = (decltype(n->req))dlsym(h, "vfa_required");
    ada_nodes[name] = n;
}
extern "C" void __sanitizer_cov_trace_pc() {
    uint32_t k = (uint32_t)(((uintptr_t)__builtin_return_address(0) * 0x9E3779B1u) >> 8) % (MAXCOV / 2) + MAXCOV / 2;
    if (shm) shm->cov[k] = 1;
    if (!g_count) return;
    if (++g_steps > g_step_limit) step_over();
}
static string sigada(AdaNode* n, int pdu) { return n->name + ":" + n->m->pdus[(size_t)pdu]; }
struct AEnc { int rc; int bits; Bytes by; string msg; };
static AEnc ada_enc(AdaNode* n, int pdu, const Val& v, int phase, Bytes pre, bool check) {
    const T* t = n->m->pdu(pdu); vector<int64_t> o; toTok(t, v, o);
    int req = n->req(pdu); AEnc r; char msg[200] = ""; r.bits = 0;
    int size = phase || !pre.empty() ? req + 1 : 0;
    uint8_t* buf = (uint8_t*)calloc(1, (size_t)req + 2); if (size) memcpy(buf, pre.data(), std::min(pre.size(), (size_t)size));
    { Guard g(intern("encoding " + n->m->pdus[(size_t)pdu] + " on " + n->name), 400000 + 600ULL * (uint64_t)req + 40ULL * o.size()); r.rc = n->enc(pdu, check, phase, size, o.data(), (int)o.size(), buf, &r.bits, msg); }
    shm->msgs++;
    r.by.assign(buf, buf + (size ? size : req)); r.msg = msg; free(buf);
    return r;
}
struct ADec { int rc; int bits; Val v; string msg; };
// the buffer holds exactly the bytes the type requires (plus one when the message starts inside a byte)
static ADec ada_dec(AdaNode* n, int pdu, const Bytes& in, int phase, const Val* prev) {
    const T* t = n->m->pdu(pdu); ADec r; char msg[200] = ""; r.bits = 0; int nt = 0, np = 0;
    if (prev) { vector<int64_t> o; toTok(t, *prev, o); np = (int)o.size(); memcpy(tokbuf, o.data(), o.size() * 8); }
    int size = (int)in.size(); if (size == n->req(pdu) && !phase) size = 0;
    uint8_t* b = (uint8_t*)malloc(in.size()); memcpy(b, in.data(), in.size());
    { Guard g(intern("decoding " + n->m->pdus[(size_t)pdu] + " on " + n->name), 400000 + 600ULL * in.size() + 40ULL * (uint64_t)np); r.rc = n->dec(pdu, phase, size, b, tokbuf, np, TOKMAX, &nt, &r.bits, msg); }
    shm->msgs++; free(b); r.msg = msg;
    if (r.rc == 0) { vector<int64_t> o(tokbuf, tokbuf + std::min<int64_t>(nt, TOKMAX)); size_t q = 0; r.v = fromTok(t, o, q); }
    return r;
}
static Bytes padded(const Bytes& b, size_t n) { Bytes r = b; r.resize(std::min(n, b.size())); uint32_t how = draw(3); uint64_t s = draw(65536) + 1; while (r.size() < n) r.push_back(how == 0 ? 0 : how == 1 ? 0xFF : (uint8_t)splitmix(s)); return r; }
static void sc_A01() {
    g_heavy = draw(60) == 59;
    static const char* pairs[][2] = { { "uper_ada", "uper_c64" }, { "acn_ada", "acn_c64" }, { "def_ada", "def_c64" } };
    int rounds = 1 + (int)draw(3);
    while (rounds--) {
        uint32_t z = draw(8); auto& pr = pairs[z < 3 ? 0 : z < 6 ? 1 : 2];
        if (!ada_nodes.count(pr[0]) || !nodes.count(pr[1])) continue;
        AdaNode* a = ada_nodes[pr[0]]; Node* c = nodes[pr[1]];
        int pdu = pick_pdu(c, 40); const T* t = c->m->pdu(pdu); int req = a->req(pdu); const char* pn = c->m->pdus[(size_t)pdu].c_str();
        Val v = gen(t, gen_opt(false)); Val prev; bool hp = draw(2); if (hp) prev = gen(t, gen_opt(false));
        Item it; it.pdu = pdu; it.v = v; bool ph = draw(3) == 2; if (ph) { it.phase = (int)draw(8); it.pbits = draw(256); }
        ev("%s and %s: %d bits then %s", a->name.c_str(), c->name.c_str(), it.phase, desc(c, it).c_str());
        // the C node sends
        EncRes m = encode_whole(c, { it }, (size_t)std::max(0L, c->api->pdus[c->map[(size_t)pdu]].required) + 2);
        if (!m.ok) { STAT("probe.c-refuses"); continue; }      // C03 judges that
        long bits = m.bits - it.phase;
        // the Ada node sends the same value
        Bytes pre; if (it.phase) pre.push_back((uint8_t)((it.pbits << (8 - it.phase)) & 0xFF));
        // the buffer may hold what was there before
        if (draw(3) == 0) { uint64_t s = draw(65536) + 1; if (pre.empty()) pre.push_back((uint8_t)splitmix(s)); else pre[0] |= (uint8_t)(splitmix(s) & (0xFF >> it.phase)); while (pre.size() < (size_t)req + 1) pre.push_back((uint8_t)splitmix(s)); STAT("fault.stale-buffer"); }
        AEnc e = ada_enc(a, pdu, v, it.phase, pre, true);
        if (e.rc < 0) violation("exception:" + sigada(a, pdu), "encoding the valid value %s raises %s", desc(c, it).c_str(), e.msg.c_str());
        if (e.rc) violation("refused:" + sigada(a, pdu), "the valid value %s is refused with error %d", desc(c, it).c_str(), e.rc);
        Bytes eb = e.by; eb.resize(std::min<size_t>(eb.size(), (size_t)(it.phase + e.bits + 7) / 8));
        if (!eb.empty() && (it.phase + e.bits) % 8) eb.back() &= (uint8_t)(0xFF00 >> ((it.phase + e.bits) % 8));
        if (e.bits != bits || first_diff(eb, m.bytes) >= 0) violation("wire:" + sigada(a, pdu), "Ada encodes %d bits %s, C encodes %ld bits %s: %s", e.bits, showB(eb).c_str(), bits, showB(m.bytes).c_str(), desc(c, it).c_str());
        // the Ada node receives what the C node sent
        Bytes in = padded(m.bytes, (size_t)req + (it.phase ? 1 : 0));
        ADec d = ada_dec(a, pdu, in, it.phase, hp ? &prev : nullptr);
        if (d.rc < 0) violation("exception:" + sigada(a, pdu), "decoding a correct message raises %s: %s", d.msg.c_str(), desc(c, it).c_str());
        if (d.rc) violation("rejected:" + sigada(a, pdu), "rejects (error %d) the correct encoding of %s: %s", d.rc, desc(c, it).c_str(), showB(in).c_str());
        string why; if (!same(t, v, d.v, &why)) violation("lossy:" + sigada(a, pdu), "decodes a different value at %s: %s", why.c_str(), desc(c, it).c_str());
        if (d.bits != bits) violation("bits:" + sigada(a, pdu), "consumed %d bits, sent %ld", d.bits, bits);
        { vector<int64_t> o; toTok(t, v, o); toTok(t, d.v, o); char msg[200] = ""; int r = a->eq(pdu, o.data(), (int)o.size(), msg);
          if (r != 1) violation("equal:" + sigada(a, pdu), "the generated equality says %d (%s) for equal values: %s", r, msg, desc(c, it).c_str());
          if (hp && !same(t, v, prev)) { o.clear(); toTok(t, v, o); toTok(t, prev, o); r = a->eq(pdu, o.data(), (int)o.size(), msg); if (r < 0) violation("equal:" + sigada(a, pdu), "the generated equality raises %s", msg); } }
        NONTRIV("probe.exchanged");
        // a damaged message reaches both
        int k = 1 + (int)draw(3);
        while (k--) {
            Bytes b = draw(2) ? hostile(c->m, a->model != "uper", c, pdu) : m.bytes;
            int phd = 0; if (b == m.bytes) { damage(b); phd = it.phase; }
            b = padded(b, (size_t)req + (phd ? 1 : 0));
            ev("damaged: %s", showB(b, 200).c_str());
            ADec x = ada_dec(a, pdu, b, phd, hp ? &prev : nullptr);
            Item ci; ci.pdu = pdu; ci.phase = phd; bool pb = false; vector<DecRes> y = decode_whole(c, b, { ci }, 0xC3, -2, &pb);
            ev("ada %d bits %d / c %d error %d bits %ld", x.rc, x.bits, y[0].ok, y[0].err, y[0].bits);
            if (x.rc < 0) violation("exception:" + sigada(a, pdu), "decoding a damaged message raises %s: %s", x.msg.c_str(), showB(b).c_str());
            if (x.rc == 0 && only_builtin_alphabet(t, x.v)) { FOUND("invalid-accepted:builtin-alphabet", "%s: decoding succeeded with a character above 127 in an IA5String: %s", a->name.c_str(), show(t, x.v, 200).c_str()); }
            else if (x.rc == 0 && !valid(t, x.v, &why)) violation("invalid-accepted:" + sigada(a, pdu), "accepts a value that violates its constraints at %s: %s", why.c_str(), showB(b).c_str());
            if ((x.rc == 0) != y[0].ok) { if (!getenv("VF_STRICT")) { STAT("probe.verdicts-differ"); continue; } violation("verdict:" + sigada(a, pdu), "Ada %s, C %s (error %d) the same damaged message %s: %s", x.rc ? "rejects" : "accepts", y[0].ok ? "accepts" : "rejects", y[0].ok ? x.rc : y[0].err, showB(b).c_str(), show(t, x.rc ? y[0].v : x.v, 200).c_str()); }
            if (x.rc == 0 && !same(t, x.v, y[0].v, &why)) violation("value:" + sigada(a, pdu), "Ada and C read different values at %s from %s", why.c_str(), showB(b).c_str());
            if (x.rc == 0 && x.bits != y[0].bits - phd) violation("bits:" + sigada(a, pdu), "Ada consumed %d bits, C %ld of %s", x.bits, y[0].bits - phd, showB(b).c_str());
            NONTRIV(x.rc ? "probe.damaged-rejected" : "probe.damaged-accepted");
        }
    }
}
