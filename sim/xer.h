/* XML encodings (X02) and loading XML documents from a file (X01). */

// ------------------------------------------------------------------ an independent parser for the subset of XML used
struct Xn {                     // one element
    string tag, text; vector<Xn> k; bool selfc = false, open = false;   // open: the end tag is left out when written
    const T* t = nullptr; Val v; string endtag; bool elem = false;      // elem: the element of a list, a structure's child or an alternative
};
struct XmlP {
    const string& s; size_t p = 0; string err;
    XmlP(const string& x) : s(x) {}
    bool bad(const string& m) { if (err.empty()) err = m + " at byte " + std::to_string(p); return false; }
    static bool namech(char c) { return isalnum((unsigned char)c) || c == '-' || c == '_' || c == '.'; }
    bool entity(string& o) {
        size_t e = s.find(';', p); if (e == string::npos || e > p + 6) return bad("entity");
        string n = s.substr(p, e - p); p = e + 1;
        if (n == "&lt") o += '<'; else if (n == "&gt") o += '>'; else if (n == "&amp") o += '&'; else if (n == "&quot") o += '"'; else if (n == "&apos") o += '\''; else return bad("entity " + n);
        return true;
    }
    bool element(Xn& x, int depth = 0) {
        if (depth > 60) return bad("depth");
        if (p >= s.size() || s[p] != '<') return bad("expected <");
        p++;
        while (p < s.size() && namech(s[p])) x.tag += s[p++];
        if (x.tag.empty()) return bad("tag");
        if (s.compare(p, 2, "/>") == 0) { p += 2; x.selfc = true; return true; }
        if (p >= s.size() || s[p] != '>') return bad("expected >");
        p++;
        for (;;) {
            if (p >= s.size()) return bad("unexpected end");
            if (s.compare(p, 2, "</") == 0) {
                p += 2; string e; while (p < s.size() && namech(s[p])) e += s[p++];
                if (e != x.tag) return bad("end tag " + e + " for " + x.tag);
                if (p >= s.size() || s[p] != '>') return bad("expected >");
                p++; return true;
            }
            if (s[p] == '<') { x.k.emplace_back(); if (!element(x.k.back(), depth + 1)) return false; }
            else if (s[p] == '&') { if (!entity(x.text)) return false; }
            else x.text += s[p++];
        }
    }
    bool document(Xn& x) {
        skip(); if (!element(x)) return false; skip();
        return p == s.size() ? true : bad("something after the document");
    }
    void skip() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
};
static bool blank(const string& s) { for (char c : s) if (!isspace((unsigned char)c)) return false; return true; }
static string bitstext(const Val& v) { string s; for (long i = 0; i < (long)v.n; i++) s += v.by[(size_t)i / 8] >> (7 - i % 8) & 1 ? '1' : '0'; return s; }
static string hextext(const Val& v) { string s; char b[3]; for (uint8_t x : v.by) { snprintf(b, 3, "%02X", x); s += b; } return s; }
static string oidtext(const Val& v) { string s; for (size_t i = 0; i < v.oid.size(); i++) s += (i ? "." : "") + std::to_string(v.oid[i]); return s; }
static bool leaf(const T* t) { return t->k != K_SEQ && t->k != K_SEQOF && t->k != K_CHOICE; }

// Does the content of an element spell the value?  Annotates the tree with types and values.
static bool xmatch(const T* t, const Val& v, Xn& x, string& why) {
    auto bad = [&](const string& m) { if (why.empty()) why = "<" + x.tag + ">: " + m; return false; };
    x.t = t; x.v = v;
    auto text = [&](const string& want) { return !x.k.empty() ? bad("has children") : x.text == want ? true : bad("text '" + x.text.substr(0, 60) + "', expected '" + want.substr(0, 60) + "'"); };
    auto only = [&](const string& name) { if (!blank(x.text)) return bad("text '" + x.text.substr(0, 60) + "'"); if (x.k.size() != 1 || x.k[0].tag != name || !x.k[0].k.empty() || !x.k[0].text.empty()) return bad("expected <" + name + "/>"); return true; };
    switch (t->k) {
    case K_INT: return text(i2s(v.n));
    case K_BOOL: return only(v.n ? "true" : "false");
    case K_ENUM: for (auto& e : t->items) if (e.v == v.n) return only(e.n); return bad("enum");
    case K_NULL: return text("");
    case K_REAL: {
        if (std::isnan(v.d)) return only("NOT-A-NUMBER");
        if (std::isinf(v.d)) return only(v.d > 0 ? "PLUS-INFINITY" : "MINUS-INFINITY");
        if (!x.k.empty() || x.text.empty()) return bad("no number");
        for (size_t i = 0; i < x.text.size(); i++) if (!isdigit((unsigned char)x.text[i]) && !strchr("+-.eE", x.text[i])) return bad("number '" + x.text + "'");
        char* e; double d = strtod(x.text.c_str(), &e);
        if (*e) return bad("number '" + x.text + "'");
        if (d != v.d || std::signbit(d) != std::signbit(v.d)) return bad("number '" + x.text + "' for " + show(t, v));
        return true; }
    case K_OCT: return text(hextext(v));
    case K_BIT: return text(bitstext(v));
    case K_STR: return text(string(v.by.begin(), v.by.end()));
    case K_OID: return text(oidtext(v));
    case K_SEQ: {
        if (!blank(x.text)) return bad("text '" + x.text.substr(0, 60) + "'");
        size_t i = 0, j = 0;
        for (auto& f : t->f) if (!f.ins) {
            if (v.k[i].has) {
                if (j >= x.k.size()) return bad("child " + f.name + " is missing");
                if (x.k[j].tag != f.name) return bad("child " + x.k[j].tag + " where " + f.name + " is expected");
                x.k[j].elem = true;
                if (!xmatch(f.t, v.k[i], x.k[j], why)) return false;
                j++;
            }
            i++;
        }
        return j == x.k.size() ? true : bad("unexpected child " + x.k[j].tag); }
    case K_SEQOF:
        if (!blank(x.text)) return bad("text '" + x.text.substr(0, 60) + "'");
        if ((i128)x.k.size() != v.n) return bad(std::to_string(x.k.size()) + " elements, expected " + i2s(v.n));
        for (size_t i = 0; i < x.k.size(); i++) {
            const T* e = t->elem; Xn& c = x.k[i];
            if (e->k == K_CHOICE || ((e->k == K_BOOL || e->k == K_ENUM) && (e->refname.empty() || c.tag != e->refname))) { // the value itself stands for the element
                Xn w; w.tag = c.tag; w.k.push_back(c); if (!xmatch(e, v.k[i], w, why)) return false;
                c = w.k[0]; continue;
            }
            if (c.tag != x.k[0].tag) return bad("elements with different tags");
            if (!e->refname.empty() && c.tag != e->refname) return bad("element tag " + c.tag + ", expected the name of its type " + e->refname);
            c.elem = true;
            if (!xmatch(e, v.k[i], c, why)) return false;
        }
        return true;
    case K_CHOICE: {
        if (!blank(x.text)) return bad("text '" + x.text.substr(0, 60) + "'");
        const Fld& f = t->f[(size_t)v.n];
        if (x.k.size() != 1 || x.k[0].tag != f.name) return bad("expected the alternative " + f.name);
        x.k[0].elem = true;
        return xmatch(f.t, v.k[0], x.k[0], why); }
    default: return bad("type");
    }
}

// ------------------------------------------------------------------ writing a document the way another tool might
struct XmlW {
    string o; bool noise = false; int comments = 0, spaces = 0, entities = 0;
    static const char* sp() { static const char* s[] = { " ", "\n", "\t", "\r\n", "   ", "\n    " }; return s[draw(6)]; }
    void gap() {                 // where only markup follows and precedes
        if (!noise) return;
        if (draw(4) == 3) { o += sp(); spaces++; }
        if (draw(10) == 9) { static const char* c[] = { "<!---->", "<!-- x -->", "<!--<a>b</a>-->", "<!-- - > -> -- >-->", "<!--\n\"q\" & 'z'\n-->" }; o += c[draw(5)]; comments++; if (draw(2)) o += sp(); }
    }
    void insp() { if (noise && draw(8) == 7) { o += sp(); spaces++; } }
    void text(const string& s, bool ent) {
        for (char c : s) {
            if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '&') o += "&amp;";
            else if (noise && ent && (c == '"' || c == '\'') && draw(2)) { o += c == '"' ? "&quot;" : "&apos;"; entities++; }
            else o += c;
        }
    }
    void el(const Xn& x) {
        o += "<" + x.tag; insp();
        if (x.selfc) { o += "/>"; return; }
        o += ">";
        if (x.k.empty() && !x.text.empty()) text(x.text, true);
        else { if (!(x.t && leaf(x.t) && x.k.empty())) gap(); for (auto& c : x.k) { el(c); gap(); } if (!blank(x.text)) o += x.text; }
        if (x.open) return;
        o += "</" + (x.endtag.empty() ? x.tag : x.endtag); insp(); o += ">";
    }
    void doc(const Xn& x) {
        if (noise && draw(3) == 2) { static const char* h[] = { "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' standalone='yes'?>\r\n\r\n" }; o += h[draw(3)]; }
        gap(); el(x); if (noise && draw(3) == 2) o += sp();
    }
};

// ------------------------------------------------------------------ what a successful decoding promises about the value
static bool xsound(const T* t, const Val& x, string& why, const string& at = "") {
    auto bad = [&](const string& m) { if (why.empty()) why = at + ": " + m; return false; };
    switch (t->k) {
    case K_INT: return (t->hasLo && x.n < t->lo) || (t->hasHi && x.n > t->hi) ? bad("integer " + i2s(x.n)) : true;
    case K_BOOL: return x.n == 0 || x.n == 1 ? true : bad("boolean " + i2s(x.n));
    case K_ENUM: for (auto& e : t->items) if (e.v == x.n) return true; return bad("enumeration value " + i2s(x.n));
    case K_OCT: case K_BIT: return x.n < 0 || x.n > t->hi || (t->lo == t->hi && x.n != t->lo) ? bad("size " + i2s(x.n)) : true;
    case K_STR: return x.n < 0 || x.n > t->hi ? bad("length " + i2s(x.n)) : true;
    case K_OID: return x.n < 0 || x.n > 20 ? bad("components " + i2s(x.n)) : true;
    case K_SEQOF: if (x.n < 0 || x.n > t->hi || (t->lo == t->hi && x.n != t->lo)) return bad("count " + i2s(x.n));
        for (size_t i = 0; i < x.k.size(); i++) if (!xsound(t->elem, x.k[i], why, at + "[" + std::to_string(i) + "]")) return false;
        return true;
    case K_SEQ: { size_t i = 0; for (auto& f : t->f) if (!f.ins) { if (x.k[i].has && !xsound(f.t, x.k[i], why, at + "." + f.name)) return false; i++; } return true; }
    case K_CHOICE: if (x.n < 0 || x.n >= (i128)t->f.size()) return bad("alternative " + i2s(x.n)); return xsound(t->f[(size_t)x.n].t, x.k[0], why, at + "." + t->f[(size_t)x.n].name);
    default: return true;
    }
}

static EncRes xencode(Node* n, const Item& it, size_t cap, bool ws, int check = 1) {
    const NodeApi* a = n->api; EncRes r; Strm s(n); uint8_t* buf = (uint8_t*)malloc(cap ? cap : 1);
    a->init_enc(s.s, buf, (long)cap, nullptr); a->set_ws(s.s, ws);
    Obj o(n, it.pdu, 0xA5); o.put(it.v); r.err = 12345;
    { Guard g(intern("encoding " + n->m->pdus[(size_t)it.pdu] + " on " + n->name), enc_limit(o.d) + 2000 * cap); r.ok = o.d->enc(o.p, s.s, &r.err, check); }
    shm->msgs++;
    long nb = a->byte(s.s);
    if (nb < 0 || nb > (long)cap) violation("overrun:" + n->name, "stream position %ld of %zu after encoding", nb, cap);
    r.bytes.assign(buf, buf + nb); r.bits = nb * 8; free(buf);
    if (r.ok ? r.err != 0 : r.err == 0 || r.err == 12345) violation("code:" + sigpdu(n, it.pdu), "encoding returns %d and error code %d", r.ok, r.err);
    return r;
}
static DecRes xdecode(Node* n, const string& s, int pdu, int fill = 0xC3, int stk = -2) {
    Item it; it.pdu = pdu; DecRes r = decode_whole(n, Bytes(s.begin(), s.end()), { it }, fill, stk)[0];
    if (r.ok ? r.err != 0 : r.err == 0 || r.err == 12345) violation("code:" + sigpdu(n, pdu), "decoding returns %d and error code %d for %s", r.ok, r.err, s.substr(0, 400).c_str());
    return r;
}
static string bstr(const Bytes& b) { return string(b.begin(), b.end()); }
static void xall(Xn& x, vector<Xn*>& o) { o.push_back(&x); for (auto& c : x.k) xall(c, o); }

// a change to the document after which it no longer is an encoding of any value of the type; returns its name
static string xbreak(Xn& root) {
    vector<Xn*> all; xall(root, all);
    for (int tries = 0; tries < 60; tries++) {
        Xn& x = *all[draw((uint32_t)all.size())]; const T* t = x.t;
        uint32_t op = draw(5);
        if (op == 0) { // tags
            switch (draw(4)) {
            case 0: x.tag += draw(2) ? "q" : "-x"; return "fault.tag-renamed";
            case 1: { if (x.selfc) break; string e = x.tag; size_t k = draw((uint32_t)e.size());
                switch (draw(6)) {
                case 0: e += "q"; break;
                case 1: if (e.size() < 2) continue; e.resize(std::max<size_t>(1, k)); break;
                case 2: if (e.size() < 2) continue; e.erase(0, std::max<size_t>(1, k)); break;
                case 3: e[k] = isupper((unsigned char)e[k]) ? (char)tolower(e[k]) : isalpha((unsigned char)e[k]) ? (char)toupper(e[k]) : 'q'; break;
                case 4: e[k] = e[k] == 'x' ? 'y' : 'x'; break;
                default: e = all[draw((uint32_t)all.size())]->tag; }
                if (e == x.tag) continue;
                x.endtag = e; return "fault.end-tag-renamed"; }
            case 2: if (x.selfc) break; x.open = true; return "fault.end-tag-lost";
            default: if (x.tag.size() < 2) break; x.tag.resize(x.tag.size() - 1); x.endtag = ""; return "fault.tag-cut";
            }
            continue;
        }
        if (!t) continue;
        switch (t->k) {
        case K_INT: switch (draw(6)) {
            case 0: x.text = "12x"; break; case 1: x.text = ""; x.selfc = true; break; case 2: x.text += "-1"; break; case 3: x.text = "1.5"; break;
            case 4: x.text = draw(2) ? "99999999999999999999999" : "-99999999999999999999999"; break;
            default: if (draw(2)) { if (!t->hasHi || t->hi >= ((i128)1 << 64) - 1) continue; x.text = i2s(t->hi + 1 + draw(3)); } else { if (!t->hasLo) continue; x.text = i2s(t->lo - 1 - draw(3)); } }
            return "fault.bad-integer";
        case K_BOOL: case K_ENUM: case K_CHOICE:
            if (x.k.empty()) continue;
            switch (draw(3)) { case 0: x.k.push_back(x.k[0]); break; case 1: x.k.clear(); break; default: x.k[0].tag = "unknown"; x.k[0].endtag = ""; }
            return t->k == K_CHOICE ? "fault.bad-alternative" : "fault.bad-name";
        case K_REAL: { static const char* b[] = { "abc", "1.5x", "1e", "--1", "1.2.3" }; x.text = b[draw(5)]; x.k.clear(); x.selfc = false; return "fault.bad-real"; }
        case K_OCT: if (draw(3) == 0) { x.text.resize(2 * (size_t)t->hi, 'A'); x.text += "0F"; } else if (t->lo == t->hi && draw(2) && x.text.size() > 2) x.text.resize(x.text.size() - 2); else if (!x.text.empty()) x.text[draw((uint32_t)x.text.size())] = 'G'; else { x.text = "-"; }
            x.selfc = false; return "fault.bad-octets";
        case K_BIT: if (draw(3) == 0) { x.text.resize((size_t)t->hi, '1'); x.text += "1"; } else if (t->lo == t->hi && draw(2) && x.text.size() > 1) x.text.resize(x.text.size() - 1); else if (!x.text.empty()) x.text[draw((uint32_t)x.text.size())] = '2'; else x.text = "x";
            x.selfc = false; return "fault.bad-bits";
        case K_STR: x.text.resize((size_t)t->hi, 'A'); for (uint32_t i = 1 + draw(3); i--;) x.text += 'B'; x.selfc = false; return "fault.long-string";
        case K_OID: { switch (draw(4)) { case 0: x.text += "."; break; case 1: x.text = "." + x.text; break; case 2: { size_t d = x.text.find('.'); if (d == string::npos) continue; x.text.insert(d, "."); break; } default: for (int i = (int)x.v.oid.size(); i < 21; i++) x.text += ".1"; } x.selfc = false; return "fault.bad-oid"; }
        case K_SEQOF:
            if (x.k.empty()) continue;
            if (t->lo == t->hi && draw(2)) { x.k.erase(x.k.begin() + draw((uint32_t)x.k.size())); return "fault.list-short"; }
            while ((i128)x.k.size() <= t->hi) { Xn c = x.k[0]; x.k.push_back(c); }
            return "fault.list-long";
        case K_SEQ: {
            if (x.k.empty()) continue;
            size_t i = draw((uint32_t)x.k.size());
            switch (draw(3)) {
            case 0: { bool opt = true; for (auto& f : t->f) if (f.name == x.k[i].tag) opt = f.opt != 0; if (opt) continue; x.k.erase(x.k.begin() + (long)i); return "fault.element-lost"; }
            case 1: { Xn c = x.k[i]; x.k.insert(x.k.begin() + (long)i, c); return "fault.element-duplicated"; }
            default: { size_t j = draw((uint32_t)x.k.size()); if (i == j) continue; std::swap(x.k[i], x.k[j]); return "fault.elements-reordered"; } } }
        case K_NULL: x.text = "0"; x.selfc = false; return "fault.bad-null";
        default: continue;
        }
    }
    return "";
}
static void xdamage(string& s) {
    Bytes b(s.begin(), s.end());
    int k = 1 + (int)draw(3);
    while (k--) {
        if (draw(3)) { damage(b); continue; }
        string c = bstr(b);   // damage that respects the markup
        static const char* w[] = { "<", ">", "</", "/>", "<!--", "-->", "<?", "?>", "&", "&lt;", "&amp", "<true/>", "-", "\"", "=", " a=\"b\"", "0000000000000000000000", "\n" };
        string z = w[draw(18)]; if (draw(12) == 11) z = string(90 + draw(40), 'n');
        size_t p = draw((uint32_t)c.size() + 1); if (draw(2)) { size_t q = c.find(draw(2) ? '>' : '<', p); if (q != string::npos) p = q + draw(2); }
        c.insert(p, z); b.assign(c.begin(), c.end()); STAT("fault.markup-inserted");
    }
    s = bstr(b);
}
static void sc_X02() {
    Node* n = nodes["xer_c64"]; Item it = gen_item(n, false, false); const T* t = n->m->pdu(it.pdu); const Pdu* d = &n->api->pdus[n->map[(size_t)it.pdu]];
    const string sg = sigpdu(n, it.pdu);
    ev("%s", desc(n, it).c_str());
    EncRes r = xencode(n, it, (size_t)d->required, false);
    string x = bstr(r.bytes);
    ev("ok %d err %d, %zu of %ld bytes: %s", r.ok, r.err, x.size(), d->required, x.substr(0, 900).c_str());
    if (!r.ok) violation("refused:" + sg, "the valid value %s is refused with error %d in a buffer of the advertised %ld bytes", desc(n, it).c_str(), r.err, d->required);
    Xn doc; XmlP p(x); if (!p.document(doc)) violation("malformed:" + sg, "the encoding is not well-formed XML (%s): %s", p.err.c_str(), x.substr(0, 800).c_str());
    string why;
    if (doc.tag != n->m->pdus[(size_t)it.pdu]) violation("root:" + sg, "the document element is %s", doc.tag.c_str());
    if (!xmatch(t, it.v, doc, why)) violation("content:" + sg, "the document does not spell the value: %s: %s", why.c_str(), x.substr(0, 800).c_str());
    auto expect = [&](const string& s, const char* what) {
        DecRes q = xdecode(n, s, it.pdu); string w;
        if (!q.ok) violation(string("rejected:") + sg, "%s is rejected with error %d: %s", what, q.err, s.substr(0, 1500).c_str());
        if (!same(t, it.v, q.v, &w)) violation(string("lossy:") + sg, "%s decodes to a different value at %s: %s", what, w.c_str(), s.substr(0, 1500).c_str());
    };
    expect(x, "the encoding");
    NONTRIV("probe.round-trip");
    switch (draw(6)) {
    case 0: { // room
        size_t cap = draw(3) ? draw((uint32_t)x.size()) : x.size() - 1; EncRes s = xencode(n, it, cap, false);
        if (s.ok) violation("short-buffer:" + sg, "encoding %zu bytes succeeds in a buffer of %zu", x.size(), cap);
        s = xencode(n, it, x.size() + 1, false); if (!s.ok || s.bytes != r.bytes) violation("fitting-buffer:" + sg, "encoding %zu bytes fails with %d in a buffer of %zu", x.size(), s.err, x.size() + 1);
        STAT("fault.no-room"); break; }
    case 1: { // indented output
        EncRes s = xencode(n, it, x.size() * 8 + 4096, true); if (!s.ok) violation("refused-indented:" + sg, "indented encoding fails with %d", s.err);
        string y = bstr(s.bytes); Xn e; XmlP q(y); if (!q.document(e)) violation("malformed-indented:" + sg, "%s: %s", q.err.c_str(), y.substr(0, 800).c_str());
        why.clear(); if (!xmatch(t, it.v, e, why)) violation("content-indented:" + sg, "%s: %s", why.c_str(), y.substr(0, 800).c_str());
        expect(y, "the indented encoding"); STAT("cfg.indented");
        if (y.size() > x.size()) { size_t cap = draw((uint32_t)y.size() - 1); EncRes z = xencode(n, it, cap, true); size_t end = y.find_last_not_of(" \n"); if (z.ok && cap < end) violation("short-buffer-indented:" + sg, "encoding %zu bytes succeeds in a buffer of %zu", y.size(), cap); }
        break; }
    case 2: { // the same document as another tool may write it
        XmlW w; w.noise = true; w.doc(doc); ev("rewritten %s", w.o.substr(0, 900).c_str()); expect(w.o, "the same document laid out differently");
        if (w.comments) STAT("fault.comments"); if (w.spaces) STAT("fault.whitespace"); if (w.entities) STAT("fault.entities"); break; }
    case 3: { // a value that violates a constraint, or the start of a document
        if (draw(2)) {
            Item b = it; vector<Site> ss; sites(t, b.v, ss); if (ss.empty()) break;
            Site s = ss[draw((uint32_t)ss.size())]; corrupt(s); bool ok = valid(t, b.v); if (only_builtin_alphabet(t, b.v)) break;
            ev("corrupted at %s: %s", s.at.c_str(), desc(n, b).c_str()); STAT("fault.corrupt-value");
            EncRes q = xencode(n, b, (size_t)d->required, false);
            if (q.ok != ok) violation(string(ok ? "valid-refused:" : "invalid-sent:") + sg, "Encode says %d (error %d) for a%s value: %s", q.ok, q.err, ok ? " valid" : "n invalid", desc(n, b).c_str());
        } else {
            string cut = x.substr(0, draw(4) ? draw((uint32_t)x.size()) : x.size() - 1); DecRes q = xdecode(n, cut, it.pdu); STAT("fault.truncate");
            if (q.ok) violation("prefix-accepted:" + sg, "the first %zu of %zu bytes are accepted: %s", cut.size(), x.size(), cut.substr(0, 800).c_str());
        }
        break; }
    case 4: { // a change that no value of the type has
        Xn b = doc; string f = xbreak(b); if (f.empty()) break;
        XmlW w; w.noise = draw(4) == 3; w.doc(b); ev("%s %s", f.c_str(), w.o.substr(0, 900).c_str()); STAT(f.c_str());
        DecRes q = xdecode(n, w.o, it.pdu);
        if (q.ok) violation("accepted:" + f.substr(6) + ":" + sg, "%s: a document that is no encoding of the type is accepted as %s: %s", f.c_str(), show(t, q.v, 300).c_str(), w.o.substr(0, 1000).c_str());
        break; }
    default: { // damage
        string s = x; xdamage(s); ev("damaged %s", s.substr(0, 900).c_str());
        DecRes a = xdecode(n, s, it.pdu, 0, 0), b = xdecode(n, s, it.pdu, draw(2) ? 0xFF : 0x5A, draw(2) ? 0xFF : -7);
        if (a.ok != b.ok || a.err != b.err) violation("verdict:" + sg, "the verdict for the same bytes depends on memory contents (%d/%d then %d/%d): %s", a.ok, a.err, b.ok, b.err, s.substr(0, 800).c_str());
        STAT(a.ok ? "probe.accepted" : "probe.rejected");
        if (a.ok) { string w; if (!same(t, a.v, b.v, &w)) violation("value:" + sg, "the decoded value depends on memory contents at %s: %s", w.c_str(), s.substr(0, 800).c_str());
            if (!xsound(t, a.v, w)) violation("unsound:" + sg, "decoding succeeded with an impossible value at %s: %s", w.c_str(), s.substr(0, 800).c_str()); }
        break; }
    }
}

// =================================================================== X01
// the simulated file system: named contents, delivered in pieces, with failures
struct XFile { string data; bool absent = false; long fail_at = -1; bool sticky = false; uint32_t piece = 0; int opens = 0, closes = 0, fails = 0, reads = 0; };
static std::map<string, XFile*> xfs;
struct XOpen { XFile* f; size_t pos = 0; bool failed = false; };
static ssize_t xf_read(void* c, char* b, size_t n) {
    XOpen* o = (XOpen*)c; XFile* f = o->f; bool cnt = g_count; g_count = false; f->reads++;
    size_t k = std::min(n, f->data.size() - o->pos);
    if (f->piece && k > 1) { size_t m = 1 + draw((uint32_t)std::min<size_t>(k, f->piece)); if (m < k) STAT("fault.short-read"); k = m; }
    if (f->fail_at >= 0 && (long)(o->pos + k) > f->fail_at && !(o->failed && !f->sticky)) {
        if ((long)o->pos < f->fail_at) k = (size_t)f->fail_at - o->pos;
        else { o->failed = true; f->fails++; STAT("fault.read-error"); g_count = cnt; errno = EIO; return -1; }
    } else if (f->fail_at == (long)f->data.size() && o->pos == f->data.size() && !(o->failed && !f->sticky)) { o->failed = true; f->fails++; STAT("fault.read-error"); g_count = cnt; errno = EIO; return -1; }
    memcpy(b, f->data.data() + o->pos, k); o->pos += k;
    g_count = cnt; return (ssize_t)k;
}
static int xf_close(void* c) { XOpen* o = (XOpen*)c; o->f->closes++; delete o; return 0; }
extern "C" FILE* vf_fopen(const char* name, const char* mode) {
    bool cnt = g_count; g_count = false; FILE* r = nullptr; auto it = xfs.find(name);
    if (mode[0] != 'r') violation("open-mode", "a file to be loaded is opened with mode %s", mode);
    if (it == xfs.end() || it->second->absent) { STAT("fault.open-failed"); errno = it == xfs.end() ? ENOENT : EMFILE; }
    else { XOpen* o = new XOpen; o->f = it->second; o->f->opens++; cookie_io_functions_t io = { xf_read, nullptr, nullptr, xf_close }; r = fopencookie(o, "r", io); static const int bs[] = { 0, 1, 2, 7, 64, 4096 }; int z = bs[draw(6)]; if (z == 1) setvbuf(r, nullptr, _IONBF, 0); else if (z) setvbuf(r, nullptr, _IOFBF, (size_t)z); }
    g_count = cnt; return r;
}
// a document and what has to be left of it
struct XTok { string s; bool tag, leaf; };
struct XDoc { string file; vector<XTok> toks; size_t least = 0, longest = 0; bool pdu = false; Item it; bool torn = false; };
static string xname() { static const char* n[] = { "a", "b", "rec", "x-1", "Long-Name.with_all", "T" }; string s = n[draw(6)]; if (draw(6) == 5) s += std::string(1 + draw(60), 'z'); return s; }
static string xtext(size_t max) {
    string s; size_t n = draw(4) == 0 ? 0 : 1 + draw((uint32_t)(draw(8) == 7 ? max : 12)); uint64_t q = draw(65536); static const char sp[] = "->-/!?\"'= \n\t;&";
    for (size_t i = 0; i < n; i++) { uint64_t z = splitmix(q); char c = z % 3 ? (char)('0' + z / 8 % 10) : z % 5 ? sp[z / 32 % 14] : (char)(33 + z / 32 % 200); if (c == '<' || c == 0) c = 'x'; s += c; }
    return s;
}
struct XGen {
    XDoc& d; size_t run = 0; int budget;
    XGen(XDoc& x, int b) : d(x), budget(b) {}
    void gap() {
        size_t r = 0;
        if (draw(3) == 2) { string w; int k = 1 + (int)draw(draw(20) == 19 ? 600 : 5); static const char sp[] = " \n\t\r"; while (k--) w += sp[draw(4)]; d.file += w; r += w.size(); }
        if (draw(6) == 5) { static const char* c[] = { "<!---->", "<!-- c -->", "<!-- a->b -> c-d -->", "<!-- <a>1</a> & ]]> -->", "<!--\n-\n- > \n-->", "<!-->-->" }; int k = (int)draw(6); d.file += k == 5 ? "<!-- > - -> -->" : c[k]; STAT("fault.comments"); if (draw(2)) { d.file += "  \n"; r += 3; } }
        run += r; d.longest = std::max(d.longest, run);
    }
    void tag(const string& s) { d.file += s; d.toks.push_back({ s, true, false }); d.least += s.size(); run = 0; }
    void el(int depth) {
        string n = xname(), at, end; budget--;
        if (draw(8) == 7) { at = draw(2) ? " k=\"v-1\"" : "  attr = 'a b' q=\"-\""; }
        if (draw(8) == 7) end = draw(2) ? " " : "\n\t";
        uint32_t what = depth > 6 || budget <= 0 ? draw(2) : draw(5);
        if (what == 0 && draw(2)) { tag("<" + n + at + end + "/>"); return; }
        tag("<" + n + at + end + ">");
        if (what <= 1) {
            string t = xtext(3000); if (draw(150) == 149) t += string(4000 + draw(300), 'L');
            d.toks.push_back({ t, false, true }); d.least += t.size(); d.longest = std::max(d.longest, t.size());
            size_t cut = draw(t.size() < 100 && draw(6) == 5 ? (uint32_t)t.size() + 1 : 1);
            if (cut) { d.file += t.substr(0, cut) + "<!-- in the text -->" + t.substr(cut); STAT("fault.comments"); } else d.file += t;
        } else { int k = (int)draw(4); gap(); while (k-- > 0) { el(depth + 1); gap(); } }
        tag("</" + n + (draw(8) == 7 ? " " : "") + ">");
    }
    void doc() {
        if (draw(4) == 3) d.file += "\n";
        if (draw(2)) { static const char* h[] = { "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8' ?>\n", "<?style a?b>c ??>" }; d.file += h[draw(3)]; }
        gap(); run = 0; el(0); gap();
    }
};
static XDoc make_doc(Node* n) {
    XDoc d;
    if (draw(3)) { XGen g(d, 40); g.doc(); return d; }
    d.pdu = true; d.it = gen_item(n, false, false);
    const Pdu* p = &n->api->pdus[n->map[(size_t)d.it.pdu]]; EncRes r = xencode(n, d.it, (size_t)p->required * 8 + 4096, draw(2));
    if (!r.ok) violation("refused:" + sigpdu(n, d.it.pdu), "the valid value %s is refused with error %d", desc(n, d.it).c_str(), r.err);
    d.file = bstr(r.bytes); Xn x; XmlP q(d.file); string why;
    if (!q.document(x) || !xmatch(n->m->pdu(d.it.pdu), d.it.v, x, why)) violation("content:" + sigpdu(n, d.it.pdu), "%s %s", q.err.c_str(), why.c_str());
    if (draw(2)) { XmlW w; w.noise = true; w.doc(x); d.file = w.o; }
    d.least = r.bytes.size(); vector<Xn*> all; xall(x, all); d.least = 0; for (auto e : all) { d.least += e->tag.size() + 3; d.longest = std::max(d.longest, e->text.size() * 5); }
    size_t run = 0; for (char c : d.file) { run = isspace((unsigned char)c) ? run + 1 : 0; d.longest = std::max(d.longest, run); }
    if (draw(4) == 3) { // the writer crashed: only the beginning of the file is there
        size_t e = d.file.rfind("</"); if (e == string::npos) e = d.file.find("/>"); if (e != string::npos && e > 0) { d.file.resize(draw((uint32_t)e)); d.torn = true; d.least = 0; STAT("fault.torn-file"); } }
    return d;
}
struct XLoad { XDoc d; XFile f; string name; long cap; bool ok; int loaded = -7; uint8_t* buf; Strm* s; bool fresh = true; };
static void run_load(Node* n, XLoad* l) {
    l->f.fails = 0; l->f.opens = l->f.closes = 0; l->loaded = -7;
    { Guard g("loading an XML file", 100000 + 400 * l->d.file.size()); l->ok = n->api->load_xml(l->name.c_str(), l->s->s, &l->loaded) != 0; }
    shm->msgs++;
}
static void check_load(Node* n, XLoad* l) {
    const XDoc& d = l->d; const char* f = l->d.file.c_str();
    ev("%s: %zu bytes into %ld, %s, failing %d times -> %d, %d bytes: %s", l->name.c_str(), d.file.size(), l->cap, l->f.absent ? "cannot be opened" : "opened", l->f.fails, l->ok, l->loaded, d.file.substr(0, 600).c_str());
    if (l->f.opens != l->f.closes) violation("leak", "the file was opened %d and closed %d times", l->f.opens, l->f.closes);
    if (l->f.absent) { if (l->ok) violation("absent-loaded", "a file that cannot be opened is reported as loaded"); return; }
    if (l->f.opens != 1) violation("opens", "the file was opened %d times", l->f.opens);
    if (l->f.fails) { NONTRIV("probe.load-with-read-error"); if (l->ok) violation("partial-loaded", "reading failed at byte %ld of %zu, yet the file is reported as loaded (%d bytes): %s", l->f.fail_at, d.file.size(), l->loaded, f); return; }
    if (!l->ok) {
        if (l->cap > (long)d.file.size() && d.longest <= 4096) violation("not-loaded", "a %zu byte file is not loaded into %ld bytes: %s", d.file.size(), l->cap, f);
        STAT("probe.no-room"); return;
    }
    if (l->cap < (long)d.least) violation("overfull", "at least %zu bytes are reported as loaded into %ld", d.least, l->cap);
    if (l->loaded < 0 || l->loaded > l->cap) violation("length", "%d bytes are reported as loaded into %ld", l->loaded, l->cap);
    if (n->api->byte(l->s->s) != 0) violation("position", "the stream is at byte %ld after loading", n->api->byte(l->s->s));
    if (n->api->count(l->s->s) != l->cap) violation("count", "the size of the buffer changed from %ld to %ld", l->cap, n->api->count(l->s->s));
    string got((char*)l->buf, (size_t)l->loaded); ev("loaded %s", got.substr(0, 600).c_str());
    NONTRIV("probe.loaded");
    if (!d.pdu) {
        size_t p = 0;
        for (size_t i = 0; i < d.toks.size(); i++) {
            const XTok& t = d.toks[i];
            if (t.leaf) { if (got.compare(p, t.s.size(), t.s) != 0 || p + t.s.size() >= got.size() || got[p + t.s.size()] != '<') violation("text", "the text '%s' came out as '%s' (loaded %s)", t.s.substr(0, 200).c_str(), got.substr(p, t.s.size() + 20).substr(0, 200).c_str(), got.substr(0, 600).c_str()); p += t.s.size(); continue; }
            if (!(i && d.toks[i - 1].leaf)) while (p < got.size() && isspace((unsigned char)got[p])) p++;
            if (got.compare(p, t.s.size(), t.s) != 0) violation("markup", "at byte %zu %s is expected: %s from %s", p, t.s.c_str(), got.substr(0, 800).c_str(), d.file.substr(0, 800).c_str());
            p += t.s.size();
        }
        while (p < got.size() && isspace((unsigned char)got[p])) p++;
        if (p != got.size()) violation("tail", "something follows the document: %s from %s", got.substr(0, 800).c_str(), d.file.substr(0, 800).c_str());
    } else {
        DecRes r = xdecode(n, got, d.it.pdu); string w;
        if (d.torn) { if (r.ok) violation("torn-accepted:" + sigpdu(n, d.it.pdu), "a file that ends too early decodes: %s", f); NONTRIV("probe.torn-rejected"); return; }
        if (!r.ok) violation("rejected:" + sigpdu(n, d.it.pdu), "error %d for a correct file: %s loaded as %s", r.err, d.file.substr(0, 800).c_str(), got.substr(0, 800).c_str());
        if (!same(n->m->pdu(d.it.pdu), d.it.v, r.v, &w)) violation("lossy:" + sigpdu(n, d.it.pdu), "different value at %s: %s loaded as %s", w.c_str(), d.file.substr(0, 800).c_str(), got.substr(0, 800).c_str());
        NONTRIV("probe.loaded-and-decoded");
    }
}
static void sc_X01() {
    static Sim S; sim = &S; Node* n = nodes["xer_c64"];
    int cnt = 1 + (int)draw(4); bool par = cnt > 1 && draw(2); vector<XLoad*> ls; XLoad* prev = nullptr;
    for (int i = 0; i < cnt; i++) {
        XLoad* l = new XLoad; ls.push_back(l); l->name = "/sim/f" + std::to_string(i); l->d = make_doc(n); l->f.data = l->d.file; xfs[l->name] = &l->f;
        switch (draw(6)) { case 5: l->f.absent = true; if (draw(2)) xfs.erase(l->name); break; case 4: l->f.fail_at = (long)draw((uint32_t)l->d.file.size() + 1); l->f.sticky = draw(2); break; default: break; }
        if (draw(3) == 2) l->f.piece = 1 + draw(40);
        size_t fs = l->d.file.size();
        switch (draw(6)) { case 0: l->cap = (long)draw((uint32_t)fs + 1); break; case 1: l->cap = (long)(l->d.least > 1 ? l->d.least - 1 - draw((uint32_t)std::min<size_t>(l->d.least, 4)) : 0); break; case 2: l->cap = (long)fs + 1; break; default: l->cap = (long)fs + 1 + (long)draw(300); }
        if (l->cap < 1) l->cap = 1;
        if (!par && prev && draw(2)) { l->s = prev->s; l->buf = prev->buf; l->cap = prev->cap; l->fresh = false; STAT("cfg.reused-stream"); }
        else { l->buf = (uint8_t*)malloc((size_t)l->cap); memset(l->buf, (int)draw(256), (size_t)l->cap); l->s = new Strm(n); n->api->init_enc(l->s->s, l->buf, l->cap, nullptr); }
        prev = l;
        if (!par) { run_load(n, l); check_load(n, l); }
    }
    if (par) {
        for (auto l : ls) S.spawn("loader", [n, l] { run_load(n, l); });
        S.quantum = draw(3) == 0 ? 2 + draw(20) : 30 + draw(800);
        if (!S.run(20000000)) violation("stuck", "loads stopped making progress");
        STAT("sched.switches", S.switches); NONTRIV("probe.loads-interleaved");
        for (auto l : ls) check_load(n, l);
    }
}
