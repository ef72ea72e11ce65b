"""A small specification language.  One description of a type yields: ASN.1 text, ACN text, the C glue that moves
values between a generated C struct and a flat token stream, and the C++ descriptor that the simulator's value
generator, validity oracle and independent reference encoders interpret."""


def cid(s):
    return s.replace('-', '_')


class T:
    acn = ''          # ACN properties of this type/field, e.g. 'size 8, encoding pos-int'
    enc = 'DEF'
    p1 = p2 = 0
    pat = ''          # bit pattern (as '0101' string)
    pat2 = ''
    align = 0

    def _acn(self, kw):
        self.acn_class = kw.pop('acn', None)
        if kw:
            raise TypeError(kw)

    def props(self):
        r = []
        a = {8: 'byte', 16: 'word', 32: 'dword'}.get(self.align)
        if a:
            r.append('align-to-next ' + a)
        if self.acn:
            r.append(self.acn)
        return ', '.join(r)

    def with_(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        return self

    def children_acn(self, ind):
        return ''

    # C++ descriptor
    def cpp_base(self, kind, **kw):
        kw.update(enc=self.enc, p1=self.p1, p2=self.p2, pat=self.pat, pat2=self.pat2, align=self.align)
        f = []
        for k, v in kw.items():
            if v in (0, '', None, False) and k not in ('lo', 'hi'):
                continue
            if k == 'enc':
                if v == 'DEF':
                    continue
                f.append('t->enc=E_%s;' % v)
            elif k in ('lo', 'hi') and kind == 'K_INT':
                f.append('t->%s=%s;' % (k, lit(v)))
            elif isinstance(v, bool):
                f.append('t->%s=true;' % k)
            elif isinstance(v, int):
                f.append('t->%s=%s;' % (k, lit(v)))
            elif isinstance(v, str):
                f.append('t->%s=%s;' % (k, cstr(v)))
        return 'mk(%s,[](T*t){%s' % (kind, ''.join(f))


def lit(v):
    return '((i128)%dULL)' % v if v >= 0 else '(-(i128)%dULL)' % -v


def cstr(s):
    return '"' + ''.join(c if (32 <= ord(c) < 127 and c not in '"\\') else '\\%03o' % ord(c) for c in s) + '"'


class Int(T):
    def __init__(self, lo=None, hi=None, **kw):
        self.lo, self.hi = lo, hi
        self.__dict__.update(kw)

    def asn1(self):
        if self.lo is None and self.hi is None:
            return 'INTEGER'
        return 'INTEGER (%s..%s)' % ('MIN' if self.lo is None else self.lo, 'MAX' if self.hi is None else self.hi)

    def unsigned(self):
        return self.lo is not None and self.lo >= 0

    def cpp(self):
        kw = {}
        if self.lo is not None:
            kw.update(lo=self.lo, hasLo=True)
        if self.hi is not None:
            kw.update(hi=self.hi, hasHi=True)
        return self.cpp_base('K_INT', **kw) + '})'

    def put(self, e):
        return '%s = TKI(r);' % e if not self.unsigned() else '%s = TKU(r);' % e

    def get(self, e):
        return 'PTI(w,%s);' % e if not self.unsigned() else 'PTU(w,%s);' % e


class Bool(T):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def asn1(self):
        return 'BOOLEAN'

    def cpp(self):
        return self.cpp_base('K_BOOL') + '})'

    def put(self, e):
        return '%s = TKI(r)!=0;' % e

    def get(self, e):
        return 'PTI(w,(%s)?1:0);' % e


class Null(T):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def asn1(self):
        return 'NULL'

    def cpp(self):
        return self.cpp_base('K_NULL') + '})'

    def put(self, e):
        return '%s = 0;' % e

    def get(self, e):
        return ''


class Real(T):
    def __init__(self, lo=None, hi=None, **kw):
        self.lo, self.hi = lo, hi
        self.__dict__.update(kw)

    def asn1(self):
        return 'REAL' if self.lo is None else 'REAL (%r..%r)' % (float(self.lo), float(self.hi))

    def cpp(self):
        s = self.cpp_base('K_REAL')
        if self.lo is not None:
            s += 't->hasLo=t->hasHi=true;t->rlo=%r;t->rhi=%r;' % (float(self.lo), float(self.hi))
        return s + '})'

    def put(self, e):
        return '%s = TKD(r);' % e

    def get(self, e):
        return 'PTD(w,%s);' % e


class Enum(T):
    """items: [(name, asn1 value, acn value or None)]"""
    def __init__(self, items, **kw):
        self.items = [(i + (None,))[:3] for i in items]
        self.__dict__.update(kw)

    def asn1(self):
        return 'ENUMERATED { %s }' % ', '.join('%s(%d)' % (n, v) for n, v, _ in self.items)

    def children_acn(self, ind):
        if any(a is not None for _, _, a in self.items):
            return ' { ' + ', '.join('%s [%d]' % (n, a if a is not None else v) for n, v, a in self.items) + ' }'
        return ''

    def cpp(self):
        s = self.cpp_base('K_ENUM')
        for n, v, a in self.items:
            s += 't->items.push_back({%s,%d,%d});' % (cstr(n), v, v if a is None else a)
        return s + '})'

    def put(self, e):
        return '{ long long tv_ = TKI(r); %s = (int)tv_; }' % e

    def get(self, e):
        return 'PTI(w,(long long)(%s));' % e


class Sized(T):
    def size_asn1(self):
        return '(SIZE(%d))' % self.lo if self.lo == self.hi else '(SIZE(%d..%d))' % (self.lo, self.hi)

    def __init__(self, lo, hi=None, **kw):
        self.lo, self.hi = lo, (lo if hi is None else hi)
        self.__dict__.update(kw)

    def fixed(self):
        return self.lo == self.hi


class Octets(Sized):
    def asn1(self):
        return 'OCTET STRING ' + self.size_asn1()

    def cpp(self):
        return self.cpp_base('K_OCT', lo=self.lo, hi=self.hi) + '})'

    def put(self, e):
        return 'put_oct(r,%s,%s.arr,%d,%d);' % ('NULL' if self.fixed() else '&%s.nCount' % e, e, self.hi, self.fixed())

    def get(self, e):
        return 'get_oct(w,%s,%s.arr,%d);' % (self.hi if self.fixed() else '%s.nCount' % e, e, self.hi)


class Bits(Sized):
    def asn1(self):
        return 'BIT STRING ' + self.size_asn1()

    def cpp(self):
        return self.cpp_base('K_BIT', lo=self.lo, hi=self.hi) + '})'

    def put(self, e):
        return 'put_bit(r,%s,%s.arr,%d,%d);' % ('NULL' if self.fixed() else '&%s.nCount' % e, e, self.hi, self.fixed())

    def get(self, e):
        return 'get_bit(w,%s,%s.arr,%d);' % (self.hi if self.fixed() else '%s.nCount' % e, e, self.hi)


class Str(Sized):
    """IA5String / NumericString etc; alphabet = string of allowed characters, or None for all 128"""
    alphabet = None
    base = 'IA5String'

    def asn1(self):
        s = '%s %s' % (self.base, self.size_asn1())
        if self.alphabet and self.frm:
            s += ' (FROM (%s))' % self.frm
        return s
    frm = None

    def cpp(self):
        al = self.alphabet
        s = self.cpp_base('K_STR', lo=self.lo, hi=self.hi)
        if al is None:
            s += 'for(int c=0;c<128;c++)t->alpha.push_back(c);t->ia5=true;'
        else:
            for c in sorted(al):
                s += 't->alpha.push_back(%d);' % ord(c)
        return s + '})'

    def put(self, e):
        return 'put_str(r,%s,%d);' % (e, self.hi)

    def get(self, e):
        return 'get_str(w,%s,%d);' % (e, self.hi)


class Oid(T):
    def __init__(self, relative=False, **kw):
        self.relative = relative
        self.__dict__.update(kw)

    def asn1(self):
        return 'RELATIVE-OID' if self.relative else 'OBJECT IDENTIFIER'

    def cpp(self):
        return self.cpp_base('K_OID', relative=self.relative) + '})'

    def put(self, e):
        return 'put_oid(r,&(%s));' % e

    def get(self, e):
        return 'get_oid(w,&(%s));' % e


class SeqOf(Sized):
    def __init__(self, elem, lo, hi=None, **kw):
        self.elem = elem
        Sized.__init__(self, lo, hi, **kw)

    def asn1(self):
        return 'SEQUENCE %s OF %s' % (self.size_asn1(), self.elem.asn1())

    def children_acn(self, ind):
        if isinstance(self.elem, Ref) and not self.elem.props() and not self.elem.args:
            return ''
        p = self.elem.props()
        c = self.elem.children_acn(ind)
        a = self.elem.args if isinstance(self.elem, Ref) else ''
        return ' { dummy%s [%s]%s }' % (a, p, c) if (p or c or a) else ''

    def cpp(self):
        return self.cpp_base('K_SEQOF', lo=self.lo, hi=self.hi) + 't->elem=%s;})' % self.elem.cpp()
    depth = 0

    def put(self, e):
        SeqOf.depth += 1
        i = 'i%d' % SeqOf.depth
        s = '{ long n%s=TKI(r); %s int %s; for(%s=0;%s<CLAMP(n%s,%d);%s++){ %s } }' % (
            i, '' if self.fixed() else '%s.nCount=(int)n%s;' % (e, i), i, i, i, i, self.hi, i,
            self.elem.put('%s.arr[%s]' % (e, i)))
        SeqOf.depth -= 1
        return s

    def get(self, e):
        SeqOf.depth += 1
        i = 'i%d' % SeqOf.depth
        s = '{ long n%s=%s; int %s; PTI(w,n%s); for(%s=0;%s<CLAMP(n%s,%d);%s++){ %s } }' % (
            i, self.hi if self.fixed() else '%s.nCount' % e, i, i, i, i, i, self.hi, i,
            self.elem.get('%s.arr[%s]' % (e, i)))
        SeqOf.depth -= 1
        return s


class F:
    """a SEQUENCE component.  opt: None | 'OPT' | default value (int/bool/enum-name)
    present: None | name of the boolean determinant (or expression text in pw, with Expr in pexpr)"""
    def __init__(self, name, t, opt=None, present=None, args=''):
        self.name, self.t, self.opt, self.present = name, t, opt, present
        self.args = args or getattr(t, 'args', '')
        self.inserted = None


class I(F):
    """an ACN inserted field: type text, props, reference-encoder type and how its value follows from the data.
    value: ('len', path) ('pres', path) ('choice', path, {alt: value}) ('const', v) ; path = 'a.b' relative to
    the enclosing SEQUENCE"""
    def __init__(self, name, t, value, tname=None):
        self.name, self.t, self.value, self.tname = name, t, value, tname
        self.opt = None
        self.present = None
        self.args = ''
        self.inserted = value


PARENT = {}


class Seq(T):
    def __init__(self, *fields, **kw):
        self.fields = list(fields)
        self.__dict__.update(kw)
        for f in self.fields:
            PARENT[id(f.t)] = self

    def asn1(self, ind='  '):
        r = []
        for f in self.fields:
            if f.inserted:
                continue
            s = '%s%s %s' % (ind, f.name, f.t.asname or f.t.asn1(ind + '  ') if isinstance(f.t, Seq) else f.t.asn1())
            if f.opt == 'OPT':
                s += ' OPTIONAL'
            elif f.opt is not None:
                s += ' DEFAULT ' + (str(f.opt).upper() if isinstance(f.opt, bool) else str(f.opt))
            r.append(s)
        return 'SEQUENCE {\n%s\n%s}' % (',\n'.join(r), ind[:-2])

    asname = None     # declared under this name in ASN.1; the ACN encoding is given where it is used

    def has_acn(self):
        return any(f.inserted or f.present or f.t.props() or f.args or f.t.children_acn('') for f in self.fields)

    def children_acn(self, ind):
        if not self.has_acn():
            return ''
        r = []
        for f in self.fields:
            p = f.t.props()
            if f.present:
                p = 'present-when ' + f.present + (', ' + p if p else '')
            c = f.t.children_acn(ind + '  ')
            if f.inserted:
                r.append('%s%s %s [%s]' % (ind, f.name, f.tname or f.t.asn1().split(' (')[0], p))
            else:
                r.append('%s%s %s[%s]%s' % (ind, f.name, f.args, p, c))
        return ' {\n%s\n%s}' % (',\n'.join(r), ind[:-2])

    def cpp(self):
        s = self.cpp_base('K_SEQ')
        real = [f for f in self.fields if not f.inserted]
        idx = {f.name: i for i, f in enumerate(real)}
        for f in self.fields:
            if f.inserted:
                v = f.value
                pths = [''] if v[0] == 'const' else v[1] if isinstance(v[1], list) else [v[1]]
                outp = []
                for pth in pths:
                    up = 0
                    while pth.startswith('^.'):
                        pth, up = pth[2:], up + 1
                    base = self
                    for _ in range(up):
                        base = PARENT[id(base)]
                    outp.append(base.path(pth) if pth else '{}')
                s += 'ins(t,%s,%s,"%s",%d,{%s},{%s});' % (
                    cstr(f.name), f.t.cpp(), v[0], up, ','.join(outp),
                    ','.join(str(x) for x in (v[2] if len(v) > 2 else ([v[1]] if v[0] == 'const' else []))))
            else:
                d = '0'
                if f.opt not in (None, 'OPT'):
                    d = str(int(f.opt)) if not isinstance(f.opt, str) else str(
                        dict((n, v) for n, v, _ in resolve(f.t).items)[f.opt])
                s += 'fld(t,%s,%s,%d,%s,%s);' % (cstr(f.name), f.t.cpp(),
                                              0 if f.opt is None else (1 if f.opt == 'OPT' else 2), d,
                                              'true' if f.present else 'false')
        return s + '})'

    def path(self, p):
        out, cur = [], self
        for part in p.split('.'):
            cur = resolve(cur)
            real = [f for f in cur.fields if not f.inserted]
            i = [k for k, f in enumerate(real) if f.name == part][0]
            out.append(i)
            cur = real[i].t
        return '{' + ','.join(map(str, out)) + '}'

    def put(self, e):
        s = ''
        for f in self.fields:
            if f.inserted or f.opt is None:
                continue
            s += '%s.exist.%s = TKI(r)!=0; ' % (e, cid(f.name))
        for f in self.fields:
            if f.inserted:
                continue
            b = f.t.put('%s.%s' % (e, cid(f.name)))
            s += ('if (%s.exist.%s) { %s }\n' % (e, cid(f.name), b)) if f.opt == 'OPT' else b + '\n'
        return s

    def get(self, e):
        s = ''
        for f in self.fields:
            if f.inserted or f.opt is None:
                continue
            s += 'PTI(w,%s.exist.%s?1:0); ' % (e, cid(f.name))
        for f in self.fields:
            if f.inserted:
                continue
            b = f.t.get('%s.%s' % (e, cid(f.name)))
            s += ('if (%s.exist.%s) { %s }\n' % (e, cid(f.name), b)) if f.opt == 'OPT' else b + '\n'
        return s


class Choice(T):
    """alts: F(name, type, present=expr for ACN present-when)"""
    det = None

    def __init__(self, *alts, **kw):
        self.alts = list(alts)
        self.__dict__.update(kw)

    def asn1(self, ind='  '):
        return 'CHOICE {\n%s\n}' % ',\n'.join('  %s %s' % (f.name, f.t.asn1()) for f in self.alts)

    def children_acn(self, ind):
        if not any(f.present or f.t.props() or f.args or f.t.children_acn('') for f in self.alts):
            return ''
        r = []
        for f in self.alts:
            p = f.t.props()
            if f.present:
                p = 'present-when ' + f.present + (', ' + p if p else '')
            r.append('%s%s %s[%s]%s' % (ind, f.name, f.args, p, f.t.children_acn(ind + '  ')))
        return ' {\n%s\n%s}' % (',\n'.join(r), ind[:-2])

    def cpp(self):
        s = self.cpp_base('K_CHOICE')
        for f in self.alts:
            s += 'fld(t,%s,%s,0,0,%s);' % (cstr(f.name), f.t.cpp(), 'true' if f.present else 'false')
        return s + '})'

    def put(self, e):
        s = '{ long long c_ = TKI(r); %s.kind = (int)(c_+1); switch(c_) {' % e
        for i, f in enumerate(self.alts):
            s += 'case %d: %s break;\n' % (i, f.t.put('%s.u.%s' % (e, cid(f.name))))
        return s + 'default: break; } }'

    def get(self, e):
        s = '{ long long c_ = (long long)%s.kind-1; PTI(w,c_); switch(c_) {' % e
        for i, f in enumerate(self.alts):
            s += 'case %d: %s break;\n' % (i, f.t.get('%s.u.%s' % (e, cid(f.name))))
        return s + 'default: break; } }'


class Containing(T):
    """OCTET STRING (CONTAINING X) or BIT STRING (CONTAINING X); a determinant outside holds the size when enc is EXT"""
    def __init__(self, ref, bits=False, args='', lo=0, hi=0, **kw):
        """lo, hi: smallest and largest size of the contained encoding the compiler computes (needed when the size is embedded)"""
        self.ref, self.p1, self.args, self.lo, self.hi = ref, int(bits), args, lo, hi
        self.__dict__.update(kw)

    def asn1(self):
        return '%s STRING (CONTAINING %s)' % ('BIT' if self.p1 else 'OCTET', self.ref.asn1())

    def children_acn(self, ind):
        return ''

    def cpp(self):
        return self.cpp_base('K_CONT') + 't->lo=%d;t->hi=%d;t->elem=%s;})' % (self.lo, self.hi, self.ref.cpp())

    def put(self, e):
        return self.ref.put(e)

    def get(self, e):
        return self.ref.get(e)


REG = {}


def resolve(t):
    while isinstance(t, (Ref, Containing)):
        t = REG[t.name] if isinstance(t, Ref) else t.ref
    return t


class Ref(T):
    def __init__(self, name, args='', **kw):
        self.name, self.args = name, args
        self.__dict__.update(kw)

    def asn1(self, *a):
        return self.name

    def cpp(self):
        # a reference may override the alignment / encoding of the definition
        o = ''
        if self.align:
            o += 't->align=%d;' % self.align
        if self.enc != 'DEF':
            o += 't->enc=E_%s;t->p1=%d;t->p2=%d;' % (self.enc, self.p1, self.p2)
        return 'ref("%s",[](T*t){%s})' % (self.name, o)

    def put(self, e):
        return 'put_%s(%s%s,r);' % (cid(self.name), '' if isinstance(resolve(self), Str) else '&', e)

    def get(self, e):
        return 'get_%s(%s%s,w);' % (cid(self.name), '' if isinstance(resolve(self), Str) else '&', e)


class Model:
    """name, module, ordered list of (typename, T[, params]) ; pdus = names exchanged as messages"""
    def __init__(self, name, module, types, pdus, acn_header=''):
        self.name, self.module, self.types, self.pdus = name, module, types, pdus
        self.acn_header = acn_header
        for t in types:
            REG[t[0]] = t[1]

    def asn1(self):
        return '%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n\n%s\nEND\n' % (
            self.module, '\n'.join('%s ::= %s\n' % (t[0], t[1].asn1()) for t in self.types))

    def acn(self):
        r = []
        for t in self.types:
            r.append('%s%s [%s]%s\n' % (t[0], t[2] if len(t) > 2 else '', t[1].props(), t[1].children_acn('  ')))
        return '%s DEFINITIONS ::= BEGIN\n\n%s%s\nEND\n' % (self.module, self.acn_header, '\n'.join(r))

    def files(self, acn=False):
        d = {self.module + '.asn1': self.asn1()}
        if acn:
            d[self.module + '.acn'] = self.acn()
        return d

    def glue_c(self, kind):
        """kind: uper | acn | xer"""
        inf = {'uper': '', 'acn': 'ACN_', 'xer': 'XER_'}[kind]
        s = '#include "glue.h"\n#include "%s.h"\n' % self.module
        for t in self.types:
            n, ty = cid(t[0]), t[1]
            prm = 'char* p' if isinstance(ty, Str) else '%s* p' % n
            s += 'static void put_%s(%s, Tok* r); static void get_%s(%s, Tok* w);\n' % (
                n, prm, n, prm.replace('char*', 'const char*') if isinstance(ty, Str) else 'const ' + prm)
        for t in self.types:
            n, ty = cid(t[0]), t[1]
            isS = isinstance(ty, Str)
            prm = 'char* p' if isS else '%s* p' % n
            e = 'p' if isS else '(*p)'
            s += 'static void put_%s(%s, Tok* r) { (void)p;(void)r; %s }\n' % (n, prm, ty.put(e))
            s += 'static void get_%s(const %s, Tok* w) { (void)p;(void)w; %s }\n' % (n, prm, ty.get(e))
        stream = 'ByteStream' if kind == 'xer' else 'BitStream'
        for p in self.pdus:
            n = cid(p)
            # expand the character-string typedef (an array type) through its element pointer
            isS = isinstance(REG[p], Str)
            cp, vp = ('(const char*)', '(char*)') if isS else ('(const %s*)' % n, '(%s*)' % n)
            s += 'static int enc_%s(const void*p,void*s,int*e,int c){return %s_%sEncode(%sp,(%s*)s,e,c!=0);}\n' % (
                n, n, inf, cp, stream)
            s += 'static int dec_%s(void*p,void*s,int*e){return %s_%sDecode(%sp,(%s*)s,e);}\n' % (n, n, inf, vp, stream)
            if isinstance(REG[p], Null):     # a NULL has no constraints to check
                s += 'static int val_%s(const void*p,int*e){(void)p;*e=0;return 1;}\n' % n
            else:
                s += 'static int val_%s(const void*p,int*e){return %s_IsConstraintValid(%sp,e);}\n' % (n, n, cp)
            s += 'static int eq_%s(const void*a,const void*b){return %s_Equal(%sa,%sb);}\n' % (n, n, cp, cp)
            s += 'static void ini_%s(void*p){%s_Initialize(%sp);}\n' % (n, n, vp)
            s += 'static void vput_%s(void*p,Tok*r){put_%s(%sp,r);}\n' % (n, n, vp)
            s += 'static void vget_%s(const void*p,Tok*w){get_%s(%sp,w);}\n' % (n, n, cp)
        s += 'static const Pdu pdus[] = {\n'
        for p in self.pdus:
            n = cid(p)
            req = '%s_REQUIRED_BYTES_FOR_%sENCODING' % (n, inf)
            s += '{"%s",sizeof(%s),%s,enc_%s,dec_%s,val_%s,eq_%s,ini_%s,vput_%s,vget_%s},\n' % (
                p, n, req, n, n, n, n, n, n, n)
        s += '};\nEXPORT_NODE(pdus, sizeof(pdus)/sizeof(pdus[0]))\n'
        return s

    def desc_cpp(self):
        s = 'static void model_%s(Model*m){ m->name="%s"; cur=m;\n' % (self.name, self.name)
        for t in self.types:
            s += ' def("%s", %s);\n' % (t[0], t[1].cpp())
        for p in self.pdus:
            s += ' m->pdus.push_back("%s");\n' % p
        return s + '}\n'
