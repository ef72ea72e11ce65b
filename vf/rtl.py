"""Nodes whose messages are encoded and decoded by calling the run-time library of /repo/asn1crt directly.  The library is
an interface of its own (its functions take the place of generated code in user programs, and the compiler picks only
some of them for any one specification), so what the specifications of the other nodes do not reach is exercised here."""
from .dsl import *
from .models import A, M64, UP

W8 = 8


def _lit(v):
    if v < 0:
        return '((asn1SccSint)%dLL)' % v if v > -2**63 else '((asn1SccSint)(-9223372036854775807LL-1))'
    return '((asn1SccUint)%dULL)' % v


class P:
    def __init__(self, name, t, enc, dec, bits, pre=''):
        self.name, self.t, self.enc, self.dec, self.bits, self.pre = name, t, enc, dec, bits, pre


def ctype(t, ws):
    if isinstance(t, Int):
        return getattr(t, 'cty', None) or ('asn1SccUint' if t.unsigned() else 'asn1SccSint')
    if isinstance(t, Bool):
        return 'flag'
    if isinstance(t, Null):
        return 'byte'
    if isinstance(t, Real):
        return getattr(t, 'cty', 'asn1Real')
    if isinstance(t, Octets):
        return 'struct { %sbyte arr[%d]; }' % ('' if t.fixed() else 'int nCount; ', max(t.hi, 1))
    if isinstance(t, Bits):
        return 'struct { %sbyte arr[%d]; }' % ('' if t.fixed() else 'int nCount; ', (t.hi + 7) // 8)
    raise TypeError(t)


def valid_c(t, e):
    r = []
    if isinstance(t, Int):
        if t.lo is not None and not (t.unsigned() and t.lo == 0):
            r.append('%s >= %s' % (e, _lit(t.lo) if t.unsigned() or t.lo < 0 else '(asn1SccSint)%dLL' % t.lo))
        if t.hi is not None and t.hi != M64:
            # compare in the signedness of the member
            r.append('%s <= %s' % (e, _lit(t.hi) if t.unsigned() else '(asn1SccSint)%dLL' % t.hi))
        if isinstance(getattr(t, 'cty', None), str):
            r = ['(asn1Scc%s)%s' % ('Uint' if t.unsigned() else 'Sint', x) for x in r]
    elif isinstance(t, (Octets, Bits)) and not t.fixed():
        r.append('%s.nCount >= %d && %s.nCount <= %d' % (e, t.lo, e, t.hi))
    elif isinstance(t, Str):
        r.append('strnlen(%s,%d) >= %d && strnlen(%s,%d) <= %d' % (e, t.hi + 1, t.lo, e, t.hi + 1, t.hi))
        if t.alphabet:
            r.append('strspn(%s, "%s") == strnlen(%s,%d)' % (e, t.alphabet, e, t.hi + 1))
        else:
            r.append('ascii_only(%s,%d)' % (e, t.hi))
    elif isinstance(t, Seq):
        for f in t.fields:
            if not f.inserted:
                r.append(valid_c(f.t, '%s.%s' % (e, cid(f.name))))
    return ' && '.join(x for x in r if x != '1') or '1'


def eq_c(t, a, b):
    if isinstance(t, Null):
        return '1'
    if isinstance(t, Octets):
        n = (str(t.hi),) * 2 if t.fixed() else ('%s.nCount' % a, '%s.nCount' % b)
        return 'OctetString_equal(%s,%s,%s.arr,%s.arr)' % (n[0], n[1], a, b)
    if isinstance(t, Bits):
        n = (str(t.hi),) * 2 if t.fixed() else ('%s.nCount' % a, '%s.nCount' % b)
        return 'BitString_equal(%s,%s,%s.arr,%s.arr)' % (n[0], n[1], a, b)
    if isinstance(t, Str):
        return 'strcmp(%s,%s)==0' % (a, b)
    if isinstance(t, Seq):
        return ' && '.join(eq_c(f.t, '%s.%s' % (a, cid(f.name)), '%s.%s' % (b, cid(f.name))) for f in t.fields if not f.inserted)
    if isinstance(t, Bool):
        return '(!!%s)==(!!%s)' % (a, b)
    return '%s==%s' % (a, b)


def pats(s):
    return '(const byte[]){' + ','.join('0x%02X' % b for b in s) + '}'


def pdus(ws):
    w = 8 * ws                       # bits of a word
    UMAX = 2**w - 1
    SMAX, SMIN = 2**(w - 1) - 1, -2**(w - 1)
    r = []

    def add(name, t, enc, dec, bits, pre=''):
        r.append(P('L-' + name, t, enc, dec, bits, pre))

    # ---- octet and bit strings with their own size fields, up to and beyond the fragmentation threshold
    for n, lo, hi in (('OctF', 5, 5), ('OctV', 2, 37), ('OctW', 0, 65535), ('OctX', 0, 65536), ('OctY', 1, 140000)):
        heavy = 'Frag' if hi > 1000 else ''
        t = Octets(lo, hi)
        cnt = str(lo) if lo == hi else 'p->nCount'
        dec = 'int n_ = 0; ret = BitStream_DecodeOctetString(s, p->arr, &n_, %d, %d);%s' % (lo, hi, '' if lo == hi else ' p->nCount = n_;')
        r.append(P((heavy or 'L-') + n, t, 'BitStream_EncodeOctetString(s, p->arr, %s, %d, %d)' % (cnt, lo, hi), dec, hi * 8 + 64))
    for n, lo, hi in (('BitF', 11, 11), ('BitV', 3, 61), ('BitW', 0, 65535), ('BitX', 0, 65536), ('BitY', 1, 140000)):
        heavy = 'Frag' if hi > 1000 else ''
        t = Bits(lo, hi)
        cnt = str(lo) if lo == hi else 'p->nCount'
        dec = 'int n_ = 0; ret = BitStream_DecodeBitString(s, p->arr, &n_, %d, %d);%s' % (lo, hi, '' if lo == hi else ' p->nCount = n_;')
        r.append(P((heavy or 'L-') + n, t, 'BitStream_EncodeBitString(s, p->arr, %s, %d, %d)' % (cnt, lo, hi), dec, hi + 80))
    add('Bytes', Octets(19), 'BitStream_AppendByteArray(s, p->arr, 19)', 'ret = BitStream_ReadByteArray(s, p->arr, 19);', 152)
    add('Frag0', Octets(0, 90).with_(p2=77), 'BitStream_EncodeOctetString_fragmentation(s, p->arr, p->nCount)',
        'int n_ = 0; ret = BitStream_DecodeOctetString_fragmentation(s, p->arr, &n_, 90); p->nCount = n_;', 90 * 8 + 16)
    add('Bits', Bits(29), '(BitStream_AppendBits(s, p->arr, 29), 1)', 'ret = BitStream_ReadBits(s, p->arr, 29);', 29)

    # ---- single bits, runs of bits, partial bytes
    add('One', Bool(), '((p_ ? BitStream_AppendBitOne(s) : BitStream_AppendBitZero(s)), 1)'.replace('p_', '*p'),
        'flag k_ = 0;\n#ifndef ASN1SCC_STREAMING\n if (s->currentByte < s->count) { k_ = BitStream_PeekBit(s); flag b_; ret = BitStream_ReadBit(s, &b_); *p = b_; if (ret && (!!b_) != (!!k_)) ret = FALSE; } else ret = FALSE;\n#else\n ret = BitStream_ReadBit(s, &k_); *p = k_;\n#endif\n', 1)
    for k, (z, o) in enumerate(((3, 9), (17, 1), (8, 8), (0, 23), (31, 0))):
        t = A(Null(), 'NULLP', pat='0' * z + '1' * o)
        add('Run%d' % k, t, '(BitStream_AppendNBitZero(s, %d), BitStream_AppendNBitOne(s, %d), 1)' % (z, o),
            'ret = BitStream_ReadBitPattern_ignore_value(s, %d); *p = 0;' % (z + o), z + o)
    for k, pt in enumerate(('10110', '1100110011110000', '010101010101010101010')):
        b = [int(pt[i:i + 8].ljust(8, '0'), 2) for i in range(0, len(pt), 8)]
        t = A(Null(), 'NULLP', pat=pt)
        t.exact = True
        add('Pat%d' % k, t, '(BitStream_AppendBits(s, %s, %d), 1)' % (pats(b), len(pt)),
            '*p = 0;\n#ifndef ASN1SCC_STREAMING\n int c_ = BitStream_checkBitPatternPresent(s, %s, %d); ret = c_ == 2; if (c_ == 1) { /* not consumed: skipped as a don\'t-care */ ret = BitStream_ReadBitPattern_ignore_value(s, %d); }\n#else\n ret = BitStream_ReadBitPattern_ignore_value(s, %d);\n#endif\n' % (pats(b), len(pt), len(pt), len(pt)), len(pt))
    for n in (1, 4, 7):
        add('Par%d' % n, A(Int(0, 2**n - 1), 'POS', n), '(BitStream_AppendPartialByte(s, (byte)*p, %d, FALSE), 1)' % n,
            'byte b_ = 0; ret = BitStream_ReadPartialByte(s, &b_, %d); *p = b_;' % n, n)
    add('ParN', A(Int(0, 31), 'POS', 5), '(BitStream_AppendPartialByte(s, (byte)(~*p & 31), 5, TRUE), 1)', 'byte b_ = 0; ret = BitStream_ReadPartialByte(s, &b_, 5); *p = b_;', 5)
    add('Byt', A(Int(0, 255), 'POS', 8), '(BitStream_AppendByte(s, (byte)*p, FALSE), 1)', 'byte b_ = 0; ret = BitStream_ReadByte(s, &b_); *p = b_;', 8)
    add('BytN', A(Int(0, 255), 'POS', 8), '(BitStream_AppendByte(s, (byte)(255 - *p), TRUE), 1)', 'byte b_ = 0; ret = BitStream_ReadByte(s, &b_); *p = b_;', 8)
    for n in (9, 16, 29, 32) + ((33, 57, 64) if ws == 8 else ()):
        add('Nn%d' % n, A(Int(0, 2**n - 1), 'POS', n),
            '(BitStream_AppendNBitZero(s, %d - GetNumberOfBitsForNonNegativeInteger(*p)), BitStream_EncodeNonNegativeInteger(s, *p), 1)' % n,
            'asn1SccUint v_ = 0; ret = BitStream_DecodeNonNegativeInteger(s, &v_, %d); *p = v_;' % n, n)
    for n in (13, 32) + ((64, 47) if ws == 8 else ()):
        add('Ng%d' % n, A(Int(0, 2**n - 1), 'POS', n),
            'neg_(s, *p, %d)' % n, 'asn1SccUint v_ = 0; ret = BitStream_DecodeNonNegativeInteger(s, &v_, %d); *p = v_;' % n, n)
    add('Len', A(Int(0, 2**11 - 1), 'POS', 11), '(Acn_Enc_Length(s, *p, 11), 1)', 'asn1SccUint v_ = 0; ret = Acn_Dec_Length(s, &v_, 11); *p = v_;', 11)
    # ---- reals
    tr = Real(p1=32)
    tr.cty = 'float'
    add('Fp', tr, '(BitStream_EncodeReal(s, *p), 1)', 'float f_ = 0; ret = BitStream_DecodeReal_fp32(s, &f_); *p = f_;', 13 * 8)
    # ---- whole numbers into narrow variables
    for ty, b, s in (('Int8', 8, 1), ('Int16', 16, 1), ('Int32', 32, 1), ('UInt8', 8, 0), ('UInt16', 16, 0), ('UInt32', 32, 0)):
        c = ty.lower() + '_t'
        for k, (lo, hi) in enumerate([(-2**(b - 1), 2**(b - 1) - 1), (-17, 90), (5, 100)] if s else [(0, 2**b - 1), (3, 200), (7, 7 + 2**(b - 1))]):
            t = Int(lo, hi)
            t.cty = c
            kind = '' if s else 'Pos'
            if s and lo >= 0:
                t.unsigned = lambda: False
            add('W%s%d' % (ty, k), t, '(BitStream_EncodeConstraint%sWholeNumber(s, *p, %d, %d), 1)' % (kind, lo, hi),
                'ret = BitStream_DecodeConstraint%sWholeNumber%s(s, p, %d, %d);' % (kind, ty, lo, hi), b)

    # ---- ACN integers
    def acn(name, t, encf, decf, bits, extra='', cty=None):
        if cty:
            t.cty = cty
        uns = t.unsigned()
        decl = '' if cty else 'asn1Scc%s v_ = 0; ' % ('Uint' if uns else 'Sint')
        add(name, t, '(%s(s, *p%s), 1)' % (encf, extra), '%sret = %s(s, %s%s);%s' % (decl, decf, 'p' if cty else '&v_', extra, '' if cty else ' if (ret) *p = v_;'), bits)

    nar = (('UInt8', 8, 'uint8_t'), ('UInt16', 16, 'uint16_t'), ('UInt32', 32, 'uint32_t'))
    snar = (('Int8', 8, 'int8_t'), ('Int16', 16, 'int16_t'), ('Int32', 32, 'int32_t'))
    PI, TC = 'Int_PositiveInteger_', 'Int_TwosComplement_'
    for ty, b, c in nar:
        n = b - 3
        acn('PC' + ty, A(Int(0, 2**n - 1), 'POS', n), 'Acn_Enc_' + PI + 'ConstSize', 'Acn_Dec_' + PI + 'ConstSize' + ty, n, ', %d' % n, c)
    acn('P8n', A(Int(0, 255), 'POS', 8), 'Acn_Enc_' + PI + 'ConstSize_8', 'Acn_Dec_' + PI + 'ConstSize_8UInt8', 8, '', 'uint8_t')
    acn('T8n', A(Int(-128, 127), 'TWO', 8), 'Acn_Enc_' + TC + 'ConstSize_8', 'Acn_Dec_' + TC + 'ConstSize_8Int8', 8, '', 'int8_t')
    for ty, b, c in snar:
        n = b - 3
        acn('TC' + ty, A(Int(-2**(n - 1), 2**(n - 1) - 1), 'TWO', n), 'Acn_Enc_' + TC + 'ConstSize', 'Acn_Dec_' + TC + 'ConstSize' + ty, n, ', %d' % n, c)
    for end, lit_ in (('big', 0), ('little', 1)):
        for sz in (16, 32, 64):
            if sz == 64 and ws == 4:
                continue
            for ty, b, c in nar:
                if b <= sz:
                    acn('P%s%d%s' % (end[0], sz, ty), A(Int(0, 2**b - 1), 'POS', sz, lit_), 'Acn_Enc_%sConstSize_%s_endian_%d' % (PI, end, sz), 'Acn_Dec_%sConstSize_%s_endian_%d%s' % (PI, end, sz, ty), sz, '', c)
            for ty, b, c in snar:
                if b <= sz:
                    acn('T%s%d%s' % (end[0], sz, ty), A(Int(-2**(b - 1), 2**(b - 1) - 1), 'TWO', sz, lit_), 'Acn_Enc_%sConstSize_%s_endian_%d' % (TC, end, sz), 'Acn_Dec_%sConstSize_%s_endian_%d%s' % (TC, end, sz, ty), sz, '', c)
    wide = (('', w, None),)
    for ty, b, c in nar + wide:
        acn('PL' + ty, A(Int(0, 2**b - 1), 'POSLE', ws), 'Acn_Enc_' + PI + 'VarSize_LengthEmbedded', 'Acn_Dec_' + PI + 'VarSize_LengthEmbedded' + ty, 8 + w, '', c)
        acn('BL' + ty, A(Int(0, 2**b - 1), 'BCDLE', ws), 'Acn_Enc_Int_BCD_VarSize_LengthEmbedded', 'Acn_Dec_Int_BCD_VarSize_LengthEmbedded' + ty, 8 + 80, '', c)
        acn('BN' + ty, A(Int(0, 2**b - 1), 'BCDNT', ws), 'Acn_Enc_Int_BCD_VarSize_NullTerminated', 'Acn_Dec_Int_BCD_VarSize_NullTerminated' + ty, 84, '', c)
        dg = len(str(2**b - 1)) - 1
        acn('BC' + ty, A(Int(0, 10**dg - 1), 'BCD', dg), 'Acn_Enc_Int_BCD_ConstSize', 'Acn_Dec_Int_BCD_ConstSize' + ty, 4 * dg, ', %d' % dg, c)
        acn('UC' + ty, A(Int(0, 10**dg - 1), 'ASC', dg), 'Acn_Enc_UInt_ASCII_ConstSize', 'Acn_Dec_UInt_ASCII_ConstSize' + ty, 8 * dg, ', %d' % dg, c)
        acn('UL' + ty, A(Int(0, 2**b - 1), 'ASCLE', ws), 'Acn_Enc_UInt_ASCII_VarSize_LengthEmbedded', 'Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded' + ty, 8 * 21, '', c)
        acn('UN' + ty, A(Int(0, 2**b - 1), 'ASCNT', ws, pat='00001101'), 'Acn_Enc_UInt_ASCII_VarSize_NullTerminated', 'Acn_Dec_UInt_ASCII_VarSize_NullTerminated' + ty, 8 * 21, ', %s, 1' % pats([13]), c)
    for ty, b, c in snar + wide:
        lo, hi = -2**(b - 1) + 1, 2**(b - 1) - 1
        acn('TL' + ty, A(Int(lo - 1, hi), 'TWOLE', ws), 'Acn_Enc_' + TC + 'VarSize_LengthEmbedded', 'Acn_Dec_' + TC + 'VarSize_LengthEmbedded' + ty, 8 + w, '', c)
        dg = len(str(hi)) - 1
        acn('SC' + ty, A(Int(-(10**dg - 1), 10**dg - 1), 'ASC', dg + 1), 'Acn_Enc_SInt_ASCII_ConstSize', 'Acn_Dec_SInt_ASCII_ConstSize' + ty, 8 * dg + 8, ', %d' % (dg + 1), c)
        acn('SL' + ty, A(Int(lo, hi), 'ASCLE', ws), 'Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded', 'Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded' + ty, 8 * 22, '', c)
        acn('SN' + ty, A(Int(lo, hi), 'ASCNT', ws, pat='0000110100001010'), 'Acn_Enc_SInt_ASCII_VarSize_NullTerminated', 'Acn_Dec_SInt_ASCII_VarSize_NullTerminated' + ty, 8 * 24, ', %s, 2' % pats([13, 10]), c)

    # ---- strings
    al = 'BDFGHX'
    als = '(byte[]){' + ','.join(str(ord(x)) for x in al) + '}, 6'
    S = lambda **k: Str(1, 14, **k)
    add('SIdx', S(alphabet=al), '(Acn_Enc_String_CharIndex_Internal_Field_Determinant(s, 14, %s, 1, p), 1)' % als,
        'ret = Acn_Dec_String_CharIndex_Internal_Field_Determinant(s, 14, %s, 1, p);' % als, 4 + 14 * 3)
    add('SIa5', S(), '(Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant(s, 14, 1, p), 1)', 'ret = Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(s, 14, 1, p);', 4 + 14 * 7)
    add('SFix', Str(6, alphabet=al), '(Acn_Enc_String_CharIndex_FixSize(s, 6, %s, p), 1)' % als, 'ret = Acn_Dec_String_CharIndex_FixSize(s, 6, %s, p);' % als, 18)

    def ext(name, st, encf, decf, pos, bits):
        t = Seq(I('len', A(Int(0, 15), 'POS', 4), ('len', 's'), 'INTEGER'), F('s', st))
        add(name, t, '(Acn_Enc_Length(s, strnlen(p->s, 14), 4), %s(s, 14%s, p->s), 1)' % (encf, pos),
            'asn1SccUint v_ = 0; ret = Acn_Dec_Length(s, &v_, 4); if (ret && v_ > 14) ret = FALSE; if (ret) ret = %s(s, 14%s, (asn1SccSint)v_, p->s);' % (decf, pos), bits)
    ext('SExI', A(Str(0, 14, alphabet=al), 'EXT'), 'Acn_Enc_String_CharIndex_External_Field_Determinant', 'Acn_Dec_String_CharIndex_External_Field_Determinant', ', ' + als, 4 + 42)
    ext('SExA', A(Str(0, 14), 'EXT'), 'Acn_Enc_IA5String_CharIndex_External_Field_Determinant', 'Acn_Dec_IA5String_CharIndex_External_Field_Determinant', '', 4 + 98)
    ext('SEx8', A(Str(0, 14), 'EXT8'), 'Acn_Enc_String_Ascii_External_Field_Determinant', 'Acn_Dec_String_Ascii_External_Field_Determinant', '', 4 + 112)
    return r


HELP = '''
static inline int ascii_only(const char* p, int n) { int i; for (i = 0; i < n && p[i]; i++) if ((unsigned char)p[i] > 127) return 0; return 1; }
/* v is written as the complement of the complement, in n bits */
static inline int neg_(BitStream* s, asn1SccUint v, int n) {
    asn1SccUint m = n == (int)(8 * sizeof(asn1SccUint)) ? ~(asn1SccUint)0 : (((asn1SccUint)1 << n) - 1);
    asn1SccUint c = ~v & m;
    BitStream_AppendNBitOne(s, n - GetNumberOfBitsForNonNegativeInteger(c));
    BitStream_EncodeNonNegativeIntegerNeg(s, c, TRUE);
    return 1;
}
'''


DETS = [('U8', 8, 0), ('U16_BE', 16, 0), ('U32_BE', 32, 0), ('U64_BE', 64, 0), ('U16_LE', 16, 1), ('U32_LE', 32, 1), ('U64_LE', 64, 1),
        ('I8', 8, 2), ('I16_BE', 16, 2), ('I32_BE', 32, 2), ('I64_BE', 64, 2), ('BOOL1', 1, 0)]


def dets_c(ws):
    """reserve/patch/measure operations of the deferred determinants, for the simulator (property D01)"""
    ds = [d for d in DETS if d[1] <= 8 * ws]
    s = 'size_t vf_detsize(void) { return sizeof(AcnInsertedFieldRef); }\n'
    s += 'typedef struct { const char* name; int bits, form; } DetKind;\nconst DetKind vf_detkinds[] = {%s,{"ConstSize",0,0},{"TwosComplement_ConstSize",0,2},{"IA5String_FixSize",0,3},{0,0,0}};\n' % (
        ','.join('{"%s",%d,%d}' % d for d in ds))
    s += 'int vf_det(int kind, int patch, unsigned long long v, const char* str, int n, void* strm, void* ref, int* err) { BitStream* s = strm; AcnInsertedFieldRef* r = ref; (void)n; (void)str; switch (kind) {\n'
    for i, d in enumerate(ds):
        s += 'case %d: if (patch) return Acn_PatchDet_%s((asn1SccUint)v, s, r, err); Acn_InitDet_%s(s, r); return 1;\n' % (i, d[0], d[0])
    for j, d in enumerate(('ConstSize', 'TwosComplement_ConstSize')):
        s += 'case %d: if (patch) return Acn_PatchDet_%s((asn1SccUint)v, s, n, r, err); Acn_InitDet_%s(s, n, r); return 1;\n' % (len(ds) + j, d, d)
    s += 'case %d: if (patch) return Acn_PatchDet_IA5String_FixSize(str, s, n, r, err); Acn_InitDet_IA5String_FixSize(s, n, r); return 1;\n' % (len(ds) + 2)
    s += 'default: return -1; } }\n'
    s += 'void vf_dist(long b1, int i1, long b2, int i2, unsigned long long* by, unsigned long long* bi) { AcnBitStreamPos a = {b1, i1}, b = {b2, i2}; *by = Acn_BitStream_DistanceInBytes(a, b); *bi = Acn_BitStream_DistanceInBits(a, b); }\n'
    return s


def model(ws=8):
    ps = pdus(ws)
    m = Model('rtl' if ws == 8 else 'rtl4', 'RTM', [(p.name, p.t) for p in ps], [p.name for p in ps])
    h = ['#ifndef RTM_H\n#define RTM_H\n#include "asn1crt.h"\n#include "asn1crt_encoding.h"\n#include "asn1crt_encoding_acn.h"\n#include <string.h>']
    c = ['#include "RTM.h"', HELP]
    for p in ps:
        n, t = cid(p.name), p.t
        isS = isinstance(t, Str)
        if isS:
            h.append('typedef char %s[%d];' % (n, t.hi + 1))
        elif isinstance(t, Seq):
            h.append('typedef struct { %s } %s;' % (' '.join('char %s[%d];' % (cid(f.name), f.t.hi + 1) for f in t.fields if not f.inserted), n))
        else:
            h.append('typedef %s %s;' % (ctype(t, ws), n))
        q = 'char* p' if isS else '%s* p' % n
        qc = 'const ' + q
        h.append('#define %s_REQUIRED_BYTES_FOR_ENCODING %d\n#define %s_REQUIRED_BYTES_FOR_ACN_ENCODING %d' % (n, (p.bits + 7) // 8, n, (p.bits + 7) // 8))
        h.append('flag %s_IsConstraintValid(%s, int* e);\nflag %s_ACN_Encode(%s, BitStream* s, int* e, flag chk);\nflag %s_ACN_Decode(%s, BitStream* s, int* e);' % (n, qc, n, qc, n, q))
        h.append('flag %s_Equal(%s, %s);\nvoid %s_Initialize(%s);' % (n, qc.replace('* p', '* a'), qc.replace('* p', '* b'), n, q))
        e = 'p' if isS else '(*p)'
        c.append('flag %s_IsConstraintValid(%s, int* e) { *e = 0; (void)p; if (!(%s)) { *e = 701; return FALSE; } return TRUE; }' % (n, qc, valid_c(t, e)))
        c.append('flag %s_ACN_Encode(%s, BitStream* s, int* e, flag chk) { flag ret; *e = 0; (void)p; if (chk && !%s_IsConstraintValid(p, e)) return FALSE; ret = (flag)(%s); if (!ret) *e = 702; return ret; }' % (n, qc, n, p.enc))
        c.append('flag %s_ACN_Decode(%s, BitStream* s, int* e) { flag ret = TRUE; *e = 0; %s\n if (!ret) { *e = 703; return FALSE; } return %s_IsConstraintValid(p, e); }' % (n, q, p.dec, n))
        c.append('flag %s_Equal(%s, %s) { return (flag)(%s); }' % (n, qc.replace('* p', '* a'), qc.replace('* p', '* b'), eq_c(t, 'a' if isS else '(*a)', 'b' if isS else '(*b)')))
        c.append('void %s_Initialize(%s) { memset(p, 0, %s); }' % (n, q, str(t.hi + 1) if isS else 'sizeof(%s)' % n))
    c.append(dets_c(ws))
    h.append('#endif')
    m.direct = {'RTM.h': '\n'.join(h) + '\n', 'RTM.c': '\n'.join(c) + '\n'}
    return m
