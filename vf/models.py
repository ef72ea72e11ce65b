"""The specifications the simulated nodes are generated from."""
from .dsl import *

M64 = 2**64 - 1
UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def R(n, args=''):
    return Ref(n, args)


def uper_model():
    ty = [
        ('U8', Int(0, 255)), ('I5', Int(-7, 23)), ('U1', Int(5, 5)), ('I32', Int(-2147483648, 2147483647)),
        ('U32', Int(0, 4294967295)), ('I17', Int(-70000, 60001)),
        ('U24', Int(1, 9000000)),
        ('Big', Int()), ('Semi', Int(10, None)), ('SemiN', Int(-300, None)), ('UpTo', Int(None, 100)),
        ('Flg', Bool()), ('Rl', Real()), ('RlC', Real(-10.0, 10.5)),
        ('Col', Enum([('red', 2), ('green', 5), ('blue', 900)])),
        ('Wide', Enum([('w%d' % i, v) for i, v in enumerate(
            [-1000, -7, -1, 0, 1, 3, 4, 8, 9, 17, 40, 41, 42, 99, 255, 256, 300, 65535, 65536, 100000])])),
        ('Jmb', Enum([('jj-1', 50), ('jj-2', 3), ('jj-3', -4), ('jj-4', 51), ('jj-5', 7)])), ('SoJmb', SeqOf(R('Jmb'), 0, 6)),
        ('OctF', Octets(7)), ('OctV', Octets(0, 40)), ('OctBig', Octets(0, 300)), ('Oct1', Octets(1, 2)),
        ('BitF', Bits(13)), ('BitV', Bits(1, 50)), ('BitB', Bits(0, 200)),
        ('StrV', Str(0, 20)), ('StrA', Str(5, alphabet=UP, frm='"A".."Z"')),
        ('StrQ', Str(1, 9, alphabet='<"\\\'', frm='"<" | """" | "\\" | "\'"')),
        ('StrR', Str(0, 12, alphabet='!"Z[\\\'(', frm='"!".."""" | "Z".."\\" | "\'".."("')),
        ('StrS', Str(2, 7, alphabet='<>&"\';\\-', frm='"<>&""\';\\-"')),
        ('StrN', Str(1, 9, base='NumericString', alphabet=' 0123456789')),
        ('Oid', Oid()), ('ROid', Oid(relative=True)), ('Nul', Null()),
        ('SoInt', SeqOf(Int(0, 1000), 0, 12)), ('SoFix', SeqOf(Bool(), 9)),
        ('Pt', Seq(F('px', Int(-5, 5)), F('py', R('Big'), 'OPT'))),
        ('SoPt', SeqOf(R('Pt'), 0, 5)), ('SoSo', SeqOf(R('SoInt'), 1, 3)),
        ('Chc', Choice(F('c-a', Int(0, 3)), F('c-b', Bool()), F('c-c', R('OctV')), F('c-d', R('StrV')), F('c-e', R('Rl')),
                       F('c-f', R('Pt')), F('c-g', R('Nul')))),
        ('Chc2', Choice(F('d-a', R('Chc')), F('d-b', R('SoPt')))),
        ('Rec', Seq(F('f-b', R('Flg')), F('f-i1', R('I5')), F('f-big', R('Big'), 'OPT'), F('f-semi', R('Semi')),
                    F('f-col', R('Col'), 'green'), F('f-ofx', R('OctF')), F('f-ov', R('OctV')),
                    F('f-bf', R('BitF'), 'OPT'), F('f-bv', R('BitV')), F('f-s', R('StrV')), F('f-sa', R('StrA')),
                    F('f-ch', R('Chc')), F('f-so', R('SoInt')), F('f-r', R('Rl')), F('f-sn', R('StrN'), 'OPT'),
                    F('f-u24', R('U24'), 77))),
        ('Nums', Seq(F('n-a', R('I32')), F('n-b', R('U32')), F('n-c', R('I17')), F('n-d', R('SemiN')), F('n-e', R('UpTo')),
                     F('n-f', R('U1')), F('n-g', R('Wide')), F('n-h', R('RlC')), F('n-i', R('U8')),
                     F('n-o', R('Oid')), F('n-p', R('ROid'), 'OPT'), F('n-q', R('Oct1')))),
        ('Mix', Seq(F('m-a', R('Chc2')), F('m-b', R('SoSo')), F('m-c', R('SoFix')), F('m-d', R('OctBig'), 'OPT'),
                    F('m-e', R('BitB')), F('m-g', R('SoJmb')),
                     F('m-f', Seq(F('k-a', Bool()), F('k-b', Int(0, 70), 'OPT')), 'OPT'))),
        ('Log', SeqOf(R('Rec'), 0, 4)),
        ('CnQ', Seq(F('a', Int(0, 7)), F('b', R('Flg')), F('c', R('U32'), 'OPT'))),
        ('CnF', Seq(F('a', Int(0, 7)), F('b', R('U8')))),
        ('CnO', Seq(F('p', Int(0, 7)), F('c', Containing(R('CnQ'), lo=1, hi=5)), F('t', Int(0, 31)))),
        ('CnB', Seq(F('p', Int(0, 7)), F('c', Containing(R('CnQ'), bits=True, lo=5, hi=37)), F('t', Int(0, 31)))),
        ('CnX', Seq(F('p', Int(0, 7)), F('c', Containing(R('CnF'), lo=2, hi=2)), F('d', Containing(R('CnF'), bits=True, lo=11, hi=11), 'OPT'), F('t', Int(0, 31)))),
        ('CnN', Seq(F('p', Int(0, 7)), F('c', Containing(R('CnO'), lo=3, hi=7)), F('d', SeqOf(R('CnB'), 0, 3)))),
        ('CnV', Seq(F('p', Int(0, 7)), F('c', Containing(R('OctBig'), lo=2, hi=302), 'OPT'), F('d', Containing(R('Chc'), bits=True, lo=3, hi=329)))),
        ('FragO', Seq(F('g-x', Bool()), F('g-o', Octets(1, 70000)), F('g-z', Int(0, 7)))),
        ('FragB', Seq(F('h-x', Bool()), F('h-o', Bits(1, 140000)), F('h-z', Int(0, 7)))),
        ('FragQ', Seq(F('q-x', Bool()), F('q-o', SeqOf(Int(0, 3), 1, 68000)), F('q-z', Int(0, 7)))),
    ]
    return Model('uper', 'UPM', ty, [t[0] for t in ty])


def xer_model():
    ty = [
        ('XU8', Int(0, 255)), ('XI5', Int(-7, 23)), ('XBig', Int()), ('XSemi', Int(10, None)),
        ('XFlg', Bool()), ('XRl', Real()),
        ('XCol', Enum([('xred', 2), ('xgreen', 5), ('xblue', 900)])),
        ('XOctF', Octets(7)), ('XOctV', Octets(0, 40)),
        ('XBitF', Bits(13)), ('XBitV', Bits(1, 50)),
        ('XStrA', Str(5, alphabet=UP, frm='"A".."Z"')), ('XStrV', Str(0, 20, alphabet=UP + UP.lower() + '0123456789',
                                                           frm='"A".."Z"|"a".."z"|"0".."9"')),
        ('XOid', Oid()), ('XNul', Null()),
        ('XSoInt', SeqOf(Int(0, 1000), 0, 12)), ('XSoFlg', SeqOf(R('XFlg'), 3)),
        ('XPt', Seq(F('x-px', Int(-5, 5)), F('x-py', R('XBig'), 'OPT'))),
        ('XSoPt', SeqOf(R('XPt'), 0, 5)), ('XSoCol', SeqOf(R('XCol'), 0, 4)),
        ('XChc', Choice(F('x-a', Int(0, 3)), F('x-b', Bool()), F('x-c', R('XOctV')), F('x-d', R('XStrV')),
                        F('x-e', R('XRl')), F('x-f', R('XPt')))),
        ('XRec', Seq(F('x-fb', R('XFlg')), F('x-i1', R('XI5')), F('x-big', R('XBig'), 'OPT'), F('x-semi', R('XSemi')),
                     F('x-col', R('XCol')), F('x-ofx', R('XOctF')), F('x-ov', R('XOctV')), F('x-bf', R('XBitF'), 'OPT'),
                     F('x-bv', R('XBitV')), F('x-s', R('XStrV')), F('x-sa', R('XStrA')), F('x-ch', R('XChc')),
                     F('x-so', R('XSoInt')), F('x-r', R('XRl')), F('x-soc', R('XSoCol')))),
        ('XLog', SeqOf(R('XRec'), 0, 3)),
        # ---- characters of the markup, long contents, long names
        ('XText', Str(0, 60)), ('XChr', Str(3, 9, alphabet='<>&"\'; -', frm='"<" | ">" | "&" | """" | "\'" | ";" | " " | "-"')),
        ('XNum', Str(1, 9, base='NumericString', alphabet=' 0123456789')),
        ('XOctL', Octets(0, 700)), ('XBitL', Bits(0, 2500)), ('XOctE', Octets(2, 3)), ('XStrL', Str(0, 5200, alphabet=UP, frm='"A".."Z"')),
        ('XUns', Int(0, None)), ('XNeg', Int(None, 5)), ('XOne', Int(7, 7)), ('XU64', Int(0, M64)), ('XI32', Int(-2147483648, 2147483647)),
        ('XRlC', Real(-10.0, 10.5)),
        ('XEnumL', Enum([('xe-%s' % ('long' * k + str(k)), 3 * k - 4) for k in (1, 2, 5, 11, 22)])),
        ('XSoFix', SeqOf(Int(-3, 300), 4)), ('XSoCh', SeqOf(R('XChc'), 0, 4)), ('XSoEn', SeqOf(R('XEnumL'), 1, 5)), ('XSoNul', SeqOf(R('XNul'), 0, 3)),
        ('XSoOid', SeqOf(R('XOid'), 0, 3)), ('XSoSo', SeqOf(R('XSoInt'), 1, 3)), ('XSoStr', SeqOf(R('XText'), 0, 4)), ('XSoRl', SeqOf(R('XRl'), 0, 6)),
        ('XSoOct', SeqOf(R('XOctV'), 0, 5)), ('XSoBit', SeqOf(R('XBitF'), 2, 5)), ('XSoB', SeqOf(Bool(), 0, 6)), ('XSoIn', SeqOf(Seq(F('a', Int(0, 9)), F('b', Bool(), 'OPT')), 0, 4)),
        ('XCh2', Choice(F('y-ch', R('XChc')), F('y-en', R('XEnumL')), F('y-so', R('XSoPt')), F('y-nu', R('XNul')), F('y-oi', R('XOid')), F('y-in', Int(-9, 9)), F('y-bo', Bool()), F('y-lo', R('XSoB')))),
        ('XMis', Seq(F('m-oid', R('XOid'), 'OPT'), F('m-nul', R('XNul')), F('m-def', R('XU8'), 17), F('m-db', Bool(), True), F('m-de', R('XCol'), 'xgreen'), F('m-txt', R('XText'), 'OPT'),
                     F('m-en', R('XEnumL')), F('m-ch', R('XCh2'), 'OPT'), F('m-fix', R('XSoFix')), F('m-sch', R('XSoCh')), F('m-uns', R('XUns')), F('m-neg', R('XNeg')), F('m-num', R('XNum')),
                     F('m-in', Seq(F('z-a', Bool()), F('z-b', Int(0, 70), 'OPT'), F('z-c', Octets(0, 5))), 'OPT'), F('m-ino', SeqOf(Int(0, 9), 0, 3)), F('m-inc', Enum([('xq1', 0), ('xq2', 1)])),
                     F('m-rc', R('XRlC')), F('m-one', R('XOne')))),
        ('XTree', Seq(F('t-a', R('XMis')), F('t-b', R('XSoSo')), F('t-c', SeqOf(R('XMis'), 0, 2)), F('t-d', R('XOctL'), 'OPT'), F('t-e', R('XBitL'), 'OPT'), F('t-f', R('XSoOid')), F('t-g', R('XSoIn')))),
        ('XEmpty', Seq(F('o-a', Bool(), 'OPT'), F('o-b', R('XU8'), 'OPT'))),
    ]
    return Model('xer', 'XEM', ty, [t[0] for t in ty])


def A(t, enc, p1=0, p2=0, acn='', pat='', pat2='', align=0):
    return t.with_(enc=enc, p1=p1, p2=p2, acn=acn, pat=pat, pat2=pat2, align=align)


def pos(lo, hi, n, little=False, align=0):
    return A(Int(lo, hi), 'POS', n, int(little), 'encoding pos-int, size %d%s' % (n, ', endianness little' if little else ''), align=align)


def two(lo, hi, n, little=False, align=0):
    return A(Int(lo, hi), 'TWO', n, int(little), 'encoding twos-complement, size %d%s' % (n, ', endianness little' if little else ''), align=align)


def ipos(n, little=False):
    """an inserted INTEGER [encoding pos-int, size n]"""
    return pos(0, 2**n - 1, n, little)


def acn_model(narrow=False):
    """narrow: only what a 32-bit word can hold (for -wordSize 4 nodes)"""
    ptn = lambda s: ''.join('{:08b}'.format(b) for b in bytes.fromhex(s))
    ty = [
        # ---- integers
        ('P5', pos(0, 31, 5)), ('P8', pos(0, 255, 8)), ('P16', pos(0, 65535, 16)), ('P16L', pos(0, 65535, 16, True)),
        ('P32', pos(0, 4294967295, 32)), ('P32L', pos(0, 4294967295, 32, True)), ('P64', pos(0, M64, 64)),
        ('P64L', pos(0, M64, 64, True)), ('P37', pos(0, 2**37 - 1, 37)), ('P24', pos(3, 2**24 - 5, 24)),
        ('T5', two(-16, 15, 5)), ('T8', two(-128, 127, 8)), ('T16', two(-32768, 32767, 16)), ('T16L', two(-32768, 32767, 16, True)),
        ('T32', two(-2**31, 2**31 - 1, 32)), ('T32L', two(-2**31, 2**31 - 1, 32, True)), ('T64', two(-2**63, 2**63 - 1, 64)),
        ('T64L', two(-2**63, 2**63 - 1, 64, True)), ('T41', two(-2**40, 2**40 - 1, 41)), ('T20', two(-2**19, 2**19 - 3, 20)),
        ('Bcd5', A(Int(0, 99999), 'BCD', 5, acn='encoding BCD, size 20')),
        ('BcdN', A(Int(0, 999999999999), 'BCDNT', acn='encoding BCD, size null-terminated')),
        ('As6', A(Int(0, 99999), 'ASC', 6, acn='encoding ASCII, size 48')),
        ('AsS', A(Int(-9999, 9999), 'ASC', 5, acn='encoding ASCII, size 40')),
        ('AsN', A(Int(0, 2**40), 'ASCNT', acn="encoding ASCII, size null-terminated, termination-pattern '00'H", pat=ptn('00'))),
        ('AsNS', A(Int(-2**40, 2**40), 'ASCNT', acn="encoding ASCII, size null-terminated, termination-pattern '0D0A'H", pat=ptn('0D0A'))),
        ('AU', Int(3, 74)), ('AB', Int()),
        # ---- reals, booleans, null, enums
        ('R32', A(Real(), 'IEEE', 32, acn='encoding IEEE754-1985-32')), ('R64', A(Real(), 'IEEE', 64, acn='encoding IEEE754-1985-64')),
        ('R64L', A(Real(), 'IEEE', 64, 1, acn='encoding IEEE754-1985-64, endianness little')),
        ('R32L', A(Real(), 'IEEE', 32, 1, acn='encoding IEEE754-1985-32, endianness little')),
        ('RU', Real()),
        ('B1', Bool()), ('BT', A(Bool(), 'BOOLP', pat='1011', pat2='0100', acn="true-value '1011'B")),
        ('BF', A(Bool(), 'BOOLP', pat2='010101010', pat='101010101', acn="false-value '010101010'B")),
        ('BTF', A(Bool(), 'BOOLP', pat='11001100111', pat2='00000000001', acn="true-value '11001100111'B, false-value '00000000001'B")),
        ('N0', Null()), ('NP', A(Null(), 'NULLP', pat='1010111000101', acn="pattern '1010111000101'B")),
        ('En', Enum([('e1', 1), ('e2', 20), ('e3', 300)])),
        ('EnV', A(Enum([('v1', 0, 3), ('v2', 1, 77), ('v3', 2, 250)]), 'POS', 8, acn='encode-values, encoding pos-int, size 8')),
        ('EnW', A(Enum([('ew-a', -5), ('ew-b', 0), ('ew-c', 7000)]), 'TWO', 16, 1, acn='encode-values, encoding twos-complement, size 16, endianness little')),
        ('EnJ', Enum([('k1', 9), ('k2', -2), ('k3', 4), ('k4', 100), ('k5', 3)])),
        ('EnK', A(Enum([('l1', 9), ('l2', -2), ('l3', 4)]), 'TWO', 8, acn='encode-values, encoding twos-complement, size 8')),
        # ---- strings
        ('OFx', Octets(3)), ('OV', Octets(0, 30)), ('BF9', Bits(9)), ('BV', Bits(1, 40)),
        ('SI', Str(0, 12)), ('SA', Str(3, 8, alphabet='ABCDEFGHIJKLMNOP', frm='"A".."P"')),
        ('S8', A(Str(4), 'STR8', acn='encoding ASCII, size 4')),
        ('SNT', A(Str(0, 10, alphabet=UP, frm='"A".."Z"'), 'STRNT', acn='encoding ASCII, size null-terminated', pat=ptn('00'))),
        ('SNM', A(Str(1, 10, alphabet=UP, frm='"A".."Z"'), 'STRNT', acn="encoding ASCII, size null-terminated, termination-pattern '0102'H", pat=ptn('0102'))),
        ('BNT', A(Bits(1, 20), 'BITNT', acn="size null-terminated, termination-pattern '0F0F'H", pat=ptn('0F0F'))),
        ('ONT', A(Octets(1, 9), 'BITNT', acn="size null-terminated, termination-pattern 'FF0A'H", pat=ptn('FF0A'))),
        ('QNT', A(SeqOf(pos(0, 200, 8), 2, 9), 'BITNT', acn="size null-terminated, termination-pattern 'FFFE'H", pat=ptn('FFFE'))),
        # ---- composites
        ('Ints', Seq(F('i-a', R('P5')), F('i-b', R('P16L')), F('i-c', R('T16')), F('i-d', R('T32L')), F('i-e', R('P64')),
                     F('i-f', R('T64L')), F('i-g', R('Bcd5')), F('i-h', R('BcdN')), F('i-i', R('As6')), F('i-j', R('AsS')),
                     F('i-k', R('AsN')), F('i-l', R('AsNS')), F('i-m', R('P37')), F('i-n', R('T41')), F('i-o', R('AB')),
                     F('i-p', R('P32')), F('i-q', R('T8')), F('i-r', R('P64L')), F('i-s', R('T64')), F('i-t', R('P32L')),
                     F('i-u', R('T20')))),
        ('Oths', Seq(F('o-a', R('R32')), F('o-b', R('R64')), F('o-c', R('R64L')), F('o-d', R('RU')), F('o-e', R('BT')),
                     F('o-f', R('BTF')), F('o-g', R('NP')), F('o-h', R('En')), F('o-i', R('EnV')), F('o-j', R('EnW')),
                     F('o-k', R('BF')), F('o-l', R('R32L')),
                     F('o-m', R('EnJ')), F('o-n', R('EnK')))),
        ('Strs', Seq(F('s-a', R('SI')), F('s-b', R('SNT')), F('s-c', R('SNM')), F('s-d', R('S8')), F('s-e', R('BNT')),
                     F('s-f', R('SA')), F('s-g', R('OFx')), F('s-h', R('BV')), F('s-i', R('BF9')))),
        ('Algn', Seq(F('a-a', Int(0, 7)), F('a-b', pos(0, 255, 8, align=8)), F('a-c', Int(0, 3)),
                     F('a-d', pos(0, 65535, 16, align=16)), F('a-e', Bool()), F('a-f', two(-9, 9, 5, align=32)),
                     F('a-g', Octets(0, 5, align=16)), F('a-h', Int(0, 1)))),
        ('AChc', Choice(F('ca', R('P8')), F('cb', R('BT')), F('cc', R('OV')), F('cd', R('SNT')))),
        ('ASo', SeqOf(R('T16'), 0, 7)),
        ('ASoE', SeqOf(R('EnV'), 1, 4)),
        # determinants in the same sequence
        ('DSz', Seq(I('len-o', ipos(8), ('len', 'd-o'), 'INTEGER'), F('d-o', A(Octets(0, 60), 'EXT', acn='size len-o')),
                    I('len-b', ipos(16, True), ('len', 'd-b'), 'INTEGER'), F('d-m', Int(0, 3)),
                    F('d-b', A(Bits(0, 90), 'EXT', acn='size len-b')),
                    I('len-q', ipos(5), ('len', 'd-q'), 'INTEGER'), I('len-s', ipos(8), ('len', 'd-s'), 'INTEGER'),
                    F('d-q', A(SeqOf(R('P5'), 0, 9), 'EXT', acn='size len-q')),
                    F('d-s', A(Str(0, 15), 'EXT', acn='size len-s')),
                    I('len-t', ipos(3), ('len', 'd-t'), 'INTEGER'),
                    F('d-t', A(Str(0, 6, alphabet=UP, frm='"A".."Z"'), 'EXT8', acn='encoding ASCII, size len-t')))),
        ('DPr', Seq(I('has-a', Bool(), ('pres', 'e-a'), 'BOOLEAN'), F('e-x', Int(0, 3)),
                    F('e-a', R('P16'), 'OPT', present='has-a'),
                    I('has-b', A(Bool(), 'BOOLP', pat='1111', pat2='0000', acn="true-value '1111'B, false-value '0000'B"), ('pres', 'e-b'), 'BOOLEAN'),
                    F('e-b', R('OV'), 'OPT', present='has-b'), F('e-c', R('T5'), 'OPT'),
                    F('e-d', R('P8'), 9))),
        ('ChE', Enum([('al-a', 0), ('al-b', 1), ('al-c', 2)])),
        ('DCh', Seq(I('which', A(Enum([('al-a', 0, 5), ('al-b', 1, 6), ('al-c', 2, 200)]), 'POS', 8),
                      ('choice', 'g-c'), 'ChEV'),
                    F('g-m', Int(0, 31)), F('g-c', A(R('DChC', '<which>'), 'EXT')))),
        ('DChC', Choice(F('al-a', R('P8')), F('al-b', R('OV')), F('al-c', R('ASo')), enc='EXT', acn='determinant wd'), '<ChEV:wd>'),
        ('ChEV', A(Enum([('al-a', 0, 5), ('al-b', 1, 6), ('al-c', 2, 200)]), 'POS', 8, acn='encode-values, encoding pos-int, size 8')),
        ('DPw', Seq(I('tag1', ipos(8), ('choice', 'w-c', [10, 20, 30]), 'INTEGER'), F('w-m', Bool()),
                    F('w-c', R('DPwC', '<tag1>')))),
        ('DPwC', Choice(F('w1', R('P8'), present='ptag==10'), F('w2', R('BT'), present='ptag==20'),
                        F('w3', R('OV'), present='ptag==30'), enc='EXT'), '<INTEGER:ptag>'),
        # determinants of nested data in a header (parameters)
        ('Body', Seq(F('b-m', Int(0, 7)), F('b-o', A(Octets(0, 20), 'EXT', acn='size plen')),
                     F('b-p', R('P8'), 'OPT', present='pflag')), '<INTEGER:plen, BOOLEAN:pflag>'),
        ('PHdr', Seq(F('h-ver', Int(0, 7)), F('h-end', Int(0, 3)))),
        ('Pkt', Seq(F('hdr', Seq(F('h-ver', Int(0, 7)), I('plen1', ipos(16), ('len', '^.bdy.b-o'), 'INTEGER'),
                                 I('pfl1', Bool(), ('pres', '^.bdy.b-p'), 'BOOLEAN'), F('h-end', Int(0, 3)), asname='PHdr')),
                    F('bdy', R('Body', '<hdr.plen1, hdr.pfl1>')), F('trail', R('P8')))),
        ('PktI', Seq(F('hdr', Seq(F('h-ver', Int(0, 7)), I('plen1', ipos(16), ('len', '^.bdy.b-o'), 'INTEGER'),
                                 I('pfl1', Bool(), ('pres', '^.bdy.b-p'), 'BOOLEAN'), F('h-end', Int(0, 3)))),
                    F('bdy', R('Body', '<hdr.plen1, hdr.pfl1>')), F('trail', R('P8')))),
        ('CnQ', Seq(F('a', R('P5')), F('b', R('BT')), F('c', R('P32'), 'OPT'))),
        ('CnF', Seq(F('a', Int(0, 7)), F('b', R('P8')))),
        ('CnO', Seq(F('p', Int(0, 7)), F('c', Containing(R('CnQ'), lo=2, hi=6)), F('t', Int(0, 31)))),
        ('CnB', Seq(F('p', Int(0, 7)), F('c', Containing(R('CnQ'), bits=True, lo=10, hi=42)), F('t', Int(0, 31)))),
        ('CnX', Seq(F('p', Int(0, 7)), F('c', Containing(R('CnF'), lo=2, hi=2)), F('d', Containing(R('CnF'), bits=True, lo=11, hi=11), 'OPT'), F('t', Int(0, 31)))),
        ('CnN', Seq(F('p', Int(0, 7)), F('c', Containing(R('CnO'), lo=4, hi=8)), F('d', SeqOf(R('CnB'), 0, 3)))),
        ('AMix', Seq(F('x-a', R('DSz'), 'OPT'), F('x-b', R('DPr')), F('x-c', R('DCh')), F('x-d', R('Pkt')), F('x-e', R('AChc')),
                     F('x-f', R('ASoE')), F('x-g', R('Algn')))),
        ('ALog', SeqOf(R('DSz'), 0, 4)),
    ]
    if narrow:
        drop = {'P64', 'P64L', 'P37', 'T64', 'T64L', 'T41', 'BcdN', 'AsN', 'AsNS'}
        ty = [t for t in ty if t[0] not in drop]
        for t in ty:
            if t[0] == 'Ints':
                t[1].fields = [f for f in t[1].fields if not (isinstance(f.t, Ref) and f.t.name in drop)]
    for t in ty:
        REG[t[0]] = t[1]
    pdus = [t[0] for t in ty if t[0] not in ('DChC', 'DPwC', 'Body')]
    return Model('acn4' if narrow else 'acn', 'ACM', ty, pdus)


def def_model():
    """determinants away from the data they describe: headers, parameters, shared and forwarded determinants, contained encodings"""
    def hdr(*ins_, name='DHdr'):
        return Seq(F('v', Int(0, 7)), *ins_, F('e', Int(0, 3)), asname=name)
    up = '^.'
    ty = [
        ('DHdr', Seq(F('v', Int(0, 7)), F('e', Int(0, 3)))),
        ('P5', pos(0, 31, 5)), ('P8', pos(0, 255, 8)), ('P32', pos(0, 2**32 - 1, 32)),
        # ---- one octet string each, with determinants of every width and form
        ('OB', A(Octets(0, 25), 'EXT', acn='size n'), '<INTEGER:n>'),
        ('OBM', A(Octets(2, 20), 'EXT', acn='size n'), '<Len2:n>'),
        ('SB', Seq(F('x', Bool()), F('s', A(Str(0, 12), 'EXT', acn='size n')), F('y', Int(0, 3))), '<INTEGER:n>'),
        ('BB', Seq(F('x', Bool()), F('s', A(Bits(0, 61), 'EXT', acn='size n')), F('y', Int(0, 3))), '<INTEGER:n>'),
        ('QB', Seq(F('x', Bool()), F('s', A(SeqOf(R('P5'), 0, 9), 'EXT', acn='size n')), F('y', Int(0, 3))), '<INTEGER:n>'),
    ]
    wid = [('W5', ipos(5)), ('W8', ipos(8)), ('W12', ipos(12)), ('W16', ipos(16)), ('W16L', ipos(16, True)), ('W32', ipos(32)),
           ('W32L', ipos(32, True)), ('W64', ipos(64)), ('W64L', ipos(64, True)),
           ('I8', two(-128, 127, 8)), ('I16', two(-32768, 32767, 16)), ('I11', two(-1024, 1023, 11)), ('I32', two(-2**31, 2**31 - 1, 32)),
           ('I64', two(-2**63, 2**63 - 1, 64))]
    bodies = ['OB', 'SB', 'BB', 'QB']
    pth = {'OB': 'b', 'SB': 'b.s', 'BB': 'b.s', 'QB': 'b.s'}
    pdus = []
    for i, (n, t) in enumerate(wid):
        b = bodies[i % 4] if n != 'W5' else 'QB'
        ty.append(('D' + n, Seq(F('h', hdr(I('n', t, ('len', up + pth[b]), 'INTEGER'))), F('m', Bool()), F('b', R(b, '<h.n>')), F('t', Int(0, 31)))))
    ty += [
        ('Len2', Int(2, 20)),
        ('Len3', Int(0, 20)), ('Len4', Int(-20, 20)),
        ('OB3', A(Octets(0, 20), 'EXT', acn='size n'), '<Len3:n>'),
        ('DLn', Seq(F('h', hdr(I('n', pos(0, 20, 8), ('len', up + 'b'), 'Len3'))), F('b', R('OB3', '<h.n>')), F('t', Int(0, 31)))),
        ('OB4', A(Octets(0, 20), 'EXT', acn='size n'), '<Len4:n>'),
        ('DLs', Seq(F('h', hdr(I('n', two(-20, 20, 8), ('len', up + 'b'), 'Len4'))), F('b', R('OB4', '<h.n>')), F('t', Int(0, 31)))),
        ('BB3', A(Bits(0, 20), 'EXT', acn='size n'), '<Len4:n>'),
        ('DLb', Seq(F('h', hdr(I('n', two(-20, 20, 7), ('len', up + 'b'), 'Len4'))), F('b', R('BB3', '<h.n>')), F('t', Int(0, 31)))),
        ('DUp', Seq(F('h', hdr(I('n', Int(2, 20), ('len', up + 'b'), 'Len2'))), F('b', R('OBM', '<h.n>')), F('t', Int(0, 31)))),
    ]
    tgt = [('t-a', 0), ('t-b', 1), ('t-c', 2)]
    ty += [
        # ---- presence and choice determinants
        ('PB', Seq(F('x', Int(0, 7)), F('o', R('P8'), 'OPT', present='f'), F('z', Bool())), '<BOOLEAN:f>'),
        ('DPrB', Seq(F('h', hdr(I('f', Bool(), ('pres', up + 'b.o'), 'BOOLEAN'))), F('m', Bool()), F('b', R('PB', '<h.f>')), F('t', Int(0, 31)))),
        ('PCI', Choice(F('w1', R('P8'), present='k==10'), F('w2', Bool(), present='k==20'), F('w3', Octets(0, 9), present='k==30'), enc='EXT'), '<INTEGER:k>'),
        ('DChI', Seq(F('h', hdr(I('k', ipos(8), ('choice', up + 'b', [10, 20, 30]), 'INTEGER'))), F('m', Bool()), F('b', R('PCI', '<h.k>')), F('t', Int(0, 31)))),
        ('TgE', A(Enum([(n, v, a) for (n, v), a in zip(tgt, (5, 6, 200))]), 'POS', 8, acn='encode-values, encoding pos-int, size 8')),
        ('TgU', Enum(tgt)),
        ('TgN', A(Enum([(n, a) for (n, v), a in zip(tgt, (-3, 0, 900))]), 'TWO', 12, acn='encode-values, encoding twos-complement, size 12')),
    ]
    for k, e in (('E', 'TgE'), ('U', 'TgU'), ('N', 'TgN')):
        ty += [('PC' + k, Choice(F('t-a', R('P8')), F('t-b', Octets(0, 6)), F('t-c', R('P32')), enc='EXT', acn='determinant k'), '<%s:k>' % e),
               ('DCh' + k, Seq(F('h', hdr(I('k', dict((t[0], t[1]) for t in ty)[e], ('choice', up + 'b'), e))), F('m', Bool()), F('b', R('PC' + k, '<h.k>')), F('t', Int(0, 31))))]
    ty += [
        # ---- one determinant governing several fields; header and body forwarded through three levels
        ('DSh', Seq(F('h', hdr(I('n', ipos(5), ('len', [up + 'b', up + 'c.s']), 'INTEGER'))), F('b', R('OB', '<h.n>')), F('m', Bool()), F('c', R('SB', '<h.n>')), F('t', Int(0, 31)))),
        ('DShQ', Seq(F('h', hdr(I('n', ipos(16, True), ('len', [up + 'b.s', up + 'c.s', up + 'd']), 'INTEGER'))), F('b', R('QB', '<h.n>')), F('m', Bool()), F('c', R('BB', '<h.n>')), F('d', R('OB', '<h.n>')), F('t', Int(0, 31)))),
        ('DShP', Seq(F('h', hdr(I('f', Bool(), ('pres', [up + 'b.o', up + 'c.o']), 'BOOLEAN'))), F('b', R('PB', '<h.f>')), F('c', R('PB', '<h.f>')), F('t', Int(0, 31)))),
        ('DShC', Seq(F('h', hdr(I('k', ipos(8), ('choice', [up + 'b', up + 'c'], [10, 20, 30]), 'INTEGER'))), F('b', R('PCI', '<h.k>')), F('c', R('PCI', '<h.k>')), F('t', Int(0, 31)))),
        ('Lv1', Seq(F('x', Bool()), F('l2', R('Lv2', '<n, f>')), F('y', Int(0, 7))), '<INTEGER:n, BOOLEAN:f>'),
        ('Lv2', Seq(F('l3', R('Lv3', '<n>')), F('p', R('PB', '<f>'))), '<INTEGER:n, BOOLEAN:f>'),
        ('Lv3', Seq(F('z', Int(0, 3)), F('o', R('OB', '<n>'))), '<INTEGER:n>'),
        ('DFwd', Seq(F('h', hdr(I('n', ipos(7), ('len', up + 'l.l2.l3.o'), 'INTEGER'), I('f', Bool(), ('pres', up + 'l.l2.p.o'), 'BOOLEAN'))), F('m', Int(0, 7)), F('l', R('Lv1', '<h.n, h.f>')), F('t', R('P8')))),
        # ---- contained encodings whose size is in a header
        ('CP', Seq(F('a', R('P32')), F('b', A(Octets(0, 30), 'EXT', acn='size n')), F('c', R('P8'))), '<INTEGER:n>'),
        ('CQ', Seq(F('a', Int(0, 7)), F('b', Bool()), F('c', R('P5'), 'OPT'))),
        ('DCo', Seq(F('h', hdr(I('len', ipos(16), ('len', up + 'p'), 'INTEGER'), I('n', ipos(8), ('len', up + 'p.b'), 'INTEGER'))), F('p', A(Containing(R('CP'), args='<h.n>'), 'EXT', p1=0, acn='size h.len')), F('t', Int(0, 31)))),
        ('DCoQ', Seq(F('h', hdr(I('len', ipos(6), ('len', up + 'p'), 'INTEGER'))), F('p', A(Containing(R('CQ')), 'EXT', p1=0, acn='size h.len')), F('t', Int(0, 31)))),
        ('DCoB', Seq(F('h', hdr(I('len', ipos(6), ('len', up + 'p'), 'INTEGER'))), F('p', A(Containing(R('CQ'), bits=True), 'EXT', p1=1, acn='size h.len')), F('t', Int(0, 31)))),
        ('DAll', Seq(F('x', Int(0, 7)), F('a', R('DSh'), 'OPT'), F('b', SeqOf(R('DW12'), 0, 4)), F('c', R('DFwd')), F('d', R('DCo')), F('e', R('DChN')), F('f', R('DPrB')))),
    ]
    for t in ty:
        REG[t[0]] = t[1]
    return Model('def', 'DFM', ty, [t[0] for t in ty if len(t) < 3])
