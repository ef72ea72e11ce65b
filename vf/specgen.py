"""Random ASN.1 + ACN specifications and compiler options for the simulated compiler runs (G01, G02)."""
import random

WORDS = ['Id', 'Info', 'INDEX', 'Item', 'unit', 'Mission', 'Limit', 'flight', 'TM', 'tc', 'Time', 'Kind', 'Size', 'List', 'Point', 'data', 'Iota']


def spec(r, wide, ieee):
    """-> {file name: text}: 1-3 modules with types importing each other, values, sometimes ACN"""
    nm = r.choice([1, 1, 2, 2, 3])
    acn = r.random() < 0.6
    mods, files = [], {}
    allt = []     # (module index, type name, kind)
    uniq = 0
    for mi in range(nm):
        name = r.choice(['Mod', 'INI-Mod', 'MyMODULE', 'Aux-Info']) + str(mi)
        types, vals, acns, used = [], [], [], set()
        for vi in range(r.randint(0, 2)):
            vals.append(('c%d-%d' % (mi, vi), r.randint(1, 20)))
        for ti in range(r.randint(2, 6)):
            uniq += 1
            w = r.choice(WORDS)
            tn = w[0].upper() + w[1:] + r.choice(['', '-T', 'Type']) + str(uniq)
            body, ac, kind = type_body(r, mi, allt, used, vals, acn, 0, (wide, ieee))
            types.append('%s ::= %s' % (tn, body))
            acns.append('%s%s' % (tn, ac if ac else '[]'))
            allt.append((mi, tn, kind))
        mods.append(dict(name=name, types=types, vals=vals, acns=acns, used=used, names=[t for m, t, k in allt if m == mi]))
    one = nm > 1 and r.random() < 0.3
    texts = []
    for mi, m in enumerate(mods):
        imp = {}
        for j, t in sorted(m['used']):
            if j != mi:
                imp.setdefault(j, []).append(t)
        s = '%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n' % m['name']
        if imp:
            s += 'IMPORTS ' + ' '.join(', '.join(ts) + ' FROM ' + mods[j]['name'] for j, ts in imp.items()) + ' ;\n'
        s += ''.join('%s INTEGER ::= %d\n' % v for v in m['vals'])
        s += '\n'.join(m['types']) + '\nEND\n'
        texts.append(s)
        if acn:
            a = '%s DEFINITIONS ::= BEGIN\n' % m['name'] + '\n'.join(m['acns']) + '\nEND\n'
            files['m%d.acn' % mi] = a
    if one:
        files['all.asn1'] = '\n'.join(texts)
    else:
        for mi, s in enumerate(texts):
            files['m%d%s' % (mi, r.choice(['.asn', '.asn1']))] = s
    return files, acn


def ref(r, mi, allt, used, want=None):
    c = [x for x in allt if want is None or x[2] == want]
    if not c:
        return None
    j, t, k = r.choice(c)
    used.add((j, t))
    return t, k


def type_body(r, mi, allt, used, vals, acn, depth, wi):
    k = r.choice(['int', 'int', 'enum', 'bool', 'real', 'oct', 'bit', 'str', 'seq', 'seq', 'seq', 'choice', 'seqof', 'null', 'ref'] if depth == 0 else
                 ['int', 'int', 'enum', 'bool', 'real', 'oct', 'bit', 'str', 'ref', 'ref', 'seqof'])
    if k == 'ref':
        x = ref(r, mi, allt, used)
        if x and not (x[1] == 'null' and depth):
            return x[0], '', x[1]
        k = 'int'
    if k == 'int':
        lo = r.choice([0, 0, 1, -5, -128, -70000])
        hi = lo + r.choice([0, 1, 7, 100, 255, 256, 65535, 5000000000 if wi[0] else 70000])
        c = '(%d .. %d)' % (lo, hi)
        if vals and r.random() < 0.3:
            lo, hi = 0, r.choice(vals)[1]
            c = '(0 .. %s)' % next(n for n, v in vals if v == hi)
        a = ''
        if acn and r.random() < 0.5:
            if lo >= 0 and r.random() < 0.6:
                a = r.choice(['[size 48, encoding pos-int]', '[size 64, encoding pos-int, endianness little]', '[size 12, encoding BCD]' if hi < 999 else '[size 40, encoding pos-int]'])
            elif lo < 0:
                a = r.choice(['[size 64, encoding twos-complement]', '[size 40, encoding twos-complement]' if hi < 2 ** 38 else '[size 64, encoding twos-complement, endianness big]'])
        return 'INTEGER ' + c, a, 'int'
    if k == 'enum':
        n = r.randint(1, 6)
        it = r.sample(['idle', 'init', 'iII', 'red', 'safe-mode', 'x', 'nominal', 'i', 'off', 'in-use'], n)
        if r.random() < 0.4:
            v = r.sample(range(-3, 300), n)
            it = ['%s(%d)' % p for p in zip(it, v)]
        return 'ENUMERATED { %s }' % ', '.join(it), '[size 16, encoding %s, encode-values]' % ('twos-complement' if any('(-' in i for i in it) else 'pos-int') if acn and r.random() < 0.4 else '', 'enum'
    if k == 'bool':
        return 'BOOLEAN', '', 'bool'
    if k == 'null':
        return 'NULL', "[pattern '1011'B]" if acn and r.random() < .5 else '', 'null'
    if k == 'real':
        return 'REAL (%s .. %s)' % (r.choice(['-1.5', '0.25', '-1000.125', '-0.5']), r.choice(['1.5', '10.75', '1.0E10'])), \
            r.choice(['', '[encoding IEEE754-1985-64]', '[encoding IEEE754-1985-64, endianness little]']) if acn and wi[1] else '', 'real'
    if k in ('oct', 'bit', 'str'):
        a = r.choice([0, 1, 1, 3])
        b = a + r.choice([0, 1, 5, 20])
        sz = 'SIZE (%d .. %d)' % (a, max(b, 1)) if b != a else 'SIZE (%d)' % max(a, 1)
        if vals and r.random() < 0.2:
            sz = 'SIZE (0 .. %s)' % vals[0][0]
        if k == 'str':
            return 'IA5String (%s)%s' % (sz, r.choice(['', ' (FROM ("A".."Z"))', ' (FROM ("iI"|"0".."9"))'])), '', 'str'
        return ('OCTET' if k == 'oct' else 'BIT') + ' STRING (%s)' % sz, '', k
    if k == 'seqof':
        b, a, kk = type_body(r, mi, allt, used, vals, False, 2, wi)
        lo = r.choice([0, 1, 2])
        return 'SEQUENCE (SIZE (%d .. %d)) OF %s' % (lo, lo + r.choice([1, 4, 9]), b), '', 'seqof'
    n = r.randint(1, 5)
    names = r.sample(['a', 'i', 'id', 'index', 'limit', 'is-valid', 'payload', 'int-value', 'kind', 'time', 'x', 'y1', 'iI'], n)
    fs, af = [], []
    for f in names:
        b, a, kk = type_body(r, mi, allt, used, vals, acn, depth + 1, wi)
        sfx = ''
        if k == 'seq':
            q = r.random()
            if q < .25:
                sfx = ' OPTIONAL'
            elif q < .33 and b == 'BOOLEAN':
                sfx = ' DEFAULT TRUE'
        fs.append('  %s %s%s' % (f, b, sfx))
        af.append((f, a or '[]', kk, sfx))
    body = ('SEQUENCE' if k == 'seq' else 'CHOICE') + ' {\n' + ',\n'.join(fs) + '\n}'
    ac = ''
    if acn and r.random() < 0.7:
        ins = []
        out = []
        for f, a, kk, sfx in af:
            if k == 'seq' and sfx == ' OPTIONAL' and r.random() < .4:
                d = 'has-' + f
                ins.append('%s BOOLEAN []' % d)
                a = '[present-when %s%s]' % (d, (', ' + a[1:-1]) if a != '[]' else '')
            out.append('%s %s' % (f, a))
        ac = '[] {\n  ' + ',\n  '.join(ins + out) + '\n}'
    return body, ac, k


def options(r, acn, narrow):
    lang = r.choice(['-c', '-c', '-c', '-Ada', '-Ada', '-Scala'])
    enc = [e for e in ['-uPER', '-ACN', '-XER'] if r.random() < .5]
    if lang == '-Scala':
        enc = [e for e in enc if e != '-XER']
    if acn and '-ACN' not in enc:
        enc.append('-ACN')
    if not enc:
        enc = ['-uPER']
    o = [lang] + enc + narrow
    if r.random() < .4:
        o += ['-atc']
    elif r.random() < .4:
        o += ['-equal']
    if r.random() < .3:
        o += ['-renamePolicy', str(r.randint(0, 3))]
    if r.random() < .2:
        o += ['-typePrefix', r.choice(['T', 'ipx_'])]
    if r.random() < .3:
        o += ['-slim']
    if r.random() < .2:
        o += ['-eee', '2']
    if r.random() < .3:
        o += ['-x', 'ast.xml']
    if r.random() < .25:
        o += ['-icdUper', 'icd_uper.html']
    if r.random() < .35 and '-ACN' in enc:
        o += ['-icdAcn', 'icd.html']
    if r.random() < .1:
        o += ['-ig']
    if r.random() < .1 and lang == '-c':
        o += ['-sm']
    if r.random() < .1:
        o += ['-asn1']
    if r.random() < .15 and lang != '-Scala' and '-ACN' in enc:
        o += ['-acnDeferred']
    if r.random() < .1:
        o += ['-ACND']
    return o, r.choice(['out', 'out', '.', 'a/b'])
