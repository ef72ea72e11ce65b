"""writes known_findings.json: the recorded findings and the repaired defects (with the commit that repairs each)"""
import json, subprocess
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
PROP = {  # first words of the commit message -> property
 'ACN-inserted enumerated': 'C03', 'efficient enum': 'C03', 'enumeration indexes': 'C03', 'ACN-inserted BOOLEAN': 'C03',
 'deferred patching mixes': 'D01', 'BitStream_AppendPartialByte': 'D01', 'BitStream_AppendNBitZero': 'S01', 'streaming: bits of the previous': 'S01',
 'BitStream_AppendByteArray': 'S01', 'BitStream_ReadByte and': 'S02', 'bits were read past': 'C01', 'streaming: octets': 'S01',
 'truncated OCTET': 'S03', 'empty OCTET': 'C03', 'REAL values close': 'C03', '-wordSize 4': 'C03', 'integer overflows when': 'C01',
 'OBJECT IDENTIFIER values below': 'C03', 'alignment to words': 'S02', 'malformed digits': 'C01', 'strings with a multi': 'C05',
 'streaming: null terminated': 'S02', 'null terminated SEQUENCE OF': 'C01', 'truncated IEEE': 'S03', 'decoding failed without': 'C01',
 'failures inside fragments': 'C01', 'negative sizes': 'C04', 'RELATIVE-OID': 'C04', 'characters outside the alphabet': 'C04',
 'size determinants of CONTAINING': 'D01', 'OCTET STRING (CONTAINING) was not': 'D01', 'size of a CONTAINING': 'D01',
 'contents of CONTAINING': 'C01', 'negative size determinants': 'C01', 'octet and bit strings overflowed': 'C01', 'CONTAINING fields were': 'S01',
 'decode length-embedded BCD': 'C03', 'maximum size of REAL': 'C02', 'unconstrained INTEGER without': 'C05',
 'XER REAL encoding': 'X02', 'XER encoder appended': 'X02', 'XML attributes': 'X02', 'XER decoder accepted': 'X02', 'XER octet and bit': 'X02',
 'XER OBJECT IDENTIFIER': 'X02', 'LoadXmlFile reported': 'X01', 'LoadXmlFile ended': 'X01', "'<', '>' and '&'": 'X02', 'XER strings were': 'X02',
 'XER decoders accepted': 'X02', 'buffers of the advertised size were': 'X02', 'types with an OBJECT': 'C03',
 'quotation marks and': 'C04', 'XER NULL': 'X02', 'Ada decoders of types': 'A01', 'the Ada run-time': 'A01', 'Ada decoders raised': 'A01', 'Ada accepted': 'A01', 'Ada merged': 'A01', 'Ada left': 'A01',
 'the generated code depended on': 'G01', 'a custom template that': 'G02', 'a default ACN grammar': 'G02', 'a failing daemon': 'W01', 'stopping the daemon': 'W01',
}
try:
    from mkknown_more import MORE
    PROP.update(MORE)
except ImportError:
    pass
fixed = []
for l in log:
    h, m = l.split(' ', 1)
    if not m.startswith('fix: '):
        continue
    m = m[5:]
    p = [v for k, v in PROP.items() if m.startswith(k)]
    assert len(p) == 1, m
    fixed.append('fixed: property=%s %s %s' % (p[0], h, m))
F = [
 dict(id='builtin-alphabet', properties=['C01', 'C04', 'A01'], signatures=['invalid-passed:builtin-alphabet', 'invalid-accepted:builtin-alphabet'],
      what='bytes above 127 in an IA5String without FROM constraint pass the generated constraint check (encoders send them, decoders accept them)',
      input='any IA5String type of the models with no alphabet constraint holding a byte >= 128'),
 dict(id='deferred-inline-header', properties=['C03'], signatures=['deferred-inline-header'],
      what='-acnDeferred: ACN-inserted determinants in a header SEQUENCE given in place (type PktI) are never reserved, so encoding fails with error 203 or writes through an uninitialised reference',
      input='type PktI on node acn_def, every value'),
 dict(id='stream-null-terminated', properties=['S02', 'S03'], signatures=['stream-null-terminated'],
      what='streaming mode: an OCTET STRING or SEQUENCE OF with a termination pattern is rejected when the pattern test would have to look beyond the end of the buffer (the look-ahead cannot be taken back after a fetch)',
      input='types ONT and QNT on node acn_stream, when an element starts less than 16 bits before the end of the buffer'),
]
try:
    from mkknown_more import FINDINGS
    F += FINDINGS
except ImportError:
    pass
json.dump(dict(findings=F, fixed=fixed), open('/verif/known_findings.json', 'w'), indent=1)
print(len(F), len(fixed))
