"""writes MANIFEST.json from the table of checks and the properties"""
import json, sys
sys.path.insert(0, '/verif')
from vf import checks
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
t = checks.table()
NOTE = {
 'S01': 'Seeded search over messages, buffer sizes, bit phases, slow links and pre-emption; oracle: whole-buffer encoding by an independently compiled node plus the reference encoder.',
 'S02': 'Seeded search over messages, damage, segmentation, block sizes; oracle: whole-buffer decoding of the same bytes.',
 'S03': 'Seeded search over logs and crash points; oracle: the list of messages written completely.',
 'C01': 'Seeded search over damaged and hostile bytes; oracle: AddressSanitizer, array bounds, step bound, and an independent constraint checker.',
 'C02': 'Seeded search for worst-case values; oracle: guard bytes (AddressSanitizer) around a buffer of exactly the advertised size.',
 'C03': 'Seeded search over values and node pairs; oracle: independent reference encoders for uPER and the ACN constructs of the models, differential between all build configurations.',
 'C04': 'Seeded in-memory corruption; oracle: independent constraint checker; both directions (valid never refused).',
 'C05': 'Seeded variation of memory contents, histories and trailing bytes; oracle: same bytes, same result.',
 'D01': 'Seeded histories of reserve/patch steps and of messages with determinants in headers; oracle: bit-exact model of the determinant operations, the reference encoder, and the legacy mode as second implementation.',
 'X01': 'Seeded open/read faults on simulated file handles, torn files, buffers of every size, interleaved loads; oracle: the written content itself, handle accounting and the verdict implied by the fault that fired.',
 'X02': 'Seeded layout changes and damage on XER text; oracle: value model with its own XER printer/reader rules, AddressSanitizer around exact-size buffers, step bound.',
 'A01': 'Seeded search over values and damaged messages exchanged by C and Ada nodes living in one process; oracle: each implementation against the other, the independent constraint checker, exceptions and a step bound.',
 'G01': 'Seeded environments (hash seeds, clock, pid, directory order, culture, time zone, directory, stale outputs) for the compiler on a simulated operating system; oracle: the bytes of the undisturbed run.',
 'G02': 'Seeded file faults (errors, short and torn transfers, full disk, kill) at numbered operations of the compiler; oracle: the bytes of the undisturbed run, the exit status, the inputs, and a clean rerun.',
 'W01': 'Seeded schedules of requests, timer, stop, stalls and vanishing clients over the daemon sources on a simulated HttpListener, timer and thread pool; oracle: the recorded history.',
 'C06': 'Seeded pre-emptive scheduling of codec calls at branch granularity; oracle: the same calls run alone.',
}
NOTE.update(getattr(checks, 'NOTES', {}))
NA = getattr(checks, 'NOT_APPLICABLE', {})
m = dict(version=1, setup_cmd='python3 -m vf.setup',
         checks=[], not_applicable=[], notes='Deterministic simulation with fault injection; see DESIGN.md. known_findings.json lists recorded findings and repaired defects.')
for p in props:
    i = p['id']
    if i in t:
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=getattr(t[i], 'technique', 'deterministic simulation with fault injection (seeded search over schedules, inputs and faults)'),
            level='exploration', level_note=NOTE[i] + (' Assumes the models in vf/models.py represent the constructs users rely on; sampling, not proof.' if i[0] not in 'GW' else ' Sampling, not proof.')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction in this session')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), [x['property'] for x in m['not_applicable']])
