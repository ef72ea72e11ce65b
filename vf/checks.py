"""The registered checks: build what is needed from /repo, search, gate, report, write evidence."""
import argparse, json, traceback
from .common import *

REPORTS = os.path.join(BUILD, 'reports')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')


def known_findings():
    with open(KNOWN_FILE) as f:
        return json.load(f)


UPER = ['uper_c64', 'uper_stream', 'uper_slim', 'uper_eee', 'uper_slimeee', 'uper_ws4', 'uper_ws4s']
ACN = ['acn_c64', 'acn_stream', 'acn_slim', 'acn_eee', 'acn_def', 'acn4_c64', 'acn4_ws4']
ASSUME = ['the reference encoders and value model in sim/core.h state what X.691 and the ACN manual prescribe for the constructs of the models',
          'a node is the generated code plus asn1crt compiled with clang -O1, AddressSanitizer and array bounds checks; branch edges count as steps',
          'sampling: a clean batch is evidence, not proof']
COMPONENTS = {'real code': 'asn1scc compiler output (generated from the models by the compiler built from /repo), asn1crt C runtime, ADA_RTL2 Ada runtime (A01)',
              'stub': 'network/storage links, clock, scheduler, user push/fetch callbacks (simulator)'}


class SimCheck:
    """a scenario of the C++ simulator"""
    def __init__(self, nodes, quick, thorough, rule, wall=(200, 700), assumptions=(), known=()):
        self.nodes, self.quick, self.thorough, self.rule, self.wall = nodes, quick, thorough, rule, wall
        self.assumptions = list(assumptions)

    def prepare(self, note):
        from . import nodes as N
        exe = N.build_sim()
        so = N.build_nodes([n for n in self.nodes if n in N.NODES], note)
        cmd = [exe]
        ad = [n for n in self.nodes if n in N.ADA]
        for n, p in (N.build_ada(ad, note) if ad else {}).items():
            cmd += ['--ada', n, N.ADA[n][0], p]
        for n in self.nodes:
            if n in so:
                cmd += ['--node', n, N.NODES[n][0], so[n]]
        return cmd

    def known_args(self, prop):
        r = []
        for k in known_findings()['findings']:
            if prop in k['properties']:
                for s in k['signatures']:
                    r += ['--known', s]
        return r

    def replay(self, prop, path):
        cmd = self.prepare({}) + ['--prop', prop, '--replay', path]
        rc, out = sh(cmd)
        rc2, _ = sh(cmd + ['-v'], stdout=None, stderr=None)
        print(out.strip())
        if rc == 1:
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1 if rc == 1 else 0

    def run(self, prop, tier):
        note = {}
        cmd = self.prepare(note) + self.known_args(prop) + ['--prop', prop]
        out = os.path.join(mkdir(os.path.join(BUILD, 'out')), prop + '.json')
        if os.path.exists(out):
            os.unlink(out)
        mkdir(REPORTS)
        seeds, wall = (self.quick, self.wall[0]) if tier == 'quick' else (self.thorough, self.wall[1])
        log('searching', seeds, 'seeds')
        rc, txt = sh(cmd + ['--seeds', str(seeds), '--base', str(SEED), '--workers', str(JOBS), '--wall', str(wall), '--out', out,
                            '--repdir', REPORTS, '--minimise', '25'])
        if not os.path.exists(out):
            raise RuntimeError('the simulator did not finish (%d): %s' % (rc, txt[-2000:]))
        o = json.load(open(out))
        log('%d runs in %.1f s' % (o['runs'], o['wall']))
        viol = []
        for v in o['violations']:
            if v['again'] and v['replay']:
                # a fresh process must reproduce it from the replay file
                rc1, t1 = sh(cmd + ['--replay', v['replay']])
                rc2, t2 = sh(cmd + ['--replay', v['replay']])
                v['fresh'] = rc1 == 1 and rc2 == 1 and t1 == t2
            else:
                v['fresh'] = False
        good = [v for v in o['violations'] if v['fresh']]
        rest = [v for v in o['violations'] if not v['fresh']]
        for v in good:
            viol.append((v['replay'], v['sig'] + ' -- ' + v['text']))
        if not good:
            for v in rest:      # the failing seed itself is the replay when minimising or exact repetition did not work
                p = os.path.join(REPORTS, '%s_seed_%d.replay' % (prop, v['seed']))
                write(p, '# replay file: property %s\n# violation %s\n# %s\nseed %d\n' % (prop, v['sig'], v['text'], v['seed']))
                hits = sum(sh(cmd + ['--replay', p])[0] == 1 for _ in range(3))
                if hits == 3:
                    viol.append((p, v['sig'] + ' -- ' + v['text']))
                else:
                    log('not reproducible, not reported: %s (%d of 3)' % (v['sig'], hits))
        st = o['stats']
        hours = max(o['wall'], 0.01) / 3600
        samples = []
        for k in (3, 11):
            p = os.path.join(REPORTS, 'sample_%s_%d.replay' % (prop, k))
            write(p, '# replay file: property %s\nseed %d\n' % (prop, SEED * 1000000007 + k))
            samples.append({'seed': SEED * 1000000007 + k, 'trace': sh(cmd + ['--replay', p, '-v'])[1][:1500].splitlines()})
        cov = dict(
            evaluations=o['runs'], distinct_nontrivial=o['distinct_nontrivial'],
            rule=self.rule + ' distinct: by hash of the full event trace.',
            samples=samples, runs=o['runs'], seeds_from=SEED * 1000000007, nontrivial_runs=o['nontrivial'], distinct_traces=o['distinct_traces'],
            runs_per_hour=int(o['runs'] / hours), seeds_per_hour=int(o['runs'] / hours),
            simulated_time_s=round(o['sim_us'] / 1e6, 3), code_steps=o['steps'], codec_calls=o['messages'], decisions_drawn=o['draws'],
            faults={k[6:]: v for k, v in st.items() if k.startswith('fault.')},
            probes={k: v for k, v in st.items() if not k.startswith(('fault.', 'known:'))},
            known_hits={k[6:]: v for k, v in st.items() if k.startswith('known:')},
            branch_edges_reached=o['edges'], branch_edges_in_loaded_nodes=o['edges_total'],
            determinism={'seeds_run_twice': o['determinism_checked'], 'differing': o['determinism_failed']},
            nodes=self.nodes, components=COMPONENTS, build=note)
        return viol, cov, {k['sig'] for k in o['known']} | {k[6:] for k in st if k.startswith('known:')}


def table():
    t = {}
    t['S01'] = SimCheck(['uper_stream', 'acn_stream', 'uper_ws4s', 'uper_c64', 'acn_c64', 'rtl_c64', 'rtl_stream'], 60000, 1500000,
        'Each run: 1-3 sender tasks encode 1-4 generated values at random bit phases through a buffer of random size into a simulated link; non-trivial: a message crossed at least one block.')
    t['S02'] = SimCheck(['uper_stream', 'acn_stream', 'uper_ws4s', 'uper_c64', 'acn_c64', 'uper_ws4', 'rtl_c64', 'rtl_stream'], 60000, 1500000,
        'Each run: 1-2 receiver tasks decode 1-4 messages (35% damaged) arriving in random segments through a buffer of random size; non-trivial: a message needed more than one block.')
    t['S03'] = SimCheck(['uper_c64', 'acn_c64', 'uper_stream', 'acn_stream', 'uper_slim', 'acn_slim', 'rtl_c64', 'rtl_stream'], 60000, 1500000,
        'Each run: a log of 1-5 messages cut at a random byte, then decoded whole or streamed; non-trivial: some bytes survive the cut.')
    t['C01'] = SimCheck(['uper_c64', 'acn_c64', 'uper_slim', 'acn_slim', 'uper_ws4', 'acn_def', 'acn4_ws4', 'uper_stream', 'acn_stream', 'def_c64', 'def_def', 'rtl_c64', 'rtl_ws4'], 60000, 1500000,
        'Each run: 4-8 decodes of random bytes or damaged encodings by a random node; every run is non-trivial when it fed such input.')
    t['C02'] = SimCheck(['uper_c64', 'acn_c64', 'uper_slim', 'acn_slim', 'uper_ws4', 'acn_def', 'acn4_ws4', 'uper_stream', 'acn_stream', 'def_c64', 'def_def', 'rtl_c64', 'rtl_ws4'], 60000, 1500000,
        'Each run: 3-6 large valid values encoded into a buffer of exactly the advertised size; non-trivial: some encoding used all of it.')
    t['C03'] = SimCheck(['uper_c64', 'uper_stream', 'uper_slim', 'uper_eee', 'uper_ws4', 'uper_slimeee'] + ACN + ['def_c64', 'def_def', 'rtl_c64', 'rtl_stream', 'rtl_ws4'], 40000, 1000000,
        'Each run: 1-3 valid values at random bit phases, encoded and decoded by every node of a family and compared with the reference encoder; non-trivial: at least one exchange took place.')
    t['C04'] = SimCheck(['uper_c64', 'acn_c64', 'uper_slim', 'acn_slim', 'uper_eee', 'uper_ws4', 'acn_def', 'acn4_ws4', 'uper_stream', 'acn_stream', 'def_c64', 'def_def', 'rtl_c64', 'rtl_ws4'], 60000, 1500000,
        'Each run: 4-8 values, up to two fields of each corrupted in memory, judged and encoded; non-trivial: some value was refused.')
    t['C05'] = SimCheck(['uper_c64', 'acn_c64', 'uper_slim', 'acn_slim', 'uper_stream', 'acn_stream', 'acn_def', 'def_c64', 'def_def', 'uper_ws4', 'rtl_c64', 'rtl_ws4'], 60000, 1500000,
        'Each run: 2-4 byte strings decoded repeatedly with different destination/stack contents, histories and trailing bytes; non-trivial: at least one such variation was applied.')
    t['C06'] = SimCheck(['uper_c64', 'acn_c64', 'uper_stream', 'acn_stream', 'acn_def', 'def_c64', 'def_def', 'rtl_c64', 'xer_c64'], 40000, 1000000,
        'Each run: 2-4 codec calls interleaved by a seeded scheduler at branch granularity and compared with running alone; non-trivial: a task was pre-empted inside a call.')
    t['D01'] = SimCheck(['rtl_c64', 'rtl_ws4', 'def_c64', 'def_def'], 60000, 1500000,
        'Each run: a history of up to 12 reserve / patch / write steps on the determinant functions, or 1-3 messages whose determinants stand in headers encoded by both modes; non-trivial: a determinant was patched.')
    t['X01'] = SimCheck(['xer_c64'], 40000, 800000,
        'Each run: a sequence of 1-4 loads (and interleaved loads by concurrent tasks) of generated XML files through simulated file handles with open failures, read errors, short reads, torn files and undersized buffers; non-trivial: a fault fired, a load succeeded or loads were interleaved.')
    t['X02'] = SimCheck(['xer_c64'], 80000, 1500000,
        'Each run: a valid value encoded to XER, the text re-laid out (white space, comments, XML header) or damaged (token and byte edits, truncation at every kind of place, structural changes) and decoded; non-trivial: a round trip, a relayout or a damage that must be rejected.')
    t['A01'] = SimCheck(['uper_c64', 'acn_c64', 'def_c64', 'uper_ada', 'acn_ada', 'def_ada'], 50000, 900000,
        'Each run: 1-3 exchanges between a C node and an Ada node built from the same specification (values at random bit phases, stale destination contents, damaged messages); non-trivial: a damaged message was judged by both or a value made the round trip.')
    from .gsim import GCheck
    from .wsim import WCheck
    t['G01'] = GCheck('G01', (100000, 170), (1000000, 700),
        'Each case: a random specification (ASN.1 and ACN) with random options, compiled once undisturbed and four times in another environment (hash seeds, clock, process id, directory order, culture, time zone, directory, stale outputs); distinct: by specification, options and environment.')
    t['G02'] = GCheck('G02', (100000, 170), (1000000, 700),
        'Each case: a random specification with random options, compiled once undisturbed and eight times with failing, short or torn file operations, a full disk, a missing input or a kill, then again without; non-trivial: the fault fired.')
    t['W01'] = WCheck((400000, 120), (4000000, 700))
    return t


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    t0 = time.time()
    chk = table()[a.property]
    if a.replay:
        return chk.replay(a.property, a.replay)
    viol, cov, hit = chk.run(a.property, a.tier)
    for k in known_findings()['findings']:
        if a.property in k['properties']:
            seen = any(h == s or (s.endswith('*') and h.startswith(s[:-1])) or s.startswith(h) for h in hit for s in k['signatures'])
            print('KNOWN-FINDING: property=%s %s%s' % (a.property, k['what'], '' if seen else ' (not met in this run)'))
    ev = dict(property=a.property, tier=a.tier, seed=SEED, level='exploration', coverage=cov, assumptions=(ASSUME if isinstance(chk, SimCheck) else ASSUME[-1:]) + getattr(chk, 'assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    write(os.path.join(VERIF, 'evidence', a.property + '.json'), json.dumps(ev, indent=1) + '\n')
    for p, text in viol:
        print('VIOLATION property=%s replay=%s' % (a.property, p))
        print('  ' + text[:600])
    if not viol:
        print('OK property=%s: %d runs, %d distinct non-trivial' % (a.property, cov['evaluations'], cov['distinct_nontrivial']))
    return 1 if viol else 0
