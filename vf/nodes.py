"""Builds the simulated nodes (shared objects) and the simulator itself from /repo's working tree."""
import threading
from .common import *
from . import ada, compiler, models, rtl

SAN = ['-fsanitize=address,bounds', '-fsanitize-trap=bounds', '-fsanitize-coverage=trace-pc-guard']
RT = ['asn1crt.c', 'asn1crt_encoding.c', 'asn1crt_encoding_uper.c', 'asn1crt_encoding_acn.c']
# node -> (model, generated-code variant, extra compiler options of asn1scc, C macros)
NODES = {
    'uper_c64': ('uper', 'uper', [], []),
    'uper_stream': ('uper', 'uper', [], ['-DASN1SCC_STREAMING']),
    'uper_slim': ('uper', 'uper_slim', ['-slim'], []),
    'uper_eee': ('uper', 'uper_eee', ['-eee', '2'], []),
    'uper_slimeee': ('uper', 'uper_slimeee', ['-slim', '-eee', '2'], []),
    'uper_ws4': ('uper', 'uper_ws4', ['-wordSize', '4'], ['-DWORD_SIZE=4']),
    'uper_ws4s': ('uper', 'uper_ws4', ['-wordSize', '4'], ['-DWORD_SIZE=4', '-DASN1SCC_STREAMING']),
    'acn_c64': ('acn', 'acn', [], []),
    'acn_stream': ('acn', 'acn', [], ['-DASN1SCC_STREAMING']),
    'acn_slim': ('acn', 'acn_slim', ['-slim'], []),
    'acn_eee': ('acn', 'acn_eee', ['-eee', '2'], []),
    'acn_def': ('acn', 'acn_def', ['-acnDeferred'], []),
    'acn4_c64': ('acn4', 'acn4', [], []),
    'acn4_ws4': ('acn4', 'acn4_ws4', ['-wordSize', '4'], ['-DWORD_SIZE=4']),
    'def_c64': ('def', 'def', [], []),
    'def_def': ('def', 'def_def', ['-acnDeferred'], []),
    'rtl_c64': ('rtl', 'rtl', [], []),
    'rtl_stream': ('rtl', 'rtl', [], ['-DASN1SCC_STREAMING']),
    'rtl_ws4': ('rtl4', 'rtl4', [], ['-DWORD_SIZE=4']),
    'xer_c64': ('xer', 'xer', [], ['-DVF_XER']),
}
# Ada nodes: (model, generated-code variant, extra compiler options)
ADA = {
    'uper_ada': ('uper', 'uper_a', []),
    'acn_ada': ('acn', 'acn_a', []),
    'def_ada': ('def', 'def_a', []),
}
ENCOPT = {'uper': '-uPER', 'acn': '-ACN', 'acn4': '-ACN', 'def': '-ACN', 'xer': '-XER'}
MODELS = None
DIRECT = ('rtl', 'rtl4')      # hand-written codecs over the run-time library, no generated code


def get_models():
    global MODELS
    if MODELS is None:
        MODELS = {}
        for f in (models.uper_model, models.xer_model, models.acn_model, lambda: models.acn_model(True), models.def_model, lambda: rtl.model(8), lambda: rtl.model(4)):
            models.REG.clear()
            m = f()
            # everything derived from a model is produced now, while the type registry is this model's
            kind = 'uper' if m.name == 'uper' else 'xer' if m.name == 'xer' else 'acn'
            m.T_files = m.files(kind == 'acn')
            m.T_glue = m.glue_c(kind)
            m.T_desc = m.desc_cpp()
            m.T_ada = ada.glue(m, kind) if m.name in ('uper', 'acn', 'def') else None
            MODELS[m.name] = m
    return MODELS


def specs(variants):
    ms = get_models()
    r = {}
    for n, (model, var, opts, _) in NODES.items():
        if var in variants and model not in DIRECT:
            r[var] = {'files': ms[model].T_files, 'args': ['-c', ENCOPT[model], '-equal'] + opts,
                      'keep': lambda f: f.endswith(('.c', '.h')) and not f.startswith('asn1crt')}
    for n, (model, var, opts) in ADA.items():
        if var in variants:
            r[var] = {'files': ms[model].T_files, 'args': ['-Ada', ENCOPT[model], '-equal'] + opts,
                      'keep': lambda f: f.endswith(('.adb', '.ads')) and not f.startswith('adaasn1rtl')}
    return r


def rt_sources():
    return [os.path.join(REPO, 'asn1crt', f) for f in sorted(os.listdir(os.path.join(REPO, 'asn1crt'))) if f.endswith(('.c', '.h'))]


def build_nodes(names, note=None):
    """-> {node: path of .so}; compiles what is out of date"""
    ms = get_models()
    sp = specs({NODES[n][1] for n in names})
    gen = compiler.generate(sp, note) if sp else {}
    for n in names:
        model, var = NODES[n][:2]
        if model in DIRECT:
            gen[var] = mkdir(os.path.join(BUILD, 'direct', var))
            for f, s in ms[model].direct.items():
                p = os.path.join(gen[var], f)
                if not os.path.exists(p) or open(p).read() != s:
                    write(p, s)
    sim = os.path.join(VERIF, 'sim')
    rthash = hash_files(rt_sources() + [os.path.join(sim, f) for f in ('nodeapi.h', 'glue.h', 'node_rt.c')], ' '.join(SAN))
    out, jobs, links = {}, [], []
    seen = set()
    for n in names:
        model, var, _, macros = NODES[n]
        g = gen[var]
        mod = ms[model].module
        key = hash_files([os.path.join(g, f) for f in sorted(os.listdir(g)) if not f.startswith('.')], rthash + ms[model].T_glue + ' '.join(macros))
        d = mkdir(os.path.join(BUILD, 'nodes', n))
        so = os.path.join(d, 'node_%s.so' % n)
        out[n] = so
        if os.path.exists(so) and os.path.exists(so + '.key') and open(so + '.key').read() == key:
            continue
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        write(os.path.join(d, 'glue.c'), ms[model].T_glue)
        srcs = [(os.path.join(REPO, 'asn1crt', f), f) for f in (RT if 'VF_XER' not in ' '.join(macros) else RT + ['asn1crt_encoding_xer.c'])]
        srcs += [(os.path.join(g, mod + '.c'), mod + '.c'), (os.path.join(d, 'glue.c'), 'glue.c'), (os.path.join(sim, 'node_rt.c'), 'node_rt.c')]
        objs = []
        for s, b in srcs:
            o = os.path.join(d, b[:-2] + '.o')
            objs.append(o)
            # only the code under test is instrumented for steps; the glue is not
            san = SAN if b not in ('glue.c', 'node_rt.c') else ['-fsanitize=address']
            extra = ['-Dfopen=vf_fopen'] if b == 'asn1crt_encoding_xer.c' else []     # the simulated file system
            jobs.append((o, ['clang', '-O1', '-g1', '-fPIC', '-w', '-fno-omit-frame-pointer'] + san + macros + extra +
                         ['-I', sim, '-I', os.path.join(REPO, 'asn1crt'), '-I', g, '-c', s, '-o', o], {}))
        links.append((n, so, objs, key))
    if jobs:
        log('compiling %d objects for nodes %s' % (len(jobs), ' '.join(l[0] for l in links)))
        r = parallel(jobs)
        bad = [(k, o) for k, (rc, o) in r.items() if rc != 0]
        # a hand-written node is left out when the interface it calls is gone: no verdict about behaviour follows from that
        lost = {l[0] for l in links if NODES[l[0]][0] in DIRECT and any(k in l[2] for k, _ in bad)}
        for n in lost:
            log('node %s does not compile and is left out' % n)
            out.pop(n)
        links = [l for l in links if l[0] not in lost]
        bad = [(k, o) for k, o in bad if any(k in l[2] for l in links)]
        if bad:
            raise BuildError('node does not compile: %s\n%s' % (bad[0][0], bad[0][1][-3000:]))
        r = parallel([(n, ['clang', '-shared', '-fsanitize=address', '-Wl,-Bsymbolic', '-o', so] + objs + ['-lm'], {}) for n, so, objs, _ in links])
        for n, so, objs, key in links:
            if r[n][0] != 0:
                raise BuildError('node does not link: ' + r[n][1][-2000:])
            write(so + '.key', key)
    return out


def build_ada(names, note=None):
    """-> {node: path of .so}"""
    ms = get_models()
    gen = compiler.generate(specs({ADA[n][1] for n in names}), note)
    rt = os.path.join(REPO, 'ADA_RTL2', 'src')
    rts = [os.path.join(rt, f) for f in sorted(os.listdir(rt)) if f.endswith(('.adb', '.ads'))]
    out, jobs, todo = {}, [], []
    for n in names:
        model, var, _ = ADA[n]
        g = gen[var]
        key = hash_files([os.path.join(g, f) for f in sorted(os.listdir(g)) if not f.startswith('.')] + rts, ''.join(ms[model].T_ada) + ' '.join(ada.ADAFLAGS))
        d = mkdir(os.path.join(BUILD, 'nodes', n))
        so = os.path.join(d, 'node_%s.so' % n)
        out[n] = so
        if os.path.exists(so) and os.path.exists(so + '.key') and open(so + '.key').read() == key:
            continue
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        write(os.path.join(d, 'vf_glue.ads'), ms[model].T_ada[0])
        write(os.path.join(d, 'vf_glue.adb'), ms[model].T_ada[1])
        mods = [os.path.join(g, f) for f in sorted(os.listdir(g)) if f.endswith('.adb')] + [os.path.join(g, 'board_config.ads')]
        mods += [os.path.join(rt, f + '.adb') for f in ada.RTL] + [os.path.join(d, 'vf_glue.adb')]
        for s in mods:
            glue = s.endswith('vf_glue.adb')
            jobs.append((s + ' of ' + n, ['gcc', '-c'] + ada.ADAFLAGS + ([] if glue else ['-fsanitize-coverage=trace-pc']) + ['-I' + d, '-I' + g, '-I' + rt, s], {'cwd': d}))
        todo.append((n, d, so, key, g, rt))
    if jobs:
        log('compiling %d Ada units' % len(jobs))
        r = parallel(jobs)
        bad = [(k, o) for k, (rc, o) in r.items() if rc != 0]
        if bad:
            raise BuildError('Ada node does not compile: %s\n%s' % (bad[0][0], bad[0][1][-3000:]))
        for n, d, so, key, g, rt in todo:
            for c in (['gnatbind', '-n', '-Lvfa', '-I' + g, '-I' + rt, 'vf_glue.ali'], ['gcc', '-c', '-gnatws', '-fPIC', 'b~vf_glue.adb', '-I' + g, '-I' + rt]):
                rc, o = sh(c, cwd=d)
                if rc:
                    raise BuildError('Ada node does not bind:\n' + o[-2000:])
            objs = [f for f in sorted(os.listdir(d)) if f.endswith('.o')]
            lib = sh(['gcc', '-print-file-name=adalib'])[1].strip()
            rc, o = sh(['gcc', '-shared', '-Wl,-Bsymbolic', '-o', so] + objs + ['-L' + lib, '-Wl,-rpath,' + lib, '-lgnat', '-lm'], cwd=d)
            if rc:
                raise BuildError('Ada node does not link:\n' + o[-2000:])
            write(so + '.key', key)
    return out


def build_sim():
    ms = get_models()
    d = mkdir(os.path.join(BUILD, 'sim'))
    s = ''.join(m.T_desc for m in ms.values())
    s += 'static void build_models() { Model* m;\n' + ''.join('m = new Model; model_%s(m); models["%s"] = m;\n' % (m.name, m.name) for m in ms.values()) + '}\n'
    simd = os.path.join(VERIF, 'sim')
    exe = os.path.join(d, 'sim')
    key = hash_files([os.path.join(simd, f) for f in ('core.h', 'world.h', 'sim.cpp', 'more.h', 'xer.h', 'ada.h', 'nodeapi.h')], s)
    if os.path.exists(exe) and os.path.exists(exe + '.key') and open(exe + '.key').read() == key:
        return exe
    write(os.path.join(d, 'models_gen.h'), s)
    log('compiling the simulator')
    rc, o = sh(['clang++', '-std=c++17', '-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-I', d, '-I', simd, os.path.join(simd, 'sim.cpp'), '-o', exe,
                '-fsanitize=address', '-mllvm', '-asan-instrument-reads=0', '-mllvm', '-asan-instrument-writes=0', '-mllvm', '-asan-stack=0', '-mllvm', '-asan-globals=0', '-mllvm', '-asan-instrument-atomics=0', '-rdynamic', '-ldl', '-lpthread'])
    if rc:
        raise BuildError('simulator does not compile:\n' + o[-4000:])
    write(exe + '.key', key)
    return exe
