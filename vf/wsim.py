"""W01: the sources of /repo/Daemon compiled against a simulated System.Net, System.Timers and thread pool (host/w01)."""
import collections, glob, re, threading
from .common import *
from . import compiler

W = os.path.join(VERIF, 'host', 'w01')


def dotnet_root():
    return os.path.dirname(os.path.realpath(shutil.which('dotnet')))


def build():
    d = mkdir(os.path.join(BUILD, 'w01'))
    proj = os.path.join(REPO, 'Daemon', 'Daemon.fsproj')
    src = [os.path.join(REPO, 'Daemon', f.replace('\\', '/')) for f in re.findall(r'<Compile Include="([^"]*)"', open(proj).read()) if 'AssemblyInfo' not in f]
    own = [os.path.join(W, f) for f in ('Shim.fs', 'Driver.fs')]
    key = hash_files(src + own)
    if os.path.exists(d + '/.key') and open(d + '/.key').read() == key:
        return d
    root = dotnet_root()
    fsc = sorted(glob.glob(root + '/sdk/*/FSharp/fsc.dll'))[-1]
    core = os.path.join(os.path.dirname(fsc), 'FSharp.Core.dll')
    fw = sorted(glob.glob(root + '/shared/Microsoft.NETCore.App/*'))[-1]
    hidden = ('System.Net.HttpListener.dll', 'System.ComponentModel.TypeConverter.dll')     # the types simulated
    refs = ['-r:' + f for f in sorted(glob.glob(fw + '/*.dll'))
            if os.path.basename(f).startswith(('System', 'mscorlib', 'netstandard', 'Microsoft.Win32.Primitives')) and not f.endswith('Native.dll') and os.path.basename(f) not in hidden]
    common = ['dotnet', fsc, '--noframework', '--targetprofile:netcore', '--nologo', '--nowarn:3370,988', '-O', '-r:' + core] + refs
    shutil.copy2(core, d)
    for extra in (['--target:library', '-o:daemon.dll', own[0]] + src, ['-r:daemon.dll', '--target:exe', '-o:driver.dll', own[1]]):
        rc, o = sh(common + extra, cwd=d, env=compiler.ENV)
        if rc:
            raise BuildError('the daemon does not compile against the simulated world:\n' + o[-3000:])
    v = os.path.basename(fw)
    write(d + '/driver.runtimeconfig.json', json.dumps({'runtimeOptions': {'tfm': 'net' + '.'.join(v.split('.')[:2]), 'framework': {'name': 'Microsoft.NETCore.App', 'version': v}}}))
    write(d + '/.key', key)
    return d


class WCheck:
    rule = 'a run counts when at least one request reached the listener; runs are distinct when their event logs (arrivals, faults, responses, timer, stop, with times) differ; each is judged over its whole history'

    assumptions = ['the simulated HttpListener, Timer and thread pool (host/w01/Shim.fs) keep the documented contracts of the .NET classes', 'the service behind the daemon is a stub: Service.Implementation does not compile against the current front end']

    def __init__(self, quick, thorough):
        self.quick, self.thorough = quick, thorough

    def prepare(self):
        return build()

    def run(self, prop, tier):
        d = build()
        runs, wall = self.quick if tier == 'quick' else self.thorough
        reports = mkdir(os.path.join(BUILD, 'reports'))
        n = JOBS
        cpus = sorted(os.sched_getaffinity(0))
        out = [None] * n

        def go(i):
            pre = ['taskset', '-c', str(cpus[i % len(cpus)])] if shutil.which('taskset') else []
            p = subprocess.run(pre + ['dotnet', 'exec', 'driver.dll', 'search', str(SEED * 100000007 + i * 10000000), str(runs // n), reports, str(wall)], cwd=d, env=compiler.ENV,
                               capture_output=True, text=True, timeout=wall + 240)
            l = [x for x in p.stdout.splitlines() if x.startswith('{"runs"')]
            out[i] = json.loads(l[-1]) if l else dict(error=p.stderr[-1500:])
        ths = [threading.Thread(target=go, args=(i,)) for i in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        bad = [o['error'] for o in out if o and 'error' in o] + ['no result'] * out.count(None)
        if bad:
            raise RuntimeError('driver failed: ' + bad[0])
        st = collections.Counter()
        for o in out:
            st.update(o['stats'])
        viol, seen = [], set()
        for o in out:
            for v in o['viol']:
                if v['sig'] not in seen:
                    seen.add(v['sig'])
                    viol.append((v['replay'], 'seed %d: %s: %s' % (v['seed'], v['sig'], v['text'])))
        total = sum(o['runs'] for o in out)
        hours = max(o['wall'] for o in out) / 3600
        cov = dict(evaluations=total, distinct_nontrivial=sum(o['distinct'] for o in out), rule=self.rule, samples=[o['sample'] for o in out if o['sample']][:3], runs=total,
                   seeds_from=SEED * 100000007, runs_per_hour=int(total / hours), seeds_per_hour=int(total / hours), simulated_time_s=st['simulated_ms'] // 1000, scheduler_steps=st['steps'],
                   nontrivial_runs=st['probe.nontrivial'], distinct_interleavings='%d event logs, each counted once per process' % sum(o['distinct'] for o in out),
                   faults={k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault.')}, probes={k: v for k, v in sorted(st.items()) if k.startswith('probe.')},
                   determinism={'seeds_run_twice': sum(o['det'] for o in out), 'differing': sum(o['detbad'] for o in out)},
                   components={'real code': 'Daemon/*.fs (HttpServer, Watchdog, Http, Asn1ServiceBindings, Options, Program), FSharp.Core\'s async',
                               'stub': 'HttpListener and its request and response, System.Timers.Timer, thread pool, clock, CommandLine, Newtonsoft.Json, Service.Implementation (host/w01/Shim.fs)'})
        return viol, cov, set()

    def replay(self, prop, path):
        d = build()
        rc, o = sh(['dotnet', 'exec', 'driver.dll', 'replay', os.path.abspath(path)], cwd=d, env=compiler.ENV)
        print(o[-6000:])
        if rc:
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1 if rc else 0
