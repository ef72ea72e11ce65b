"""G01, G02: the compiler as a process on a simulated operating system (host/shim.c), driven by seeds.

A case is a random specification with random options.  Its base run has no faults.  Every further run of the case is the
same command under another plan: other hash seeds, clock, process id, directory order, culture, time zone, stale output
(G01), or failing, short and torn file operations, a full disk, missing inputs, a killed process (G02)."""
import base64, collections, errno, random, signal, threading
from .common import *
from . import compiler, specgen

HOSTDIR = os.path.join(VERIF, 'host')
ERR = {'o': [errno.EACCES, errno.EIO, errno.EMFILE, errno.ENOENT], 'r': [errno.EIO], 'c': [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE, errno.EIO],
       'w': [errno.ENOSPC, errno.EIO, errno.EDQUOT], 't': [errno.EIO], 'f': [errno.ENOSPC], 'm': [errno.EACCES, errno.ENOSPC, errno.EROFS], 'u': [errno.EACCES], 'n': [errno.EACCES]}
KIND = {'o': 'open-input', 'r': 'read', 'c': 'create', 'w': 'write', 't': 'truncate', 'f': 'allocate', 'm': 'mkdir', 'u': 'unlink', 'n': 'rename'}
CULTURES = ['', 'tr-TR', 'de-DE', 'ar-SA', 'th-TH', 'fa-IR', 'sv-SE', 'az-Latn-AZ', 'lt-LT', 'ja-JP']
TZS = ['UTC', 'Asia/Kathmandu', 'America/St_Johns', 'Pacific/Kiritimati']


def build_host():
    d = mkdir(os.path.join(BUILD, 'host'))
    so, dll = os.path.join(d, 'shim.so'), os.path.join(d, 'Host.dll')
    src = [os.path.join(HOSTDIR, 'shim.c'), os.path.join(HOSTDIR, 'Host.cs')]
    key = hash_files(src)
    if os.path.exists(dll + '.key') and open(dll + '.key').read() == key:
        return so, dll
    rc, o = sh(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', so, src[0], '-ldl', '-lpthread'])
    if rc:
        raise BuildError(o)
    root = os.path.realpath(shutil.which('dotnet'))
    root = os.path.dirname(root)
    import glob
    csc = sorted(glob.glob(root + '/sdk/*/Roslyn/bincore/csc.dll'))[-1]
    fw = sorted(glob.glob(root + '/packs/Microsoft.NETCore.App.Ref/*/ref/net*')) or sorted(glob.glob(root + '/shared/Microsoft.NETCore.App/*'))
    refs = [f for f in glob.glob(fw[-1] + '/*.dll') if os.path.basename(f).startswith(('System.', 'mscorlib', 'netstandard')) and not f.endswith('Native.dll')]
    rc, o = sh(['dotnet', csc, '-nologo', '-out:' + dll] + ['-r:' + f for f in refs] + [src[1]], env=compiler.ENV)
    if rc:
        raise BuildError(o[-3000:])
    write(dll + '.key', key)
    return so, dll


class Host:
    """one compiler process that executes many runs; env: environment of the process, hashseed: its random numbers"""
    def __init__(self, tools, root, env, hashseed):
        so, dll, cc = tools
        b = cc[:-4]
        e = dict(compiler.ENV, LD_PRELOAD=so, VF_ROOT=root, VF_PLAN='seed=%d' % hashseed, DOTNET_TieredPGO='0', **env)
        e.pop('VERIF_SEED', None)
        self.root = root
        self.errf = open(os.path.join(root, '.host_stderr'), 'wb')
        self.p = subprocess.Popen(['dotnet', 'exec', '--runtimeconfig', b + '.runtimeconfig.json', '--depsfile', b + '.deps.json', dll, cc], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.errf, env=e)

    def run(self, plan, culture, cwd, args, limit=240):
        """-> dict(rc, ops, fired, err, out)"""
        t = threading.Timer(limit, self.p.kill)
        t.start()
        try:
            self.p.stdin.write(('\t'.join([plan, culture, cwd] + args) + '\n').encode())
            self.p.stdin.flush()
            l = self.p.stdout.readline().decode()
        except (BrokenPipeError, OSError):
            l = ''
        hung = not t.is_alive()
        t.cancel()
        if not l:
            rc = self.p.wait()
            return dict(rc=rc, ops='', n=0, fired=-1, err='', out='', dead=True, hung=hung)
        rc, rep, er, ou = l.rstrip('\n').split('\t')
        n, fired, ops = (rep.split(' ') + ['', '', ''])[:3]
        return dict(rc=int(rc), ops=ops, n=int(n), fired=int(fired), err=base64.b64decode(er).decode('utf-8', 'replace'), out=base64.b64decode(ou).decode('utf-8', 'replace'), dead=False, hung=False)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.errf.close()


def tree(d):
    r = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as fh:
                r[os.path.relpath(q, d)] = fh.read()
    return r


def diff(base, got, inputs):
    """first output of base that is missing or different in got"""
    for f in sorted(base):
        if f in inputs:
            continue
        if f not in got:
            return '%s is missing' % f
        if got[f] != base[f]:
            a, b = base[f], got[f]
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return '%s differs at byte %d (sizes %d and %d): %r / %r' % (f, i, len(a), len(b), a[max(0, i - 20):i + 30], b[max(0, i - 20):i + 30])
    return ''


def lay(d, files, stale=None):
    shutil.rmtree(d, ignore_errors=True)
    mkdir(d)
    for f, s in files.items():
        write(os.path.join(d, f), s)
    for f, s in (stale or {}).items():
        p = os.path.join(d, f)
        if f not in files:
            write(p, s)


def stale_text(r, t):
    q = r.random()
    if not t or q < .3:
        return 'stale\n' * r.randint(0, 3000)
    if q < .6:
        k = r.randrange(len(t))
        return t[:k] + ('x' if t[k] != 'x' else 'y') + t[k + 1:]
    if q < .75:
        return t[:r.randrange(len(t))]
    return t + 'more\n' * r.randint(0, 9)


def case(seed):
    r = random.Random(seed)
    narrow = (['-wordSize', '4'] if r.random() < .2 else []) + (['-fpWordSize', '4'] if r.random() < .1 else [])
    files, acn = specgen.spec(r, '-wordSize' not in narrow, '-fpWordSize' not in narrow)
    opts, out = specgen.options(r, acn, narrow)
    if r.random() < .25:     # the user's own templates are inputs too
        t = r.choice(['generic', 'python', 'xml', 'cust_icd'])
        with open(os.path.join(REPO, 'StgVarious', ('icdtemplate_acn' if t == 'cust_icd' else t) + '.stg'), encoding='utf-8-sig', newline='') as fh:
            files[t + '.stg'] = fh.read()
        if t == 'cust_icd' and '-icdAcn' not in opts and '-ACN' in opts:
            opts += ['-customIcdAcn', 'cust_icd.stg:cust_icd.html']
        elif t != 'cust_icd':
            opts += ['-customStg', '%s.stg:cust.%s' % (t, 'xml' if t == 'xml' else 'txt')] + (['-customStgAstVersion', '4'] if r.random() < .3 else [])
    args = opts + ([] if out == '.' else ['-o', out]) + sorted(f for f in files if not f.endswith('.stg'))
    return r, files, args


class GCheck:
    assumptions = ['the generated specifications and options (vf/specgen.py) represent what users compile', 'Argu and FsToolkit.ErrorHandling behave as the stand-ins in compiler_stub/',
                   'the compiler reaches files, the clock and random numbers only through the libc calls host/shim.c intercepts (the .NET run time does)']

    def __init__(self, which, quick, thorough, rule):
        self.which, self.quick, self.thorough, self.rule = which, quick, thorough, rule

    def tools(self):
        so, dll = build_host()
        return so, dll, compiler.build()

    # ---------------------------------------------------------------- one case
    def fresh(self, root, job, plan, culture, env, hs, sub, stale=None, keep=False):
        """a run in a process of its own; kills are only possible here"""
        d = os.path.join(root, sub)
        if not keep:
            lay(d, job['files'], stale)
        for f in job.get('absent', []):
            if os.path.exists(os.path.join(d, f)) and not keep:
                os.unlink(os.path.join(d, f))
        h = Host(self._t, root, env, hs)
        try:
            x = h.run(plan, culture, d, job['args'])
        finally:
            h.close()
        x['tree'] = tree(d)
        return x

    def judge(self, job, root, note=None):
        """replays a violating job in fresh processes -> text of the violation or ''"""
        base = self.fresh(root, job, '', '', {}, 7, 'r0') if not job.get('absent') else dict(rc=0, tree={})
        if self.which == 'G01':
            got = self.fresh(root, job, job['plan'], job['culture'], job['env'], job['hash'], job.get('dir', 'r1'), job.get('stale'))
            if base['rc'] != got['rc']:
                return 'exit status %d, and %d in the other environment: %s' % (base['rc'], got['rc'], (base['err'] + got['err'])[:300])
            if base['rc'] == 0:
                return diff(base['tree'], got['tree'], job['files'])
            return ''
        got = self.fresh(root, job, job['plan'], '', {}, 7, 'r1')
        t = self.fault_oracle(job, base, got)
        if t or job.get('absent'):
            return t
        again = self.fresh(root, job, '', '', {}, 7, 'r1', keep=True)
        return self.rerun_oracle(job, base, again)

    def fault_oracle(self, job, base, got):
        if got.get('hung'):
            return 'the compiler did not end'
        if got['rc'] == 0 and (job.get('absent') or base['rc'] != 0):
            return 'exit status 0 although an input cannot be read'
        for f in job['files']:
            if f not in job.get('absent', []) and got['tree'].get(f) != (job['files'][f]).encode():
                return 'input file %s was changed' % f
        if got['rc'] == 0:
            t = diff(base['tree'], got['tree'], job['files'])
            if t:
                return 'exit status 0 but ' + t
        elif not got['dead'] and not (got['err'] + got['out']).strip():
            return 'exit status %d without a message' % got['rc']
        if got['rc'] != 0 and not job['plan'].strip() and not job.get('absent'):
            return 'exit status %d without any fault: %s' % (got['rc'], got['err'][:200])
        if got['rc'] != 0 and job['plan'] and all(p.startswith(('all=', 'short=')) for p in job['plan'].split()):
            return 'exit status %d although every operation only took smaller steps: %s' % (got['rc'], got['err'][:200])
        return ''

    def rerun_oracle(self, job, base, again):
        if again['rc'] != 0:
            return 'exit status %d when run again after the fault: %s' % (again['rc'], again['err'][:200])
        t = diff(base['tree'], again['tree'], job['files'])
        return 'run again after the fault: ' + t if t else ''

    def one(self, w, seed):
        """-> list of (job, text)"""
        r, files, args = case(seed)
        job = dict(files=files, args=args)
        root, st = w['root'], w['stats']
        bd = os.path.join(root, 'case')
        lay(bd, files)
        base = w['h1'].run('', '', bd, args)
        base['tree'] = tree(bd)
        if base['dead']:
            w['restart']('h1')
        st['runs'] += 1
        st['compiles.rc%d' % base['rc']] += 1
        if base['rc'] == 0:
            st['outputs'] += len(base['tree']) - len(files)
        w['trace'].add(hashlib.sha256(repr((args, sorted(files.items()), base['ops'])).encode()).hexdigest())
        bad = []
        if base['rc'] == 0 and len(base['tree']) > len(files):
            (self.env_runs if self.which == 'G01' else self.fault_runs)(w, r, job, base, bad)
        return bad

    def env_runs(self, w, r, job, base, bad):
        st = w['stats']
        for _ in range(4):
            j = dict(job, plan='', culture='', env=w['env'], hash=w['hash'], dir='case', stale=None)
            p = ['seed=%d' % r.randint(1, 1 << 30)]
            if r.random() < .6:
                p.append('clock=%d' % r.choice([1, 86399, 951782400, 1078012800, 2147483647, 4102444800, r.randint(10 ** 8, 4 * 10 ** 9)]))
                st['fault.clock-jump'] += 1
            if r.random() < .5:
                p.append('pid=%d' % r.randint(2, 4000000))
                st['fault.other-pid'] += 1
            if r.random() < .6:
                j['culture'] = r.choice(CULTURES)
                st['fault.culture'] += j['culture'] != ''
            if r.random() < .4:
                j['dir'] = r.choice(['x', 'deeper/down', 'n%d' % r.randint(0, 9), 'with space', 'I'])
                st['fault.other-directory'] += 1
            if r.random() < .4:
                # what an earlier run may have left: other text, the same size, a torn or longer or identical file; an existing default grammar is kept on purpose
                j['stale'] = {f: stale_text(r, b.decode('utf-8', 'replace')) for f, b in sorted(base['tree'].items())
                              if f not in job['files'] and r.random() < .5 and not ('-ACND' in job['args'] and f.endswith('.acn'))}
                j['stale'].update({'out/zz.c': 'x', 'A.asn1': 'junk', 'icd.css': 'y'} if r.random() < .5 else {})
                st['fault.stale-outputs'] += 1
            st['fault.hash-seed'] += 1
            st['fault.directory-order'] += 1
            j['plan'] = ' '.join(p)
            d = os.path.join(w['root'], 'v', j['dir'])
            shutil.rmtree(os.path.join(w['root'], 'v'), ignore_errors=True)
            lay(d, job['files'], j['stale'])
            x = w['h2'].run(j['plan'], j['culture'], d, job['args'])
            st['runs'] += 1
            st['nontrivial'] += 1
            w['ran'].add(hashlib.sha256(repr((job['args'], sorted(job['files'].items()), j['plan'], j['culture'], j['dir'], sorted((j['stale'] or {}).items()), w['hash'])).encode()).hexdigest())
            if x['dead']:
                w['restart']('h2')
            t = ('exit status %d' % x['rc']) if x['rc'] != 0 else diff(base['tree'], tree(d), job['files'])
            if t:
                bad.append((j, t))
                break
            if len(w['samples']) < 2:
                w['samples'].append(dict(arguments=job['args'], plan=j['plan'], culture=j['culture'], directory=j['dir'], env=w['env'], operations=x['ops'][:300], files=sorted(base['tree'])[:12]))

    def fault_runs(self, w, r, job, base, bad):
        st = w['stats']
        ops = [o for o in base['ops'].split(',') if o]
        if not ops:
            return
        total = sum(int(o[1:]) for o in ops if o[0] == 'w')
        for _ in range(8):
            j = dict(job, plan='')
            q = r.random()
            kill = False
            if q < .55:
                p = []
                for _ in range(1 if r.random() < .8 else 2):
                    kd = r.choice(sorted({o[0] for o in ops}))
                    k = r.choice([i for i, o in enumerate(ops) if o[0] == kd])
                    p.append('at=%d:%d' % (k, r.choice(ERR[ops[k][0]])))
                    st['fault.%s-fails' % KIND[ops[k][0]]] += 1
            elif q < .7:
                p = ['room=%d' % r.choice([0, 1, total // 2, total - 1, r.randint(0, max(1, total - 1))])]
                st['fault.disk-full'] += 1
            elif q < .8:
                p = ['all=%d' % r.choice([97, 500, 1000, 4095])]
                st['fault.all-transfers-short'] += 1
            elif q < .88:
                c = [i for i, o in enumerate(ops) if o[0] in 'rw' and int(o[1:]) > 1]
                k = r.choice(c)
                p = ['short=%d:%d' % (k, r.randint(1, int(ops[k][1:]) - 1))]
                st['fault.transfer-short'] += 1
            elif q < .94:
                p = []
                j['absent'] = [r.choice(sorted(f for f in job['files'] if f in ' '.join(job['args'])))]
                st['fault.input-missing'] += 1
            else:
                k = r.randrange(len(ops))
                p = ['kill=%d:%d' % (k, r.randint(0, max(0, int(ops[k][1:]))))]
                kill = True
                st['fault.killed'] += 1
            j['plan'] = ' '.join(p)
            d = os.path.join(w['root'], 'case')
            if kill:
                x = self.fresh(w['root'], j, j['plan'], '', {}, 7, 'case')
                st['fault.killed-fired'] += x['dead']
            else:
                lay(d, job['files'])
                for f in j.get('absent', []):
                    os.unlink(os.path.join(d, f))
                x = w['h1'].run(j['plan'], '', d, job['args'])
                if x['dead']:
                    w['restart']('h1')
                x['tree'] = tree(d)
            st['runs'] += 1
            st['fired'] += max(0, x['fired'])
            st['verdict.rc%d' % x['rc']] += 1
            if x['fired'] != 0 or j.get('absent'):
                st['nontrivial'] += 1
                w['ran'].add(hashlib.sha256(repr((job['args'], sorted(job['files'].items()), j['plan'], j.get('absent'))).encode()).hexdigest())
            t = self.fault_oracle(j, base, x)
            if not t and not j.get('absent'):
                y = w['h1'].run('', '', d, job['args'])
                if y['dead']:
                    w['restart']('h1')
                y['tree'] = tree(d)
                st['reruns'] += 1
                t = self.rerun_oracle(j, base, y)
            if t:
                bad.append((j, t))
                break
            if len(w['samples']) < 2 and x['fired']:
                w['samples'].append(dict(arguments=job['args'], plan=j['plan'], status=x['rc'], message=x['err'][:150], operations=base['ops'][:300], files=sorted(base['tree'])[:12]))

    # ---------------------------------------------------------------- search
    def worker(self, i, res, seeds, deadline):
        root = mkdir(os.path.join(self.scratch, 'w%d' % i))
        st = collections.Counter()
        w = dict(root=root, stats=st, trace=set(), ran=set(), samples=[], env={}, hash=7)

        def restart(which):
            if w.get(which):
                w[which].close()
            if which == 'h1':
                w['h1'] = Host(self._t, root, {}, 7)
            else:
                k = w['n2'] = w.get('n2', 0) + 1
                r = random.Random(SEED * 1000003 + i * 997 + k)
                w['hash'] = r.randint(1, 1 << 30)
                w['env'] = {'TZ': r.choice(TZS), 'LANG': r.choice(['C', 'C.UTF-8', 'tr_TR.UTF-8', 'de_DE.UTF-8']), 'DOTNET_PROCESSOR_COUNT': str(r.choice([1, 2, 4, 8])),
                            'DOTNET_gcServer': r.choice(['0', '0', '1']), 'DOTNET_GCgen0size': r.choice(['400000', '4000000']), 'HOME': r.choice(['/tmp', '/root']), 'USER': r.choice(['root', 'ioannis'])}
                st['processes'] += 1
                w['h2'] = Host(self._t, root, w['env'], w['hash'])
        w['restart'] = restart
        try:
            restart('h1')
            if self.which == 'G01':
                restart('h2')
            n = 0
            while time.time() < deadline:
                with self.lock:
                    if self.next >= seeds or len(res['bad']) >= 8:
                        break
                    k = self.next
                    self.next += 1
                n += 1
                if self.which == 'G01' and n % 6 == 0:
                    restart('h2')
                for b in self.one(w, SEED * 1000007 + k):
                    with self.lock:
                        res['bad'].append((SEED * 1000007 + k,) + b)
                st['cases'] += 1
                if n == 2:      # the same seed again must do the same
                    a = w['h1'].run('', '', os.path.join(root, 'case'), case(SEED * 1000007 + k)[2])
                    lay(os.path.join(root, 'case'), case(SEED * 1000007 + k)[1])
                    a = w['h1'].run('', '', os.path.join(root, 'case'), case(SEED * 1000007 + k)[2])
                    lay(os.path.join(root, 'case'), case(SEED * 1000007 + k)[1])
                    b = w['h1'].run('', '', os.path.join(root, 'case'), case(SEED * 1000007 + k)[2])
                    st['determinism.twice'] += 1
                    st['determinism.differing'] += (a['rc'], a['ops'], a['err']) != (b['rc'], b['ops'], b['err'])
        except Exception as e:
            with self.lock:
                res['err'].append(traceback_text(e))
        finally:
            for h in ('h1', 'h2'):
                if w.get(h):
                    w[h].close()
            with self.lock:
                res['w'].append(w)
            shutil.rmtree(root, ignore_errors=True)

    def minimise(self, job, root, budget=120):
        t0 = time.time()
        text = self.judge(job, root)
        if not text:
            return None, ''

        def attempt(j2):
            nonlocal job, text
            if time.time() - t0 > budget:
                return False
            t = self.judge(j2, root)
            if t:
                job, text = j2, t
                return True
            return False
        for k, v in (('stale', None), ('culture', ''), ('env', {}), ('hash', 7), ('dir', 'r1')):
            if k in job and job[k] != v:
                attempt(dict(job, **{k: v}))
        ps = job['plan'].split()
        for p in list(ps):
            if len(ps) > 1 and attempt(dict(job, plan=' '.join(q for q in ps if q != p))):
                ps.remove(p)
        a = job['args']
        i = 0
        while i < len(a):
            a = job['args']
            if i < len(a) and a[i].startswith('-') and a[i] not in ('-o', '-c', '-Ada', '-Scala'):
                n = 2 if i + 1 < len(a) and not a[i + 1].startswith('-') and a[i + 1] not in job['files'] else 1
                if attempt(dict(job, args=a[:i] + a[i + n:])):
                    continue
            i += 1
        return job, text

    def run(self, prop, tier):
        self._t = self.tools()
        self.lock = threading.Lock()
        self.next = 0
        self.scratch = tempfile.mkdtemp(prefix='vfg', dir=mkdir(os.path.join(BUILD, 'gw')))
        seeds, wall = self.quick if tier == 'quick' else self.thorough
        t0 = time.time()
        res = dict(bad=[], w=[], err=[])
        ths = [threading.Thread(target=self.worker, args=(i, res, seeds, t0 + wall)) for i in range(JOBS)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        took = time.time() - t0
        if res['err'] and not any(w['stats']['cases'] for w in res['w']):
            raise RuntimeError(res['err'][0])
        viol, st = [], collections.Counter()
        for w in res['w']:
            st.update(w['stats'])
        reports = mkdir(os.path.join(BUILD, 'reports'))
        seen = set()
        for seed, job, text in sorted(res['bad'], key=lambda b: b[0])[:5]:
            rt = mkdir(os.path.join(self.scratch, 'm%d' % seed))
            j, t = self.minimise(job, rt, 100)
            if not j:
                st['probe.only-in-a-process-with-history'] += 1
                log('seed %d: only in a process that compiled other things before: %s' % (seed, text[:300]))
                continue
            sig = j['plan'].split('=')[0] + t[:60]
            if sig in seen:
                continue
            seen.add(sig)
            p = os.path.join(reports, '%s_%d.replay' % (prop, seed))
            write(p, json.dumps(dict(property=prop, seed=seed, violation=t, job=j), indent=1))
            t2 = self.judge(j, rt)
            if t2 == t:
                viol.append((p, 'seed %d: %s; plan "%s" %s %s' % (seed, t, j['plan'], j.get('culture', ''), ' '.join(j['args']))))
            else:
                log('not reproducible, not reported: ' + t)
        shutil.rmtree(self.scratch, ignore_errors=True)
        ran = set().union(*[w['ran'] for w in res['w']]) if res['w'] else set()
        samples = [s for w in res['w'] for s in w['samples']][:3]
        hours = max(took, .01) / 3600
        cov = dict(evaluations=st['runs'], distinct_nontrivial=len(ran), rule=self.rule, samples=samples, runs=st['runs'], seeds_from=SEED * 1000007, cases=st['cases'],
                   distinct_specifications_and_options=len(set().union(*[w['trace'] for w in res['w']])), nontrivial_runs=st['nontrivial'],
                   runs_per_hour=int(st['runs'] / hours), seeds_per_hour=int(st['cases'] / hours), simulated_time_s=0,
                   simulated_time_note='the compiler sets no timers; the clock it could read is the plan\'s',
                   faults={k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault.')}, faults_fired=st['fired'],
                   probes={k: v for k, v in sorted(st.items()) if k.startswith(('compiles.', 'verdict.', 'probe.', 'reruns', 'outputs', 'processes'))},
                   determinism={'seeds_run_twice': st['determinism.twice'], 'differing': st['determinism.differing']},
                   components={'real code': 'asn1scc compiler (all F#/C# projects, templates) built from /repo, .NET run time', 'stub': 'Argu and FsToolkit.ErrorHandling (compiler_stub/), system calls on files below the scratch directory, clock, process id, random numbers, directory order (host/shim.c)'},
                   worker_errors=res['err'][:3])
        return viol, cov, set()

    def replay(self, prop, path):
        self._t = self.tools()
        job = json.load(open(path))['job']
        self.scratch = tempfile.mkdtemp(prefix='vfg', dir=mkdir(os.path.join(BUILD, 'gw')))
        t = self.judge(job, self.scratch)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print(t or 'no violation')
        if t:
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1 if t else 0


def traceback_text(e):
    import traceback
    return ''.join(traceback.format_exception(e))[-1500:]
