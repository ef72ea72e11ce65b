"""Builds the real asn1scc compiler from /repo's working tree (offline) and runs it on the models.

The NuGet packages Argu and FsToolkit.ErrorHandling are not available offline; compiler_stub/ holds
minimal stand-ins for the parts asn1scc uses.  Everything else is the code of /repo.

Output for the models is cached in /verif/gen, keyed by the hash of every source the compiler is built from plus
the model text and the options, so that checks of the C runtime need not rebuild the compiler when it is unchanged."""
import os, shutil, json, glob
from .common import *

DIRS = ['Antlr', 'BackendAst', 'CommonTypes', 'FrontEndAst', 'ST', 'StgC', 'StgAda', 'StgScala', 'StgVarious',
        'parseStg2', 'asn1scc', 'asn1scala', 'asn1crt', 'ADA_RTL2']
SRC_EXT = ('.fs', '.fsi', '.stg', '.g', '.g3', '.cs', '.fsproj', '.csproj', '.xml', '.txt', '.py', '.targets', '.props')
# sources whose text decides what code is generated (the run-time libraries are only copied)
GEN_DIRS = [d for d in DIRS if d not in ('asn1crt', 'ADA_RTL2', 'asn1scala')]
NOT_SOURCE = ('.stg.fs', 'Lexer.cs', 'Parser.cs', 'AssemblyInfo.fs', 'AssemblyInfo.cs', '.gen.fs', 'AssemblyAttributes.fs')
GEN = os.path.join(VERIF, 'gen')


def git_files(dirs):
    rc, out = sh(['git', '-C', REPO, 'ls-files', '-z', '--cached', '--others', '--exclude-standard', '--'] + dirs)
    if rc == 0 and out:
        return sorted(f for f in out.split('\0') if f and os.path.isfile(os.path.join(REPO, f)))
    r = []
    for d in dirs:
        r += [os.path.relpath(p, REPO) for p in walk(os.path.join(REPO, d))
              if not p.endswith(NOT_SOURCE)]
    return sorted(r)


def source_hash():
    h = hashlib.sha256()
    for f in git_files(GEN_DIRS):
        if not f.endswith(SRC_EXT) or f.endswith(NOT_SOURCE):
            continue
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


ENV = dict(os.environ, DOTNET_CLI_TELEMETRY_OPTOUT='1', DOTNET_NOLOGO='1', DOTNET_SKIP_FIRST_TIME_EXPERIENCE='1',
           DOTNET_GENERATE_ASPNET_CERTIFICATE='false', MSBUILDDISABLENODEREUSE='1', DOTNET_CLI_USE_MSBUILD_SERVER='0',
           HOME=os.environ.get('HOME', '/root'), LANG='C.UTF-8')


def build(dest=None, force=False):
    """build asn1scc.dll from the working tree; returns path of the dll"""
    dest = dest or os.path.join(BUILD, 'cc')
    stamp = os.path.join(dest, '.stamp')
    files = git_files(DIRS)
    key = hash_files([os.path.join(REPO, f) for f in files] + walk(os.path.join(VERIF, 'compiler_stub')))
    dll = os.path.join(dest, 'asn1scc', 'bin', 'Debug', 'net10.0', 'asn1scc.dll')
    if not force and os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(dll):
        return dll
    log('building the compiler from', REPO)
    shutil.rmtree(dest, ignore_errors=True)
    for f in files:
        d = os.path.join(dest, f)
        mkdir(os.path.dirname(d))
        shutil.copy2(os.path.join(REPO, f), d)
    shutil.copytree(os.path.join(VERIF, 'compiler_stub'), os.path.join(dest, 'Stubs'),
                    ignore=shutil.ignore_patterns('bin', 'obj'))
    import re
    for p in ('FrontEndAst/FrontEndAst.fsproj', 'asn1scc/asn1scc.fsproj'):
        q = os.path.join(dest, p)
        s = open(q).read()
        s = re.sub(r'<PackageReference Include="(FsToolkit\.ErrorHandling|Argu)"[^>]*?/>',
                   r'<ProjectReference Include="..\\Stubs\\Stubs.fsproj" />', s)
        s = re.sub(r'<PackageReference Include="(FsToolkit\.ErrorHandling|Argu)".*?</PackageReference>',
                   r'<ProjectReference Include="..\\Stubs\\Stubs.fsproj" />', s, flags=re.S)
        open(q, 'w').write(s)
    rc, out = sh(['dotnet', 'build', 'asn1scc/asn1scc.fsproj', '-nologo', '-v:m', '-clp:ErrorsOnly', '-nodeReuse:false',
                  '-p:NuGetAudit=false', '-p:RuntimeIdentifiers=', '-p:UseSharedCompilation=false',
                  '-p:RestoreSources=/usr/lib/dotnet/library-packs'], cwd=dest, env=ENV)
    if rc != 0 or not os.path.exists(dll):
        raise BuildError('compiler does not build:\n' + out[-3000:])
    write(stamp, key)
    log('compiler built')
    return dll


def run(dll, args, cwd=None, env=None, timeout=600):
    return sh(['dotnet', dll] + args, cwd=cwd, env=env or ENV, timeout=timeout)


# ---------------------------------------------------------------------------------------------- generated code cache
def gen_key(shash, spec):
    h = hashlib.sha256(shash.encode())
    for n, t in sorted(spec['files'].items()):
        h.update(n.encode() + b'\0' + t.encode() + b'\0')
    h.update(' '.join(spec['args']).encode())
    return h.hexdigest()


def generate(specs, note=None):
    """specs: {name: {'files':{fname:text}, 'args':[...], 'keep': predicate}} -> {name: dir}
    Uses /verif/gen/<name> when its key matches; otherwise rebuilds the compiler and regenerates in BUILD."""
    note = note if note is not None else {}
    shash = source_hash()
    out, todo = {}, []
    for n, sp in specs.items():
        k = gen_key(shash, sp)
        for base in (GEN, os.path.join(BUILD, 'gen')):
            d = os.path.join(base, n)
            kf = os.path.join(d, '.key')
            if os.path.exists(kf) and open(kf).read().strip() == k:
                out[n] = d
                break
        else:
            todo.append(n)
    note['compiler'] = 'generated code reused (compiler sources unchanged)' if not todo else 'rebuilt from the working tree'
    if todo:
        try:
            dll = build()
        except BuildError as e:
            # The repository's own build only parses these sources; fall back to the committed output if there is one.
            missing = [n for n in todo if not os.path.exists(os.path.join(GEN, n, '.key'))]
            if missing:
                raise
            log('compiler does not build; using the committed generated code\n' + str(e)[-800:])
            note['compiler'] = 'does not build from the working tree; committed generated code used'
            for n in todo:
                out[n] = os.path.join(GEN, n)
            return out
        from concurrent.futures import ThreadPoolExecutor

        def one(n):
            sp = specs[n]
            d = os.path.join(BUILD, 'gen', n)
            tmp = os.path.join(BUILD, 'gen_tmp', n)
            for x in (d, tmp):
                shutil.rmtree(x, ignore_errors=True)
                mkdir(x)
            o = mkdir(os.path.join(tmp, 'out'))
            names = []
            for fn, t in sorted(sp['files'].items()):
                write(os.path.join(tmp, fn), t)
                names.append(fn)
            rc, txt = run(dll, sp['args'] + ['-o', 'out'] + names, cwd=tmp)
            if rc != 0:
                raise BuildError('asn1scc failed on model %s: %s' % (n, txt[-1500:]))
            for f in sorted(os.listdir(o)):
                if os.path.isfile(os.path.join(o, f)) and sp['keep'](f):
                    shutil.copy2(os.path.join(o, f), os.path.join(d, f))
            write(os.path.join(d, '.key'), gen_key(shash, sp))
            shutil.rmtree(tmp, ignore_errors=True)
            return d
        with ThreadPoolExecutor(min(JOBS, 6)) as ex:
            for n, d in zip(todo, ex.map(one, todo)):
                out[n] = d
    return out


def refresh_committed(specs):
    """developer command: regenerate /verif/gen"""
    g = generate(specs)
    for n, d in g.items():
        t = os.path.join(GEN, n)
        if os.path.realpath(d) != os.path.realpath(t):
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)
