"""Rebuild the verification artefacts from /repo's current working tree.

  deps(cpu)           third-party dependencies, compiled by cargo for that CPU (cached by lock-file hash)
  bitcode(cpu, mode)  /repo/src/lib.rs itself -> LLVM bitcode + metadata (+ native rlib), recompiled whenever any source byte changes
  module(cpu, mode, name, src, fns) -> textual IR of the harness wrappers with the crate's code inlined
  native(cpu, mode, name, src)      -> cdylib of the same harness, for replay
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import threading

REPO = os.environ.get('VF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.environ.get('VF_CACHE', os.path.join(VERIF, '.cache'))
CPUS = ['x86-64', 'nehalem', 'haswell']
TOOLCHAIN = 'nightly-2020-07-01'
KEEP = 6


class BuildError(Exception):
    pass


def cargo_home():
    """a private CARGO_HOME with the offline configuration (cargo writes a lock file there)"""
    h = os.path.join(CACHE, 'cargo-home')
    if not os.path.exists(h + '/config'):
        os.makedirs(h, exist_ok=True)
        t = '%s/config.%d.%d' % (h, os.getpid(), threading.get_ident())
        shutil.copy('/opt/vp/cargo-home/config', t)
        os.replace(t, h + '/config')
    return h


def env(cpu):
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_HOME'] = cargo_home()
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    return e


def run(cmd, cwd=None, e=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = r.stdout.decode('utf8', 'replace')
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:400], out[-4000:]))
    return out


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.path = path

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _files(*pats):
    h = hashlib.sha256()
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, p), recursive=True)):
            if os.path.isfile(f):
                h.update(os.path.relpath(f, REPO).encode() + b'\0')
                h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def source_hash():
    return _files('src/**/*', 'Cargo.toml')


def deps(cpu):
    """directory with the compiled dependencies"""
    k = hashlib.sha256((_files('Cargo.toml') + TOOLCHAIN).encode()).hexdigest()[:12]
    d = os.path.join(CACHE, 'deps-%s-%s' % (cpu, k))
    with Lock(os.path.join(CACHE, 'lock-deps-' + cpu)):
        if os.path.exists(d + '/done'):
            return d + '/debug/deps'
        for old in glob.glob(os.path.join(CACHE, 'deps-%s-*' % cpu)):
            shutil.rmtree(old, ignore_errors=True)
        e = env(cpu)
        e['RUSTFLAGS'] = '-C target-cpu=%s' % cpu
        e['CARGO_TARGET_DIR'] = d
        e['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
        e['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'false'
        e['CARGO_PROFILE_DEV_DEBUG'] = '0'
        e['CARGO_INCREMENTAL'] = '0'
        src = os.path.join(CACHE, 'depsrc-' + cpu)
        shutil.rmtree(src, ignore_errors=True)
        os.makedirs(src + '/src')
        shutil.copy(os.path.join(REPO, 'Cargo.toml'), src)
        shutil.copy(os.path.join(REPO, 'Cargo.lock') if os.path.exists(os.path.join(REPO, 'Cargo.lock')) else '/opt/vp/Cargo.lock', src)
        # the dependencies only: an empty crate with the same manifest
        open(src + '/src/lib.rs', 'w').write('#![no_std]\n')
        for x in ('benches', 'examples', 'tests'):
            if os.path.isdir(os.path.join(REPO, x)):
                shutil.copytree(os.path.join(REPO, x), os.path.join(src, x))
        run(['cargo', 'build', '--offline', '--lib', '--manifest-path', src + '/Cargo.toml'], cwd=src, e=e)
        shutil.rmtree(src, ignore_errors=True)
        open(d + '/done', 'w').close()
    return d + '/debug/deps'


def flags(cpu, D, mode):
    ov = 'on' if 'o' in mode else 'off'
    da = 'on' if 'd' in mode else 'off'
    return ['-C', 'target-cpu=' + cpu, '--edition', '2018', '-C', 'panic=abort', '-C', 'codegen-units=1', '-C', 'debug-assertions=' + da,
            '-C', 'overflow-checks=' + ov, '-A', 'warnings', '-L', 'dependency=' + D]


IRF = ['-C', 'opt-level=3', '-C', 'passes=name-anon-globals', '-C', 'no-prepopulate-passes']
FEAT = ['--cfg', 'feature="default"', '--cfg', 'feature="std"']


def externs(D):
    def one(n):
        g = sorted(glob.glob('%s/lib%s-*.rlib' % (D, n)))
        if not g:
            raise BuildError('dependency %s missing in %s' % (n, D))
        return g[0]
    return ['--extern', 'packed_simd=' + one('packed_simd_2'), '--extern', 'vektor=' + one('vektor')]


def crate(cpu, mode):
    """compile /repo/src for verification; returns (dir, depsdir)"""
    D = deps(cpu)
    h = source_hash()
    d = os.path.join(CACHE, 'crate-%s-%s-%s' % (cpu, mode, h))
    with Lock(os.path.join(CACHE, 'lock-crate-%s-%s' % (cpu, mode))):
        if os.path.exists(d + '/done'):
            os.utime(d)
            return d, D
        old = sorted(glob.glob(os.path.join(CACHE, 'crate-%s-%s-*' % (cpu, mode))), key=os.path.getmtime)
        for o in old[:-1] if len(old) > 1 else []:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        run(['rustc'] + flags(cpu, D, mode) + IRF + ['--crate-type', 'rlib', '--crate-name', 'faster'] + FEAT +
            ['--emit=llvm-bc,metadata', '--out-dir', d] + externs(D) + [REPO + '/src/lib.rs'], cwd=REPO, e=env(cpu))
        open(d + '/done', 'w').close()
    return d, D


PIPE = 'internalize,always-inline,cgscc(inline),globaldce,function(sroa,simplifycfg),globaldce'


def module(cpu, mode, name, src, fns, pipe=PIPE):
    """textual IR for the harness source `src` linked against the crate"""
    d, D = crate(cpu, mode)
    hh = hashlib.sha256((src + pipe + ','.join(fns)).encode()).hexdigest()[:12]
    ll = os.path.join(d, '%s-%s.ll' % (name, hh))
    if os.path.exists(ll):
        return open(ll).read()
    w = os.path.join(d, 'w-%s-%s-%d' % (name, hh, os.getpid()))
    os.makedirs(w, exist_ok=True)
    try:
        open(w + '/h.rs', 'w').write(src)
        run(['rustc'] + flags(cpu, D, mode) + IRF + ['--crate-type', 'lib', '--crate-name', 'h', '--emit=llvm-bc', '--out-dir', w,
             '--extern', 'faster=%s/libfaster.rmeta' % d, w + '/h.rs'], e=env(cpu))
        run(['llvm-link', w + '/h.bc', d + '/faster.bc', '-o', w + '/all.bc'])
        run(['opt', '-passes=' + pipe, '-internalize-public-api-list=' + ','.join(fns), '-inline-threshold=100000', w + '/all.bc', '-S', '-o', w + '/o.ll'])
        os.replace(w + '/o.ll', ll)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return open(ll).read()


def nativelib(cpu, mode):
    """native rlib of the crate (for replay)"""
    d, D = crate(cpu, mode)
    with Lock(os.path.join(CACHE, 'lock-native-%s-%s' % (cpu, mode))):
        if not os.path.exists(d + '/native/done'):
            os.makedirs(d + '/native', exist_ok=True)
            run(['rustc'] + flags(cpu, D, mode) + ['-C', 'opt-level=1', '--crate-type', 'rlib', '--crate-name', 'faster'] + FEAT +
                ['--emit=link,metadata', '--out-dir', d + '/native'] + externs(D) + [REPO + '/src/lib.rs'], cwd=REPO, e=env(cpu))
            open(d + '/native/done', 'w').close()
    return d, D


def native(cpu, mode, name, src, opt='1'):
    d, D = nativelib(cpu, mode)
    hh = hashlib.sha256(src.encode()).hexdigest()[:12]
    so = os.path.join(d, '%s-%s-%s.so' % (name, hh, opt))
    if os.path.exists(so):
        return so
    w = os.path.join(d, 'n-%s-%s-%d' % (name, hh, os.getpid()))
    os.makedirs(w, exist_ok=True)
    try:
        open(w + '/h.rs', 'w').write(src)
        run(['rustc'] + flags(cpu, D, mode) + ['-C', 'opt-level=' + opt, '--crate-type', 'cdylib', '--crate-name', 'h', '-o', w + '/h.so',
             '--extern', 'faster=%s/native/libfaster.rlib' % d, w + '/h.rs'], e=env(cpu))
        os.replace(w + '/h.so', so)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return so


def cpu_features(cpu):
    out = run(['rustc', '--print', 'cfg', '-C', 'target-cpu=' + cpu], e=env(cpu))
    fs = set()
    for ln in out.split('\n'):
        if ln.startswith('target_feature="'):
            fs.add(ln.split('"')[1])
    if 'popcnt' in fs:
        pass
    return fs
