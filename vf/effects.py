"""C23: the effect contract of every vector operation, on every target: `instructions used <= instructions the target has`.

Each function carries the set of features it may use: those that its attribute group enables beyond the target, and those of
the x86 intrinsics it calls. The contract of a wrapper is that the target has them; an obligation is made for every function
of the linked module that the wrapper reaches through the names it mentions (a superset of its calls), and for every x86
intrinsic that one of these mentions. There are no inputs: the selection is made at compile time. LLVM uses no instruction
beyond the target's and the function's own features, and there is no inline assembly (an obligation as well)."""
import re
import time
from . import ir, ops, build
from .sym import x86_feature

CPUS = ['x86-64', 'nocona', 'core2', 'penryn', 'nehalem', 'sandybridge', 'haswell']     # SSE2, SSE3, SSSE3, SSE4.1, SSE4.2, AVX, AVX2
PROPS = ['C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22']
# names that LLVM uses for what rustc calls otherwise
ALIAS = {'bmi': 'bmi1', 'cx16': 'cmpxchg16b', 'pclmul': 'pclmulqdq'}
BASE = {'sse', 'sse2', 'fxsr', 'mmx', 'x87', 'cx8', 'sahf', '64bit'}
_NAME = re.compile(r'@("[^"]*"|[\w.$-]+)')


def facts(mod, name):
    """(features needed by the function itself, names mentioned, has inline assembly)"""
    memo = mod.__dict__.setdefault('_effects', {})
    if name not in memo:
        f = mod.funcs[name]
        raw = '\n'.join(getattr(f, 'raw', None) or [])
        need = {ALIAS.get(x, x): 'function' for x in ir.feats(f, mod)} if not f.declared_only else {}
        refs = {n.strip('"') for n in _NAME.findall(raw)}
        for n in refs:
            if n.startswith('llvm.x86.'):
                need[x86_feature(n) or 'unknown:' + n] = n
        memo[name] = (need, refs, ' asm ' in raw)
    return memo[name]


def reach(mod, name):
    """functions reached from `name` through the functions and constants mentioned"""
    seen, todo, g = set(), [name], mod.__dict__.setdefault('_gtext', {})
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in mod.funcs:
            todo += facts(mod, n)[1]
        elif n in mod.globals:
            if n not in g:
                t = repr(mod.globals[n])
                g[n] = [x for x in mod.funcs if x in t] if 'llvm.' in t or '_ZN' in t else []
                g[n] += [x for x in mod.globals if x != n and x in t] if 'alloc_' in t or 'anon.' in t or 'vtable' in t else []
            todo += g[n]
    return [n for n in seen if n in mod.funcs]


class FeatJob:
    cost = 1

    def __init__(self, item, cpu, key):
        self.item, self.cpu, self.modkey = item, cpu, key
        self.fn = '%s::%s@%s' % (item.v, item.op, cpu)
        self.label = '%s@%s' % (item.name, cpu)

    def run(self, mods, tier):
        t0 = time.time()
        mod, have = mods[self.modkey], mods['feats', self.cpu] | BASE
        res = {'label': self.label, 'status': 'proved', 'viol': None, 'obl': {}, 'paths': 1, 'steps': 0, 'queries': 0, 'qtime': 0, 'why': None}
        fs = reach(mod, self.item.name)
        intr = set()
        for n in fs:
            need, refs, asm = facts(mod, n)
            intr |= {r for r in refs if r.startswith('llvm.x86.')}
            bad = sorted(x for x in need if x not in have)
            if bad or asm:
                res['status'] = 'violated'
                res['viol'] = {'kind': 'target-feature', 'site': n[:160], 'inputs': None,
                               'detail': 'inline assembly' if asm else '%s needs %s, which the target %s lacks' % (need[bad[0]] if need[bad[0]] != 'function' else 'the function', bad[0], self.cpu)}
                break
            res['obl']['features:' + n[:120]] = (1 + len(need), 'inclusion of feature sets')
        res['steps'] = len(fs)
        res['time'] = time.time() - t0
        res['called'] = [n for n in fs if not mod.funcs[n].declared_only][:50]
        return res

    def confirm(self, res, env, seed, tier):
        r = confirm(self.item, self.cpu, env.native(self.modkey))
        return r and {'function': self.item.source(), 'inputs': r[0], 'observed': r[1], 'cpu': self.cpu, 'library': 'compiled with -C target-cpu=' + self.cpu}

    def bounded(self, env, seed, tier):
        return 0, None


EXT = [('sse3', r'h(add|sub)p[sd]|addsubp[sd]|mov(d|sh|sl)dup|lddqu'),
       ('ssse3', r'pshufb|ph(add|sub)\w*|pabs[bwd]|psign[bwd]|pmulhrsw|pmaddubsw|palignr'),
       ('sse4.1', r'pblend\w*|blendv?p[sd]|round[ps][sd]|pmov[sz]x\w*|p(min|max)(sb|sd|uw|ud)|ptest|packusdw|pinsr[bdq]|pextr[bdq]|insertps|extractps|dpp[sd]|'
                  r'pmuldq|pmulld|pcmpeqq|mpsadbw|phminposuw|movntdqa'),
       ('sse4.2', r'pcmpgtq|crc32\w*|pcmp[ei]str[im]'), ('popcnt', r'popcnt\w?')]
AVX256 = {'vptest', 'vperm2f128', 'vpermilps', 'vpermilpd'}


def lacks(have, mn, args):
    """is this an instruction of an extension (of those that the crate uses) that the target does not have"""
    if mn.startswith('v') and mn not in ('verr', 'verw'):
        if 'avx' not in have:
            return True
        return 'avx2' not in have and (mn.startswith('vp') and 'ymm' in args and mn not in AVX256 or mn in ('vbroadcasti128', 'vinserti128', 'vextracti128', 'vmpsadbw'))
    return any(f not in have and re.match('(%s)$' % e, mn) for f, e in EXT)


def confirm(item, cpu, so):
    """the instructions of the compiled wrapper and of what it calls"""
    import subprocess
    t = subprocess.run(['objdump', '-d', '--no-show-raw-insn', so], stdout=subprocess.PIPE).stdout.decode()
    body, cur, have = {}, None, build.cpu_features(cpu)
    for ln in t.split('\n'):
        m = re.match(r'^[0-9a-f]+ <(.*)>:$', ln)
        if m:
            cur = body.setdefault(m.group(1), [])
        elif cur is not None and ln.startswith(' '):
            cur.append(ln.strip())
    seen, todo = set(), [item.name]
    while todo:
        n = todo.pop()
        if n in seen or n not in body or 'panic' in n or n.startswith('_ZN3std'):
            continue
        seen.add(n)
        for ln in body[n]:
            p = re.match(r'^[0-9a-f]+:\s+(\S+)\s*(.*)$', ln)
            if not p:
                continue
            if lacks(have, p.group(1), p.group(2)):
                return 'any operands', 'compiled for %s, %s contains "%s %s", an instruction that the target does not have' % (cpu, n, p.group(1), p.group(2))
            c = re.search(r'<([^>+]+)>', p.group(2))
            if c and p.group(1) in ('call', 'callq', 'jmp', 'jmpq'):
                todo.append(c.group(1))
    return None


def jobs(tier='quick'):
    mods, out = {}, []
    for c in CPUS:
        for prop in PROPS:
            its = ops.items(c if c in build.CPUS else 'haswell', prop)
            if its:
                key = (c, 'd', 'ops_' + prop)     # the modules of the other checks
                mods[key] = (ops.PRELUDE + ''.join(i.source() for i in its), [i.name for i in its])
                out += [FeatJob(i, c, key) for i in its]
    return mods, out
