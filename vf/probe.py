"""Development-time tool: which candidate wrappers compile on which CPU (writes ops_table.json; never run by a check)."""
import json, os, re, subprocess, sys
from . import build, ops


def probe(cpu):
    cand = ops.candidates()
    d, D = build.crate(cpu, 'd')
    w = '/tmp/probe-%s' % cpu
    os.makedirs(w, exist_ok=True)
    while True:
        lines = ops.PRELUDE.count('\n')
        src = ops.PRELUDE + ''.join(c.source() for c in cand)
        open(w + '/h.rs', 'w').write(src)
        r = subprocess.run(['rustc'] + build.flags(cpu, D, 'd') + ['--crate-type', 'lib', '--emit=metadata', '--crate-name', 'h', '--out-dir', w, '--error-format=short',
                            '--extern', 'faster=%s/libfaster.rmeta' % d, w + '/h.rs'], env=build.env(cpu), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        if r.returncode == 0:
            return cand
        bad = {}
        for m in re.finditer(r'h\.rs:(\d+):\d+: error(.*)', out):
            bad.setdefault(int(m.group(1)), m.group(2))
        if not bad:
            print(out[-3000:])
            sys.exit(1)
        print(cpu, 'dropping', len(bad), 'of', len(cand))
        kinds = {}
        for k, v in bad.items():
            kinds.setdefault(v[:90], []).append(cand[k - lines - 1].name)
        for k, v in kinds.items():
            if 'E0277' not in k:
                print('   ', k, v[:3], len(v))
        cand = [c for i, c in enumerate(cand) if (i + lines + 1) not in bad]


if __name__ == '__main__':
    t = {c: [i.name for i in probe(c)] for c in build.CPUS}
    json.dump(t, open(os.path.join(os.path.dirname(__file__), 'ops_table.json'), 'w'), indent=0)
    for c in t:
        print(c, len(t[c]))
    allops = {}
    for c in t:
        for n in t[c]:
            allops.setdefault(n.split('_')[1] if False else n, set()).add(c)
    print([n for n, s in allops.items() if len(s) != 3])
