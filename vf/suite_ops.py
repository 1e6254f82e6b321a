"""Suites of the vector operations: one task per wrapper, CPU and concrete leading argument."""
from . import build, ops, opcheck, effects


class OpJob:
    """adapter of opcheck.OpTask to the check driver"""

    def __init__(self, task, modkey):
        self.t = task
        self.modkey = modkey
        self.label = task.label() + ('' if modkey[1] == 'd' else '/release')
        self.fn = '%s::%s@%s' % (task.item.v, task.item.op, task.cpu)
        self.cost = task.item.v.n

    def run(self, mods, tier):
        return opcheck.run(self.t, mods[self.modkey], mods['feats', self.t.cpu], timeout_ms=60000 if tier == 'quick' else 300000,
                           budget_s=200 if tier == 'quick' else 900)

    def confirm(self, res, env, seed, tier):
        so = env.native(self.modkey)
        r = opcheck.confirm(self.t, res, so, seed, tries=400 if tier == 'quick' else 4000)
        if r is None and res.get('viol') and res['viol']['kind'] == 'target-feature':
            r = effects.confirm(self.t.item, self.t.cpu, so)
        if r is None:
            return None
        it = self.t.item
        return {'function': it.source(), 'inputs': r[0], 'observed': r[1], 'cpu': self.t.cpu, 'library': 'compiled with -C target-cpu=%s -C debug-assertions=%s' % (self.t.cpu, 'on' if 'd' in self.modkey[1] else 'off')}

    def bounded(self, env, seed, tier):
        """concrete stand-in: random inputs against the same contract"""
        n = 400 if tier == 'quick' else 4000
        r = opcheck.confirm(self.t, {'viol': None}, env.native(self.modkey), seed, tries=n)
        return n, r


def jobs(prop, cpus=build.CPUS):
    mods, out = {}, []
    for c in cpus:
        its = ops.items(c, prop)
        if not its:
            continue
        # functions that must panic are also verified as released (no debug assertions, wrapping arithmetic)
        for mode, sel in (('d', its), ('', [i for i in its if i.panics])):
            if sel:
                key = (c, mode, 'ops_' + prop)
                mods[key] = (ops.PRELUDE + ''.join(i.source() for i in sel), [i.name for i in sel])
                out += [OpJob(opcheck.OpTask(i, c, cs), key) for i in sel for cs in i.cases]
    return mods, out
