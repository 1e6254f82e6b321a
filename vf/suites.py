"""property id -> modules to build and contracts to discharge"""
from . import suite_ops, iters, drivers, effects

TRUST = ['rustc nightly-2020-07-01 front end and the LLVM 18 linker/inliner producing the IR that is verified',
         'vf.sym: the verification-condition generator and its LLVM IR semantics', 'z3',
         'packed_simd and vektor are not trusted: their bodies are inlined and verified with the crate',
         'LLVM intrinsics (llvm.sadd.sat, llvm.ctpop, llvm.bswap, llvm.fabs, ...) as documented in the LLVM language reference']
OPS = ['C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22']
FLOATNOTE = 'floating-point add/sub/mul/div/sqrt are uninterpreted functions shared by code and contract (same operation, same operand order); float sums are compared up to reassociation; comparison, min/max and abs are exact on bits'


SLICENOTE = ['slices occupy at most isize::MAX bytes, as the language guarantees']


def suite(prop, tier):
    if prop in OPS:
        mods, jobs = suite_ops.jobs(prop)
        if prop in iters.ALLC:
            m2, j2 = iters.jobs(prop, tier=tier)
            mods.update(m2)
            jobs += j2
        return {'mods': mods, 'jobs': jobs, 'trusted': list(TRUST), 'assumptions': [FLOATNOTE]}
    if prop in iters.ALLC:
        mods, jobs = iters.jobs(prop, tier=tier)
        return {'mods': mods, 'jobs': jobs, 'trusted': list(TRUST), 'assumptions': SLICENOTE}
    if prop in drivers.ALLD:
        mods, jobs = drivers.jobs(prop, tier=tier)
        return {'mods': mods, 'jobs': jobs, 'trusted': list(TRUST), 'assumptions': SLICENOTE + drivers.NOTES}
    if prop == 'C23':
        mods, jobs = effects.jobs(tier)
        return {'mods': mods, 'jobs': jobs, 'trusted': ['rustc nightly-2020-07-01 front end and the LLVM 18 linker/inliner producing the IR that is verified',
                                                        'LLVM emits only instructions of the target and of the features of the function',
                                                        'precompiled core and std, built for the x86-64 baseline'], 'assumptions': []}
    raise SystemExit('unknown property ' + prop)
