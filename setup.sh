#!/bin/bash
# compile the crate's third-party dependencies for every target CPU (offline), in parallel; then compare the assumed
# contracts of the x86 intrinsics with the processor (a report on the trusted base: it decides nothing)
cd "$(dirname "$0")" || exit 1
python3-vt -m vf.x86check "$PWD/.cache/x86check" 40 || echo 'x86 contracts: see above'
exec python3-vt -c '
from concurrent.futures import ThreadPoolExecutor
from vf import build, effects
with ThreadPoolExecutor(8) as p:
    list(p.map(build.deps, effects.CPUS))
'
