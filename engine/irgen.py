"""Compile /repo's current sources to LLVM IR (no optimisation beyond SSA construction)."""
import os, subprocess, tempfile, hashlib
from llir import Module

REPO = os.environ.get('VREPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPT = '/usr/lib/llvm-18/bin/opt'
LINK = '/usr/lib/llvm-18/bin/llvm-link'
FLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-D_REENTRANT', '-fno-discard-value-names', '-gline-tables-only', '-w',
         '-I' + os.path.join(HERE, 'inst/include'), '-I' + REPO + '/src', '-ffp-contract=off']
PASSES = 'function(sroa,simplifycfg,instsimplify,simplifycfg,lcssa)'


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stderr[-3000:])


def build(sources, work, extra=()):
    """sources: paths (absolute, or relative to /repo/src, or inst/NAME.cpp in /verif); returns Module"""
    outs = []
    for s in sources:
        src = s if s.startswith('/') else os.path.join(HERE, s) if s.startswith('inst/') else os.path.join(REPO, 'src', s)
        o = os.path.join(work, hashlib.md5(src.encode()).hexdigest()[:10] + '.bc')
        if not os.path.exists(o):
            run(['clang++-18'] + FLAGS + list(extra) + ['-c', '-emit-llvm', src, '-o', o])
        outs.append(o)
    if len(outs) > 1:
        j = os.path.join(work, hashlib.md5(''.join(outs).encode()).hexdigest()[:10] + '.l.bc')
        run([LINK] + outs + ['-o', j])
    else: j = outs[0]
    ll = j + '.ll'
    run([OPT, '-passes=' + PASSES, '-S', j, '-o', ll])
    with open(ll) as f: return Module(f.read())
