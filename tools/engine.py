"""The pieces a check is made of: proof units (Verus), contract harnesses on the compiled code (Kani), native oracle runs."""
import json, os, re, sys, time, threading, traceback
from common import *
from verusrun import decide
import rustsrc

HOOKED = ('nmisc',)


def log(*a):
    print(*a, flush=True)


# ---- sources -------------------------------------------------------------------------
_exp = {}


def expanded(name):
    if name not in _exp:
        _exp[name] = expand(name)
    return _exp[name]


def literals():
    """integer literals occurring in the function bodies of the tree under check (values tried by the native drivers)"""
    vals = set()
    for base in ('marshalable/src', 'marshalable-derive/src', 'base/src', 'crates'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = [x for x in ds if x not in ('target', 'tests', 'examples')]
            for f in fs:
                if not f.endswith('.rs') or f == 'constants.rs':
                    continue
                for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?\b', open(os.path.join(d, f), errors='replace').read()):
                    try:
                        v = int(m.group(1).replace('_', ''), 0)
                    except ValueError:
                        try:
                            v = int(m.group(1).replace('_', ''))
                        except ValueError:
                            continue
                    if v < 1 << 64:
                        vals.add(v)
    return sorted(vals)


# ---- native drivers --------------------------------------------------------------------
def native_build(crate, bin=None):
    """builds /verif/<crate> against /repo's working tree; (binary, None) or (None, why)"""
    env = cargo_env()
    d = os.path.join(VERIF, crate)
    if not os.path.exists(REPO + '/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', REPO + '/Cargo.lock')
    tries = [(env, 'native-target')]
    if crate in HOOKED:     # with the guarded access to private functions; without it where the hooks no longer build
        tries.insert(0, (dict(env, RUSTFLAGS=(env.get('RUSTFLAGS', '') + ' --cfg verif_hooks').strip()), 'native-target-hooks'))
    for env, t in tries:
        bin = bin or crate.split('/')[-1]
        rc, o, e = run(['cargo', 'build', '--offline', '--bin', bin, '--target-dir', os.path.join(WORK, t)], cwd=d, env=env, timeout=500)
        if rc == 0:
            return os.path.join(WORK, t, 'debug', bin), None
    return None, 'native driver %s does not build (%s): %s' % (crate, rc, e[-3000:])


def native_run(crate, binp, props, n, seed, timeout=300, extra=(), values=()):
    lf = os.path.join(WORK, 'lits')
    open(lf, 'w').write(' '.join(map(str, sorted(set(literals()) | set(values)))))
    cmd = [binp, '--props', ','.join(props), '--n', str(n), '--seed', str(seed), '--lits', lf, *extra]
    rc, o, e = run(cmd, timeout=timeout)
    fails, done, samples = [], None, []
    for l in o.split('\n'):
        p = l.split('\t')
        if p[0] == 'FAIL' and len(p) >= 4:
            fails.append((p[1], p[2], p[3]))
        elif p[0] == 'SAMPLE':
            samples.append('\t'.join(p[1:])[:400])
        elif p[0] == 'DONE':
            done = int(p[1])
    return {'rc': rc, 'cases': done, 'fails': fails, 'cmd': ' '.join(cmd), 'samples': samples, 'err': e[-2000:]}
