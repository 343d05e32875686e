"""the contracts of /verif/kani on the compiled code of /repo: Kani (CBMC), loop-free harnesses, all inputs"""
import os, re, time
from common import run, VERIF, WORK


def kani(harness, hooks, timeout=300, extra=()):
    env = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    env['RUSTFLAGS'] = '--cfg verif_hooks' if hooks else ''
    cmd = ['cargo', 'kani', '--target-dir', os.path.join(WORK, 'kani-target' + ('-hooks' if hooks else '')), '--output-format', 'terse', '--harness', harness, *extra]
    t0 = time.time()
    rc, o, e = run(cmd, timeout=timeout, cwd=os.path.join(VERIF, 'kani'), env=env)
    return rc, o, e, time.time() - t0, ' '.join(cmd)


def parse(o):
    """{harness: (ok, checks, text)} from terse output (one harness at a time: no -j)"""
    out = {}
    for part in re.split(r'^Checking harness ', o, flags=re.M)[1:]:
        name = re.match(r'(?:\w+::)*(\w+)', part).group(1)
        m = re.search(r'VERIFICATION:- (SUCCESSFUL|FAILED)', part)
        c = re.search(r'of (\d+) failed', part)
        if m:
            out[name] = (m.group(1) == 'SUCCESSFUL', int(c.group(1)) if c else 0, part.split('Verification Time')[0].strip()[-1500:])
    return out


def harnesses(pid, hooks):
    src = open(os.path.join(VERIF, 'kani', 'src', 'lib.rs')).read()
    out = []
    for m in re.finditer(r'(#\[cfg\(verif_hooks\)\]\s*)?#\[kani::proof\]\s*fn (\w+)\(|layer!\((\w+),', src):
        n = m.group(2) or m.group(3)
        if n and n.startswith(pid.lower() + '_') and (hooks or not m.group(1)):
            out.append(n)
    return out


def decide(pid, cov, log):
    """runs every harness of the property; None when Kani gives no answer, else
    {'ok': all hold, 'hooks': private functions included, 'fails': [(harness, text, values)]}"""
    for hooks in (True, False):
        rc, o, e, t, cmd = kani(pid.lower() + '_', hooks)
        if rc == 'timeout':
            return None
        res = parse(o)
        want = harnesses(pid, hooks)
        if not want or set(want) - set(res):
            continue
        cov['kani'].append({'harnesses': sorted(want), 'hold': sorted(n for n in want if res[n][0]), 'checks': sum(res[n][1] for n in want), 'bound': 'none (loop-free, all inputs)', 'seconds': round(t, 1), 'cmd': cmd, 'private_functions': hooks})
        fails = []
        for n in want:
            if not res[n][0]:
                rc, o2, e2, _, _ = kani(n, hooks, extra=['-Z', 'concrete-playback', '--concrete-playback=print'])
                vals = []
                for m in re.finditer(r'vec!\[((?:\d+(?:, )?)+)\]', o2):
                    vals.append(int.from_bytes(bytes(int(x) for x in m.group(1).split(',')), 'little'))
                m = re.search(r'Concrete playback unit test.*?```(.*?)```', o2, re.S)
                fails.append((n, res[n][2] + '\n' + (m.group(1) if m else ''), vals))
        log('%s: Kani: %d harnesses, %d fail, %.0f s' % (pid, len(want), len(fails), t))
        return {'ok': not fails, 'hooks': hooks, 'fails': fails}
    return None
