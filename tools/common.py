"""shared helpers: paths, running commands, expanded sources of /repo's crates"""
import os, subprocess, shutil, time, hashlib, json, sys, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, '.work'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')

sys.path.insert(0, os.path.join(VERIF, 'spec'))


def cargo_env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout.decode()
    for kv in out.split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            if k.startswith(('RUST', 'CARGO')) or k == 'PATH':
                e[k] = v
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def run(cmd, timeout=600, cwd=None, env=None, inp=None):
    """(rc, stdout, stderr); rc = 'timeout' when the limit is hit"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         cwd=cwd, env=env, start_new_session=True)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return 'timeout', o.decode(errors='replace'), e.decode(errors='replace')


PKGS = {'marshalable': 'tpm2-rs-marshalable', 'base': 'tpm2-rs-base', 'tpm2': 'tpm2', 'client': 'tpm2-client', 'impl': 'tpm2-impl', 'shapes': 'shapes'}


def expand(name):
    """macro-expanded source of one of /repo's library crates, from the current working tree"""
    env = cargo_env()
    os.makedirs(WORK, exist_ok=True)
    if not os.path.exists(REPO + '/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', REPO + '/Cargo.lock')
    rc, o, e = run(['cargo', 'rustc', '--offline', '--target-dir', WORK + '/expand-target', '-p', PKGS[name], '--lib',
                    '--profile', 'check', '--', '-Zunpretty=expanded'], cwd=VERIF + '/shapes' if name == 'shapes' else REPO, env=env, timeout=300)
    if rc != 0:
        raise RuntimeError('expanding %s failed (%s): %s' % (name, rc, e[-2000:]))
    return o


def tree_id():
    """digest of /repo's current source text (for evidence)"""
    h = hashlib.sha256()
    rc, o, _ = run(['git', 'ls-files', '-co', '--exclude-standard'], cwd=REPO)
    for f in sorted(o.split()):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:16]
