"""runs Verus on a generated file, attributes every diagnostic to the function it belongs to"""
import json, os, re, time
from common import run


def verus(path, owners, timeout=600, extra=(), threads=8):
    t0 = time.time()
    cmd = ['verus', path, '--num-threads', str(threads), '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '2', *extra]
    rc, o, e = run(cmd, timeout=timeout, cwd=os.path.dirname(path) or None)
    res = {'cmd': ' '.join(cmd), 'rc': rc, 'wall': time.time() - t0, 'errors': [], 'verified': 0, 'nerr': None, 'smt_ms': None, 'raw': e[-4000:], 'funcs': [], 'vir_error': None}
    if rc == 'timeout':
        return res
    try:
        j = json.loads(o[o.index('{'):])
        vr = j.get('verification-results', {})
        res['verified'] = vr.get('verified', 0)
        res['nerr'] = vr.get('errors')
        res['vir_error'] = vr.get('encountered-vir-error')
        smt = j.get('times-ms', {}).get('smt', {})
        res['smt_ms'] = smt.get('total')
        for m in smt.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                res['funcs'].append((m['module'], f['function'], f.get('mode:') or f.get('mode'), f.get('time-micros', 0), f.get('success')))
    except ValueError:
        pass
    for line in e.split('\n'):
        if not line.startswith('{'):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('level') != 'error' or d.get('message', '').startswith('aborting'):
            continue
        ow = None
        ln = None
        spans = d.get('spans', [])
        for sp in sorted(spans, key=lambda s: not s.get('is_primary')):
            for l in range(sp['line_start'], sp['line_end'] + 1):
                o_ = owners[l - 1] if 0 < l <= len(owners) else None
                if o_ and o_[3] != 'shared' and (ow is None or ow[3] == 'proof' and o_[3] == 'exec'):
                    ow, ln = o_, l
        tags = set()
        for sp in spans:
            if 'postcondition' in (sp.get('label') or ''):
                for tx in sp.get('text', []):
                    tags |= set(re.findall(r'/\*(C\d\d)\*/', tx.get('text', '')))
        res['errors'].append({'tags': tags, 'msg': d['message'], 'owner': ow, 'line': ln, 'code': (d.get('code') or {}).get('code') if d.get('code') else None,
                              'rendered': d.get('rendered', '')[:3000]})
    return res


SOFT = re.compile(r'rlimit|resource limit|timed out|could not be (proved|determined) within', re.I)


def decide(make, workfile, timeout=500, budget=700, log=print):
    """make(skip, nohint) -> generator object after run(), with .text, .out.owner, .under_contract, .fallback, .problems

    Runs Verus until every function it is given is one it can take: a function that cannot be translated (or that
    exhausts the resource limit) is left out, recorded as a fallback, and never raises an alarm by itself.
    """
    t0 = time.time()
    skip, nohint, reasons = set(), set(), {}
    res = None
    for rnd in range(12):
        g = make(skip, nohint)
        open(workfile, 'w').write(g.text)
        left = budget - (time.time() - t0)
        if left < 20:
            break
        res = verus(workfile, g.out.owner, timeout=min(timeout, left))
        if res['rc'] == 'timeout':
            return g, res, [], reasons, 'verifier timed out'
        compile_stage = res['vir_error'] or res['nerr'] is None or (res['verified'] == 0 and not res['nerr'])
        if res['rc'] == 0 and not res['errors']:
            return g, res, [], reasons, None
        changed = False
        hard = []
        for er in res['errors']:
            ow = er['owner']
            soft = compile_stage or er['code'] or SOFT.search(er['msg'])
            if not soft:
                hard.append(er)
                continue
            if ow is None or ow[3] != 'exec':
                if compile_stage:
                    hard.append(dict(er, unattributed=True))
                continue
            if ow in skip:
                continue
            if ow not in nohint:
                nohint.add(ow)
            else:
                skip.add(ow)
                reasons[ow] = er['msg'][:300]
            changed = True
        if changed:
            log('  re-running without %s' % sorted(nohint | skip)[:6])
            continue
        if compile_stage:
            return g, res, [], reasons, 'not translatable: ' + (hard[0]['msg'] if hard else res['raw'])[:500]
        # a failing function that carries proof hints keyed to the text: once more without them
        retry = [er['owner'] for er in hard if er['owner'] and er['owner'][3] == 'exec' and er['owner'] not in nohint]
        if retry and rnd < 11:
            nohint.update(retry)
            g2 = make(skip, nohint)
            if g2.text != g.text:
                open(workfile, 'w').write(g2.text)
                left = budget - (time.time() - t0)
                if left > 20:
                    r2 = verus(workfile, g2.out.owner, timeout=min(timeout, left))
                    if r2['rc'] == 0 and not r2['errors']:
                        return g2, r2, [], reasons, None
        return g, res, hard, reasons, None
    return g, res or {'rc': None, 'errors': [], 'funcs': [], 'verified': 0, 'smt_ms': 0, 'wall': 0, 'cmd': '', 'raw': ''}, [], reasons, 'no stable translation'
