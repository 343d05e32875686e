"""per-property configuration and the verdict"""
import json, os, re, sys, time, traceback
from common import *
from engine import *

N = {'quick': 2000, 'thorough': 20000}


# ---- proof units ------------------------------------------------------------------------
def unit_wire(ctx):
    import vgen
    exp = {n: expanded(n) for n in ('marshalable', 'base', 'tpm2')}
    probe = ctx.probe()

    def make(skip, nohint):
        g = vgen.Gen(exp, probe, skip, nohint)
        g.run()
        return g
    return make


def unit_shapes(ctx):
    # the types of /verif/shapes, through the derive macros of the current tree
    import wire
    wire.use_shapes()
    import vgen
    exp = {n: expanded(n) for n in ('marshalable', 'shapes')}
    probe = ctx.probe('nshapes')

    def make(skip, nohint):
        g = vgen.Gen(exp, probe, skip, nohint, only=list(wire.STRUCTS) + list(wire.ENUMS) + list(wire.TPM2B), own=('C20',), crates=('marshalable', 'shapes'))
        g.run()
        return g
    return make


def tmpl_unit(template, crates, defgroup, **kw):
    def unit(ctx):
        import tmpl
        exp = {n: expanded(n) for n in crates}

        def make(skip, nohint):
            g = tmpl.Tmpl(exp, template, skip=skip, nohint=nohint, defgroup=defgroup, **kw)
            g.run()
            return g
        return make
    return unit


def unit_client(ctx):
    import clientgen
    exp = {n: expanded(n) for n in ('marshalable', 'base', 'tpm2', 'client')}
    probe = ctx.probe()

    def make(skip, nohint):
        g = clientgen.Client(exp, probe, skip=skip, nohint=nohint, defgroup='C13')
        g.run()
        return g
    return make


UNITS = {'client': unit_client, 'wire': unit_wire, 'shapes': unit_shapes,
         'server': tmpl_unit('server.vrs', ('tpm2', 'base', 'impl'), 'C16'),
         'rc': tmpl_unit('rc.vrs', ('tpm2', 'marshalable'), 'C09'),
         'bits': tmpl_unit('bits.vrs', ('base', 'tpm2'), 'C07'),
         'tpm2': tmpl_unit('tpm2.vrs', ('tpm2',), 'C12'),
         'tcp': tmpl_unit('tcp.vrs', ('client',), 'C19')}

WIRE_TRUST = [
    'Verus %s with its bundled Z3, and vstd' % '0.2026.09.13.671956e',
    'the mechanical extraction (tools/rustsrc.py, tools/extract.py, tools/vgen.py: edits E1-E8 listed in DESIGN.md) keeps the text of each function',
    'rustc -Zunpretty=expanded shows the code rustc compiles',
    'to_be_bytes/from_be_bytes of core, copy_from_slice, <[T]>::get, split_at and friends behave as specified in spec/prelude.rs',
    'the discriminant() of the safe-discriminant derive returns the declared discriminant (the declared values are themselves obligations)',
    'the reference wire format in spec/wire.py transcribes TPM 2.0 Part 2',
]

WT = 'deductive verification of the extracted code against wire-format contracts (Verus)'
WN = ('Every listed function is extracted from the macro-expanded source of the current tree and verified by Verus against a contract derived from '
      'the reference wire format, for all inputs; functions the verifier cannot take on a changed tree fall back to a labelled bounded native run. '
      'Trusts the extraction edits, Verus/Z3 and the specifications of core slice and integer functions.')

TMPL_TRUST = [
    WIRE_TRUST[0],
    'the mechanical extraction (tools/rustsrc.py, tools/extract.py, tools/tmpl.py: edits E1-E25 listed in DESIGN.md) keeps the text of each function',
    WIRE_TRUST[2],
    'the specifications of core functions in the template (integer byte conversions, slices, Option and Result combinators) describe core',
]
SERVER_TRUST = TMPL_TRUST + [
    'the platform traits (Drbg, EntropySource) are under assumed contracts: any result, destination filled on success, every call recorded in a ghost history',
    'the closure of execute_command is converted to the struct of its captures (E9)',
]
ST = 'deductive verification of the extracted server code against contracts over its buffers and platform calls (Verus)'
SN = ('Every listed function is extracted from the macro-expanded source of the current tree and verified by Verus against the contracts in spec/server.vrs, '
      'for all requests, buffers and platform behaviours; functions the verifier cannot take on a changed tree fall back to a labelled bounded native run. '
      'Trusts the extraction edits, Verus/Z3, the contracts assumed of the platform traits and the specifications of core functions.')

MT = 'deductive verification of the extracted code against contracts stating the reference values and encodings (Verus)'

KT = MT.replace('(Verus)', '(Verus, and Kani on the compiled code)')


def mn(f, what):
    return ('Every listed function and constant is extracted from the macro-expanded source of the current tree and verified by Verus against the contracts in spec/%s, '
            'for %s; what the verifier cannot take on a changed tree falls back to a labelled bounded native run. '
            'Trusts the extraction edits, Verus/Z3 and the specifications of core functions.' % (f, what))


KN = 'The same contracts are also checked by Kani on the compiled code (loop-free harnesses, all inputs); an obligation Verus leaves open counts as discharged only when every Kani harness of the property holds. '
KANI_TRUST = ['Kani 0.68 / CBMC translate the MIR of the harnesses in /verif/kani (which restate the contracts) and of /repo faithfully']
RC_TRUST = TMPL_TRUST + ['core::num::NonZeroU32 is under an assumed contract (new, get, try_from: the value, never zero)']
BITS_TRUST = TMPL_TRUST + ['spec/idents.json transcribes the values TPM 2.0 Part 2 assigns', 'from_bits_retain of the bitflags macro keeps the bits']
TPM2_TRUST = TMPL_TRUST + ['split_first_chunk and split_first_chunk_mut of core are under assumed contracts', 'the conversion from Infallible is never reached']
CLIENT_TRUST = TMPL_TRUST + [
    'try_marshal/try_unmarshal of the base types meet their wire contracts (proved in unit wire, checks C01-C06); the conversions between the error types are as stated (proved in unit rc, check C09)',
    'a Connection may return any bytes or any error; every call and its result are recorded in a ghost history',
    'a Session (other than those in the crate) is a function of its state: get_auth_command and validate_auth_response give the same result each time they are asked',
    'Default::default of a compiler-derived impl builds a well-formed value',
]
CT = 'deductive verification of the extracted client code against contracts over the bytes sent and received (Verus)'
CN = ('Every listed function is extracted from the macro-expanded source of the current tree and verified by Verus against the contracts in spec/client.vrs, '
      'for all commands, handles, sessions and answers; functions the verifier cannot take on a changed tree fall back to a labelled bounded native run. '
      'Trusts the extraction edits, Verus/Z3, the contracts assumed of connections and foreign sessions, and what the wire and rc units prove.')

TCP_TRUST = TMPL_TRUST + [
    'std::net::TcpStream is under assumed contracts (connect, read, read_exact, write, write_all, write_vectored, shutdown): a stream carries the bytes written in order, any operation may fail or be short',
    'zerocopy: as_bytes/as_mut_bytes of a repr(C) structure are the bytes of its members in declaration order; U32 is big-endian; plain u32 members are little-endian (this machine)',
    'no slice is longer than isize::MAX bytes (language reference)',
    'hcrtm_sequence: data of 4 GiB or more is outside its precondition (the length is truncated by a cast)',
]
TT = 'deductive verification of the extracted connection code against contracts over both byte streams (Verus)'
TN = ('Every listed function is extracted from the macro-expanded source of the current tree and verified by Verus against the contracts in spec/tcp.vrs, '
      'for all arguments, all answers of the peer and all failures of the streams; functions the verifier cannot take on a changed tree fall back to a labelled bounded native run '
      'against scripted peers on the loopback interface. TcpSimulator is C21. '
      'Trusts the extraction edits, Verus/Z3, the contracts assumed of TcpStream and zerocopy.')
SIM_TRUST = TCP_TRUST[:-1] + [
    'std::process::Command and Child, std::fs::read_to_string, Path::join, str::trim and str::parse are under assumed contracts (spec/tcp.vrs): a command starts the program, arguments and directory it was given, any operation may fail, a file may hold any text',
    'the error a map_err closure formats is replaced by one about which nothing is said (edit E24)',
    'not proved, decided by the bounded run (labelled): that no process is left behind when starting fails - the child is dropped inside the function, where no postcondition reaches it - and that trying again after a failed read happens at all',
]
SN = ('TcpSimulator::new, its helpers, stop_nicely, stop, connection, connection_mut and drop are extracted from the macro-expanded source of the current tree and verified by Verus against the contracts in spec/tcp.vrs, '
      'for all programs, arguments, directories, file contents and failures. Bounded: that a failed start leaves no process behind, and that attempts are repeated, are decided by starting a stand-in simulator in 18 scenarios. '
      'Trusts the extraction edits, Verus/Z3, and the contracts assumed of processes, files, TcpStream and zerocopy.')

SHAPES_TRUST = WIRE_TRUST[:5] + [
    'spec/shapes.py states the same declarations as shapes/src/lib.rs, which is generated from it (tools/shapegen.py)',
    'usize has 64 bits (a count member of type u64 is cast to usize)',
]
DT = 'deductive verification of the derive macros\' output for corner-case types against wire-format contracts (Verus)'
DN = ('The derive macros of the current tree are run on the types of /verif/shapes (36 structures and unions, 9 sized buffers: every kind of member, count, selector and size the macros accept), '
      'and every function they generate is verified by Verus against the contract derived from the declaration, for all values and byte strings. '
      'The macros themselves are programs over syntax trees: they are decided through their output on these shapes, not for all declarations. '
      'Functions the verifier cannot take on a changed tree fall back to a labelled bounded native run.')

# types whose functions the Kani harnesses only reach through the hooks
PRIVATE = ('TpmaCc', 'TpmaLocality', 'TpmRcError', 'ErrorType', 'ErrorPosition')

PROPS = {
    'C01': dict(units=['wire'], native=['native'], technique=WT, note=WN),
    'C02': dict(units=['wire'], native=['native'], technique=WT, note=WN),
    'C03': dict(units=['wire'], native=['native'], technique=WT, note=WN),
    'C04': dict(units=['wire'], native=['native'], technique=WT, note=WN),
    'C05': dict(units=['wire'], native=['native'], technique=WT, note=WN),
    'C06': dict(units=['wire'], native=['native'], technique=WT, note=WN, nscale=20),
    'C07': dict(units=['bits'], native=['nmisc'], technique=MT, note=mn('bits.vrs', 'every constant of the listed types')),
    'C09': dict(units=['rc'], kani=['rc'], native=['nmisc'], technique=KT, note=KN + mn('rc.vrs', 'all codes, kinds and positions'), nscale=20),
    'C10': dict(units=['bits'], kani=['bits'], native=['nmisc'], technique=KT, note=KN + mn('bits.vrs', 'all 2^32 handle values'), nscale=100),
    'C11': dict(units=['bits'], kani=['bits'], native=['nmisc'], technique=KT, note=KN + mn('bits.vrs', 'all words and field values'), nscale=10),
    'C12': dict(units=['tpm2'], native=['nmisc'], technique=MT, note=mn('tpm2.vrs', 'all values, byte strings, buffers and limits'), nscale=20),
    'C13': dict(units=['client'], native=['nclient', 'native'], technique=CT, note=CN, nscale=10, groups=['C13', 'CX']),
    'C14': dict(units=['client'], native=['nclient'], technique=CT, note=CN, nscale=10, groups=['C14', 'CX']),
    'C15': dict(units=['client'], native=['nclient'], technique=CT, note=CN, nscale=10),
    'C16': dict(units=['server'], native=['nserver'], technique=ST, note=SN, nscale=20, groups=['C16', 'C17']),
    'C17': dict(units=['server'], native=['nserver'], technique=ST, note=SN, nscale=20),
    'C18': dict(units=['server'], native=['nserver'], technique=ST, note=SN, nscale=20),
    'C19': dict(units=['tcp'], native=['nclient'], technique=TT, note=TN),
    'C21': dict(units=['tcp'], native=['nclient'], technique=TT, note=SN),
    'C20': dict(units=['shapes'], native=['nshapes'], technique=DT, note=DN, must_build='nshapes'),
}
NATIVE_CRATES = ['native', 'nserver', 'nmisc', 'nclient', 'nshapes']
NOT_APPLICABLE = {}
TRUST = {'wire': WIRE_TRUST, 'client': CLIENT_TRUST, 'server': SERVER_TRUST, 'rc': RC_TRUST, 'bits': BITS_TRUST, 'tpm2': TPM2_TRUST, 'tcp': TCP_TRUST, 'shapes': SHAPES_TRUST}


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.bins = {}
        self.notes = []

    def binary(self, crate):
        if crate not in self.bins:
            self.bins[crate] = native_build(crate)
            if self.bins[crate][1]:
                log(self.bins[crate][1])
                self.notes.append(self.bins[crate][1][:600])
        return self.bins[crate][0]

    def probe(self, crate='native'):
        b = self.binary(crate)
        if not b:
            b, why = native_build(crate, 'nprobe')
        if not b:
            raise RuntimeError('no probe: ' + why)
        rc, o, e = run([b, 'probe'])
        return json.loads(o)


def builds(crate):
    try:
        expanded(crate)
        return True
    except RuntimeError:
        return False


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\w+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main(argv):
    pid = argv[0]
    t0 = time.time()
    cfg = PROPS[pid]
    groups = cfg.get('groups', [pid])
    tier = TIER if TIER in N else 'quick'
    ctx = Ctx(pid)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    violations = []     # (subject, text, concrete?)
    cov = {'obligations': 0, 'discharged': 0, 'checker_cmd': '', 'trusted_base': [], 'functions_under_contract': [], 'solver_ms': 0,
           'outside_verifier': [], 'native_runs': [], 'kani': [], 'discharged_by_kani': []}
    answered = False

    # 1. search for failing inputs on the compiled code (also what stands in for functions out of the verifier's reach)
    for crate in cfg.get('native', []):
        b = ctx.binary(crate)
        if not b:
            # types the macros accepted before are refused now, although the crates that use them still build
            if cfg.get('must_build') == crate and all(builds(c) for c in ('marshalable', 'base')):
                violations.append((crate, 'declarations the derive macros accept no longer compile: ' + ctx.bins[crate][1][-1500:], 'cargo build in /verif/' + crate))
                answered = True
            continue
        for k in range(1 if tier == 'quick' else 4):
            r = native_run(crate, b, [pid], N[tier] * cfg.get('nscale', 1) // cfg.get('ndiv', 1), SEED + 1000 * k)
            if r['cases'] is None:
                ctx.notes.append('native driver ended with %s: %s' % (r['rc'], r['err'][-300:]))
                if r['rc'] != 'timeout':
                    violations.append((crate, 'the driver process died (%s): %s' % (r['rc'], r['err'][-500:]), r['cmd']))
                continue
            answered = True
            cov['native_runs'].append({'cases': r['cases'], 'cmd': r['cmd'], 'samples': r['samples'][:3]})
            for p, subj, text in r['fails']:
                if p == pid:
                    violations.append((subj, text, r['cmd']))
    log('%s: native: %s cases, %d mismatches' % (pid, sum(x['cases'] for x in cov['native_runs']), len(violations)))

    # 2. the deductive proof
    proof_viol = []
    for u in cfg.get('units', []):
        if violations and tier == 'quick':
            ctx.notes.append('a failing input was found before the proof ran; proof unit %s not run' % u)
            continue
        try:
            make = UNITS[u](ctx)
            os.makedirs(os.path.join(WORK, 'verus'), exist_ok=True)
            g, res, hard, reasons, why = decide(make, os.path.join(WORK, 'verus', 'unit_' + u + '.rs'), log=log)
        except Exception as ex:
            ctx.notes.append('proof unit %s cannot be generated from this tree: %s' % (u, ex))
            log('%s: proof unit %s cannot be generated from this tree: %s' % (pid, u, ex))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            cov['outside_verifier'].append('%s: whole unit (%s)' % (u, ex))
            import vgen
            if isinstance(ex, vgen.Gone) and ex.args[0] == pid:
                proof_viol.append((u, (pid, 'shape', ex.args[1], 'exec'), {'msg': ex.args[1], 'rendered': ex.args[1]}))
            continue
        if why:
            log('%s: unit %s: %s' % (pid, u, why))
            ctx.notes.append('unit %s: %s' % (u, why))
            cov['outside_verifier'].append('%s: whole unit (%s)' % (u, why))
            continue
        answered = True
        mine = [f for f in res['funcs'] if g.module_group(f[0], f[1]) in groups]
        cov['obligations'] += len(mine)
        cov['discharged'] += sum(1 for f in mine if f[4])
        cov['solver_ms'] += sum(f[3] for f in mine) // 1000
        cov['checker_cmd'] = (cov['checker_cmd'] + '; ' if cov['checker_cmd'] else '') + res['cmd']
        cov['trusted_base'] += [t for t in (SIM_TRUST if pid == 'C21' else TRUST[u]) if t not in cov['trusted_base']]
        cov['functions_under_contract'] += sorted({'%s::%s' % (o[1], o[2]) for o in g.under_contract if o[0] in groups})
        cov['outside_verifier'] += ['%s::%s (%s)' % (o[1], o[2], r) for o, r in list(reasons.items()) + list(g.fallback) if o[0] in groups]
        for t in getattr(g, 'assumed', []):
            if t[0] in groups:
                cov['outside_verifier'].append('assumed: ' + t[1])
        log('%s: unit %s: %d functions/lemmas verified in the unit, %d errors, %.0f s' % (pid, u, res['verified'], res['nerr'] or 0, res['wall']))
        seen = set()
        for er in hard:
            ow = er['owner']
            if er.get('tags') and pid not in er['tags']:      # a clause that states another property
                continue
            if ow and ow[0] in groups and (ow, er['msg']) not in seen:
                seen.add((ow, er['msg']))
                proof_viol.append((u, ow, er))
        for p, text in getattr(g, 'problems', []):
            if p in groups:
                proof_viol.append((u, (pid, 'shape', text, 'exec'), {'msg': text, 'rendered': text}))
    # 2b. the same contracts on the compiled code, by the second back end
    kv = []
    if cfg.get('kani') and not (violations and tier == 'quick'):
        import kanirun
        k = kanirun.decide(pid, cov, log)
        if k:
            answered = True
            cov['trusted_base'] += KANI_TRUST
            for name, text, vals in k['fails']:
                # the counterexample, run natively
                for crate in cfg.get('native', []):
                    b = ctx.binary(crate)
                    if b:
                        r = native_run(crate, b, [pid], 100, SEED, values=vals)
                        violations += [(s, t + ' (counterexample of Kani harness %s)' % name, r['cmd']) for p, s, t in r['fails'] if p == pid]
                kv.append((name, text))
            if k['ok']:
                # bit-level obligations Verus could not decide on this text: the whole contract holds of the compiled code
                rest = []
                for u, ow, er in proof_viol:
                    if u in cfg['kani'] and (k['hooks'] or ow[1].split('::')[-1] not in PRIVATE):
                        cov['discharged_by_kani'].append('%s::%s (%s)' % (ow[1], ow[2], er['msg'].split('\n')[0][:100]))
                    else:
                        rest.append((u, ow, er))
                proof_viol = rest
        else:
            ctx.notes.append('Kani gave no answer on this tree')
    # 3. a failed obligation: look harder for an input that shows it
    if proof_viol and not violations:
        for crate in cfg.get('native', []):
            b = ctx.binary(crate)
            if b:
                for k in range(3):
                    r = native_run(crate, b, [pid], 10 * N['quick'] * cfg.get('nscale', 1) // cfg.get('ndiv', 1), SEED + 77 + k, timeout=100)
                    violations += [(s, t, r['cmd']) for p, s, t in r['fails'] if p == pid]
                    if violations:
                        break

    rc = 0
    kn = known_findings(pid)
    n = 0
    seen = set()
    out = []
    for subj, text, cmd in violations:
        k = [d for m, d in kn if re.search(m, subj + ' ' + text)]
        if k:
            log('KNOWN-FINDING: property=%s %s' % (pid, k[0]))
            continue
        if subj in seen:
            continue
        seen.add(subj)
        out.append((subj, text, cmd, False))
    if not out:
        for u, ow, er in proof_viol:
            out.append(('%s::%s' % (ow[1], ow[2]), er['msg'] + '\n\n' + er['rendered'], '', True))
        for subj, text in kv:
            out.append(('Kani harness ' + subj, text, '', True))
    rd = os.path.join(VERIF, 'replay')
    for subj, text, cmd, nofail in out[:10]:
        os.makedirs(rd, exist_ok=True)
        n += 1
        f = os.path.join(rd, '%s-%d.txt' % (pid, n))
        with open(f, 'w') as fh:
            if nofail:
                fh.write('property %s\nfailed obligation: %s\nno failing input found\n\nverifier output:\n%s\n' % (pid, subj, text))
            else:
                fh.write('property %s\nsubject: %s\nfailing input, run on the compiled code of /repo:\n%s\n\nreplay: %s\n' % (pid, subj, text, cmd))
                for u, ow, er in proof_viol:
                    fh.write('\nfailed obligation: %s::%s\n%s\n' % (ow[1], ow[2], er['rendered']))
        log('%s: %s: %s' % (pid, subj, text.split('\n')[0][:400]))
        print('VIOLATION property=%s replay=%s%s' % (pid, f, ' no-failing-input-found' if nofail else ''), flush=True)
        rc = 1
    cov['native_cases'] = sum(x['cases'] for x in cov['native_runs'])
    cov['tree'] = tree_id()
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': 'proof', 'coverage': cov,
          'assumptions': cfg.get('assumptions', []) + ctx.notes, 'wall_s': round(time.time() - t0, 1), 'violations': len(out)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if not answered and rc == 0:
        log('%s: no part of the check could run on this tree' % pid)
        return 2
    return rc
