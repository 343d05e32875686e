"""the client unit: the wire contracts of the types the client needs (vgen) followed by the client template (tmpl)"""
import re
from common import *
import vgen, tmpl
from vgen import SPEC
from rustsrc import walk, toks_text

CMDS = {'StartupCmd': (0x144, '()', '()', '()'), 'GetRandomCmd': (0x17b, '()', 'GetRandomResp', '()'), 'PcrReadCmd': (0x17e, '()', 'PcrReadResp', '()'),
        'GetCapabilityCmd': (0x17a, '()', 'GetCapabilityResp', '()')}
ROOTS = ['TpmsAuthCommand', 'TpmsAuthResponse', 'TpmSt', 'TpmCc', 'TpmiStCommandTag', 'CmdHeader', 'RespHeader', 'StartupCmd', 'GetRandomCmd', 'GetRandomResp',
         'PcrReadCmd', 'PcrReadResp', 'GetCapabilityCmd', 'GetCapabilityResp']

OPEN = ['TpmsAuthCommand', 'TpmsAuthResponse', 'CmdHeader', 'RespHeader', 'Tpm2bDigest', 'Tpm2bNonce', 'Tpm2bAuth']


class Client(tmpl.Tmpl):
    def __init__(self, exp, probe, **kw):
        super().__init__(exp, 'client.vrs', **kw)
        self.probe = probe

    def directive(self, st, group):
        if st == '//@wire':
            g = vgen.Gen(self.exp, self.probe, self.skip, self.nohint, only=ROOTS)
            self.gen = g
            g.out = self.out
            g.collect()
            n = len(self.out.lines)
            g.gen_marshalable()
            g.gen_base()
            cur = ''
            for i in range(n, len(self.out.lines)):
                m = re.match(r'\s*pub mod (\w+) \{', self.out.lines[i])
                if m:
                    cur = m.group(1)
                if cur[2:] in OPEN:
                    self.out.lines[i] = re.sub(r'^(\s*)closed spec fn', r'\1open spec fn', self.out.lines[i])
            self.fallback += g.fallback
            self.under_contract += g.under_contract
            self.problems += g.problems
            return True
        if st == '//@commands':
            o = self.out
            for t, (code, h, r, rh) in CMDS.items():
                im = [i for i in walk(self.gen.items['base'][1]) if i.kind == 'impl' and i.trait.endswith('TpmCommand') and i.self_ty == t]
                if not im:
                    raise vgen.Missing('impl TpmCommand for ' + t)
                o.add('impl TpmCommand for %s {' % t)
                for ch in im[0].children:
                    s = ch.src
                    tx = s.slice(ch.kw, ch.i1)
                    if ch.kind == 'const':
                        o.add('    ' + tx)
                    elif ch.kind == 'type':
                        want = {'Handles': h, 'RespT': r, 'RespHandles': rh}[ch.name]
                        got = re.sub(r'\s', '', tx.split('=')[1].rstrip(';'))
                        if re.sub(r'^(\w+::)*', '', got) != want and got != want:
                            self.problems.append((group, '%s::%s is %s, TPM 2.0 Part 3 gives %s' % (t, ch.name, got, want)))
                        o.add('    type %s = %s;' % (ch.name, want))
                o.add('}')
                self.names.setdefault('code_' + t, []).append((group, ''))
                self.under_contract.append((group, t, 'CMD_CODE', 'exec'))
                o.add('/// TPM 2.0 Part 2, 6.5.2\npub proof fn code_%s() ensures <%s as TpmCommand>::CMD_CODE.0 == %d {}' % (t, t, code), (group, t, 'CMD_CODE', 'proof'))
            return True
        return False

    def module_group(self, module, fn):
        if re.search(r'\b(base|marshalable|shim|safe_discriminant)\b', module) and 'client' not in module:
            return self.gen.module_group(module, fn)
        return super().module_group(module, fn)
