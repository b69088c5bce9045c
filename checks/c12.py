"""C12: values, expressions, variables and scopes in the configuration file are evaluated as documented; anything else is refused."""
import os, sys, json, random, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib

NAMES = ['x', 'y_1', 'a.b', 'e', 'ex', 'include_x', 'notx', 'orb', '_u', 'trueish', 'iff', 'X9.z_']
ENV = {'VCFG_A': 'hello', 'VCFG_B': ''}
UNITS = [('', '')] * 10 + [(p, u) for p in ['', 'k', 'm', 'g', 't', 'p'] for u in ['byte', 'bit']] + [('', 'sec'), ('', 'min'), ('', 'hours'), ('', 'days')]
ESC = {'t': '\t', 'r': '\r', 'n': '\n', '\\': '\\', '"': '"', "'": "'"}


class Gen:
    def __init__(self, r, d):
        self.r = r
        self.dir = d
        self.nf = 0
        self.out = 0

    # ---- expressions: dict with 'k' for the spec and 'text' maker
    def intlit(self, big=None):
        r = self.r
        base = r.choice([10, 10, 10, 8, 16])
        x = r.random()
        if base == 10:
            v = r.choice([0, 1, 2, 7, 8, 9, 10, 64, 100, 255, 1000, 9999, 10000, 65536]) if x < .7 else r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 62, 10 ** 18, 10 ** 19, 8191, 8192, 9007199254740991, 9007199254740992, 2 ** 53 // 8])
            ds = [int(c) for c in str(v)]
            t = str(v)
        elif base == 8:
            v = r.choice([1, 7, 8, 0o644, 0o777, 2 ** 63 - 1, 2 ** 63, 2 ** 62])
            ds = [int(c) for c in '%o' % v]
            t = '0' + '%o' % v
        else:
            v = r.choice([0, 10, 15, 255, 4096, 0xabcdef, 2 ** 63 - 1, 2 ** 63, 2 ** 62])
            ds = [int(c, 16) for c in '%x' % v]
            t = '0x' + ''.join(r.choice([c, c.upper()]) for c in '%x' % v)
        neg = r.random() < .2
        pre, unit = r.choice(UNITS)
        if unit == 'bit' and pre == '' and v >= 10 ** 7:
            unit = ''
        if unit in ('', 'sec', 'min', 'hours', 'days'):
            pre = ''
        if base == 16 and pre == '' and unit[:1] in 'bd':     # the suffix would read as hexadecimal digits
            unit = ''
        # the sign of zero with a base prefix is irrelevant
        return {'k': 'int', 'ds': ds, 'base': base, 'neg': neg, 'pre': pre, 'unit': unit, '_t': ('-' if neg else '') + t + pre + unit}

    def small(self):
        v = self.r.choice([0, 1, 2, 3, 7, 10, 12, 100, 9999])
        neg = self.r.random() < .2
        return {'k': 'int', 'ds': [int(c) for c in str(v)], 'base': 10, 'neg': neg, 'pre': '', 'unit': '', '_t': ('-' if neg else '') + str(v)}

    def strlit(self):
        r = self.r
        q = r.choice(['"', "'"])
        e = r.random() < .3
        t, s = '', ''
        bad = False
        for _ in range(r.randint(0, 5)):
            x = r.random()
            if x < .5:
                c = r.choice(['a', 'B', ' ', '#', '$', '%', '{', ';', '=>', 'x', '/'] + ['"' if q == "'" else "'"])
                t += c
                s += c
            elif x < .7:
                c = r.choice(['t', 'n', '\\', '"', "'"])
                t += '\\' + c
                s += ESC[c]
            elif x < .85:
                c = r.choice(['A', 'z', '~', '"', "'", '\\', '#'])
                h = '%02x' % ord(c)
                t += '\\x' + (h.upper() if r.random() < .5 else h)
                s += c
            elif x < .97 or e:
                if e and r.random() < .8:
                    continue
                c = r.choice(['d', 'a', '.', '1', '$', '(', 'e'])
                t += '\\' + c
                s += '\\' + c
                bad = bad or e
            else:
                t += '\\x' + r.choice(['g1', '1g', 'zz']) if r.random() < .3 else ''
        if re.search(r'(?<!\\)(\\\\)*\\x(?![0-9a-fA-F]{2})', t):
            bad = True
        return {'k': 'bad' if bad else 'str', 's': s, '_t': ('e' if e else '') + q + t + q}

    def expr(self, d, want=None):
        r = self.r
        want = want or r.choice(['num', 'num', 'num', 'str', 'str', 'list', 'bool', 'any'])
        x = r.random()
        if x < .12:
            return {'k': 'var', 'n': r.choice(NAMES + ['undef'] if r.random() < .05 else NAMES)}
        if want == 'any':
            want = r.choice(['num', 'str', 'list', 'bool', 'null', 'block'])
            if r.random() < .12 and d > 0:   # wrong types
                return {'k': r.choice(['op']), 'op': r.choice('+-*/'), 'l': self.expr(d - 1), 'r': self.expr(d - 1)}
        if d <= 0 or x < .35:
            if want == 'num':
                return self.intlit() if r.random() < .5 else self.small()
            if want == 'str':
                return self.strlit()
            if want == 'bool':
                return {'k': 'bool', 'b': r.random() < .5}
            if want == 'null':
                return {'k': 'null', '_t': r.choice(['none', 'default'])}
            if want == 'list':
                return {'k': 'list', 'l': [], '_sq': True}
            return {'k': 'null', '_t': 'none'}
        if want == 'num':
            y = r.random()
            if y < .7:
                op = r.choice('++--**/')
                if op == '/':
                    return {'k': 'op', 'op': op, 'l': self.small(), 'r': self.small()}
                return {'k': 'op', 'op': op, 'l': self.expr(d - 1, 'num'), 'r': self.expr(d - 1, 'num')}
            if y < .8:
                return {'k': 'neg', 'l': self.expr(d - 1, 'num')}
            if y < .9:
                return {'k': 'castint', 'l': self.expr(d - 1, r.choice(['bool', 'num'])), 'num': {'ok': False}}
            v = r.choice(['12', '0', '-7', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '1x', '', '0x10', '077', '5 ', '3kbyte'])
            ok = bool(re.match(r'^-?\d+$', v))
            num = {'ok': ok}
            if ok:
                num.update(ds=[int(ch) for ch in v.lstrip('-')], base=10, neg=v[0] == '-', pre='', unit='')
            return {'k': 'castint', 'l': {'k': 'str', 's': v, '_t': '"%s"' % v}, 'num': num}
        if want == 'str':
            y = r.random()
            if y < .6:
                return {'k': 'op', 'op': '+', 'l': self.expr(d - 1, 'str'), 'r': self.expr(d - 1, 'str')}
            if y < .9:
                return {'k': 'caststr', 'l': self.expr(d - 1, r.choice(['num', 'bool', 'list']))}
            return {'k': 'op', 'op': r.choice('-*/'), 'l': self.expr(d - 1, 'str'), 'r': self.expr(d - 1, 'str')} if r.random() < .1 else self.strlit()
        if want == 'bool':
            return {'k': 'not', 'l': self.expr(d - 1, 'bool')}
        if want == 'block':
            return {'k': 'block', 'b': self.stmts(d - 1)}
        if want == 'null':
            return {'k': 'null', '_t': r.choice(['none', 'default'])}
        y = r.random()
        if y < .25:
            return {'k': 'op', 'op': '+', 'l': self.expr(d - 1, 'list'), 'r': self.expr(d - 1, 'list')}
        if y < .5:
            n = r.randint(1, 3)
            l = []
            for _ in range(n):
                l += [self.expr(d - 1, 'str'), self.expr(d - 1)]
            return {'k': 'kv', 'l': l}
        n = r.randint(0, 3)
        sq = n < 2 or r.random() < .6
        return {'k': 'list', 'l': [self.expr(d - 1) for _ in range(n)], '_sq': sq}

    def stmt(self, d):
        r = self.r
        x = r.random()
        if x < .45:
            how = r.choice(['set', 'set', 'set', 'local', 'global'])
            return {'k': 'set', 'how': how, 'n': r.choice(NAMES[:6]), 'e': self.expr(2)}
        if x < .75 or d <= 0:
            return {'k': 'print', 'e': self.expr(3)}
        if x < .85:
            return {'k': 'set', 'how': 'set', 'n': 'blk', 'e': {'k': 'block', 'b': self.stmts(d - 1)}}
        if x < .92:
            return {'k': 'if', 'b': self.stmts(d - 1), 'e': self.stmts(d - 1) if r.random() < .5 else []}
        if x < .96:
            return {'k': 'include', 'b': self.stmts(d - 1)}
        return {'k': 'setup', 'b': [s for s in self.stmts(d - 1) if (s['k'] == 'set' and s['how'] == 'set') or s['k'] == 'print']}

    def stmts(self, d):
        return [self.stmt(d) for _ in range(self.r.randint(1, 4))]

    def program(self):
        r = self.r
        init = []
        for n in NAMES:
            e = {'num': self.small, 'str': self.strlit}[r.choice(['num', 'num', 'str'])]()
            if e['k'] == 'bad':
                e = self.small()
            init.append({'k': 'set', 'how': r.choice(['set', 'set', 'local', 'global']), 'n': n, 'e': e})
        return init + self.stmts(2)

    # ---- text
    def ws(self):
        return self.r.choice([' '] * 8 + ['\n', '\t', ' # c;}"\n', '  ', '\r\n'])

    def t(self, x, prec=0):
        r = self.r
        k = x['k']
        if '_t' in x:
            return x['_t']
        if k == 'var':
            return x['n']
        if k == 'bool':
            return 'true' if x['b'] else 'false'
        if k == 'int':
            return ('-' if x['neg'] else '') + ''.join(map(str, x['ds']))
        if k == 'op':
            p = 3 if x['op'] in '+-' else 4
            s = self.t(x['l'], p) + self.ws() + x['op'] + ' ' + self.t(x['r'], p + 1)
            return '(%s)' % s if p < prec or r.random() < .15 else s
        if k == 'neg':
            return '- ' + self.u(x['l'])
        if k == 'not':
            u = self.u(x['l'])
            return (r.choice(['not ', '! ']) if u[0] == '!' else r.choice(['!', 'not ', '! '])) + u     # "!!" is no token
        if k == 'castint':
            return r.choice(['cast(int) ', 'cast( int )', 'cast (int)\n']) + self.u(x['l'])
        if k == 'caststr':
            return r.choice(['cast(string) ', 'cast(string)']) + self.u(x['l'])
        if k == 'list':
            b = '[]' if x['_sq'] else '()'
            s = (',' + self.ws()).join(self.t(y) for y in x['l'])
            if x['l'] and x['_sq'] and r.random() < .2:
                s += ','
            return b[0] + s + b[1]
        if k == 'kv':
            s = ', '.join(self.t(x['l'][i]) + self.ws() + '=>' + self.ws() + self.t(x['l'][i + 1]) for i in range(0, len(x['l']), 2))
            return '[%s]' % s
        if k == 'block':
            return '{\n' + self.ts(x['b']) + '}'
        raise ValueError(k)

    def u(self, x):
        """operand of a unary operator"""
        s = self.t(x)
        return s if x['k'] in ('var', 'bool', 'str', 'list', 'kv', 'castint', 'caststr', 'not') or (x['k'] == 'int' and not x['neg']) else '(%s)' % s

    def ts(self, ss):
        return ''.join(self.tst(s) for s in ss)

    def tst(self, x):
        if x['k'] == 'set':
            how = {'set': '', 'local': 'local ', 'global': 'global '}[x['how']]
            return '%s%s%s=%s%s%s;\n' % (how, x['n'], self.r.choice(['', ' ']), self.r.choice([' ', '\t']), self.t(x['e']), self.r.choice(['', ' ']))
        if x['k'] == 'print':
            return '__print ["m", %s];\n' % self.t(x['e'])
        if x['k'] == 'if':
            return 'if req.path == "/" {\n%s}%s\n' % (self.ts(x['b']), ' else {\n%s}' % self.ts(x['e']) if x['e'] else '')
        if x['k'] == 'setup':
            return 'setup {\n%s}\n' % self.ts(x['b'])
        self.nf += 1
        p = '%s/inc%d.conf' % (self.dir, self.nf)
        with open(p, 'w') as f:
            f.write(self.ts(x['b']))
        return 'include "%s";\n' % p


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if not k.startswith('_')}
    if isinstance(x, list):
        return [strip(y) for y in x]
    return x


LOGLINE = re.compile(r'^\d\d/\w\w\w/\d{4} \d\d:\d\d:\d\d \w+ ', re.M)


def load(path):
    e = dict(os.environ, LC_ALL='C')
    p = subprocess.run([vlib.worker_bin(), '-t', '-m', vlib.mod_dir(), '-c', path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.dirname(path), env=e, timeout=60)
    t = p.stdout.decode('latin1')
    out = []
    for m in LOGLINE.split(t):
        mm = re.match(r'.*?config __print: \(\((?:"m"), (.*)\)\)\n?\Z', m, re.S) or re.match(r'.*?config __print: \("m", (.*)\)\n?\Z', m, re.S)
        if mm:
            out.append(mm.group(1))
    return p.returncode, out, t


def run(c):
    rng = c.rng
    r = vlib.tlc('ConfigValueMC', 'ConfigValueMC.cfg', want_ok=True, timeout=600)
    c.model(r, 'ConfigValueMC: every history of 3 variable operations')
    if c.thorough:
        c.model(vlib.tlc('ConfigValueMC', 'ConfigValueMC4.cfg', want_ok=True, timeout=3000, xmx='20g'), 'ConfigValueMC: every history of 4 variable operations')
    if vlib.tlc('ConfigValueMC', 'ConfigValueVac.cfg').ok:
        raise vlib.Broken('nothing is ever refused in ConfigValueMC')
    scn = vlib.printed(r.out, 'SCN')
    rng.shuffle(scn)
    d = vlib.scratch() + '/cfg'
    os.makedirs(d)
    g = Gen(rng, d)
    progs = [g.program() for _ in range(12000 if c.thorough else 1500)] + scn[:8000 if c.thorough else 1000]
    texts = []
    for i, p in enumerate(progs):
        t = 'setup { log [default => "stderr"]; }\n' + g.ts(p)
        with open('%s/p%d.conf' % (d, i), 'w', newline='') as f:
            f.write(t)
        texts.append(t)
    res = vlib.parallel(lambda i: load('%s/p%d.conf' % (d, i)), range(len(progs)), 10)
    tr = [{'prog': strip(p), 'ok': x[0] == 0, 'out': x[1]} for p, x in zip(progs, res)]
    c.log('%d configurations loaded, %d accepted, %d values printed' % (len(tr), sum(t['ok'] for t in tr), sum(len(t['out']) for t in tr)))
    for i, x in enumerate(res):
        if x[0] not in (0, 1):
            c.violation('crash', 'loading a configuration ended with status %s' % x[0], {'config': texts[i], 'output': x[2][-1500:]})
    rej, ds, gn = vlib.validate('ConfigValueTrace', 'ConfigValueTrace.cfg', tr, batch=4000)
    c.cov['states'] += ds
    c.cov['transitions'] += gn
    c.cov['traces_validated_against_impl'] += len(tr)
    for i in sorted(rej)[:10]:
        c.violation('config-value', 'configuration evaluated wrongly (accepted=%s): %s' % (tr[i]['ok'], texts[i][-700:]), {'config': texts[i], 'observed': tr[i]['out'], 'output': res[i][2][-1500:], 'prog': tr[i]['prog']})
    c.note(accepted=sum(t['ok'] for t in tr), refused=sum(not t['ok'] for t in tr), printed_values=sum(len(t['out']) for t in tr))
    c.sample({'config': texts[0][:700], 'printed': tr[0]['out']})


vlib.main('C12', run)
