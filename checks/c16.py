"""C16: rewrite, rewrite_raw and redirect: first matching rule, patterns and captures, query handling, consistent path/raw path."""
import os, sys, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1

TOK = ['a', 'b/', '/', '..', '%2F', '%3f', '%20', '%e4', '?', 'q=1', '.', '#', '1']
WILD = ['/', '/', 'a', 'b', 'ab', '1', '42', '.', '..', 'x', 'x/', '?', '?', '=', '&', '%2e', '%2f', '%25', '%20', '%3f', '%23', '%e4', '%00', '%', '%zz', '~', '+', '!', '(', ':', ';', '@', '-', '_', '$', '%41', 'foo', '.php', '//', '|', "'"]
CLS = {'': '.', 'ab': '[ab]', '0123456789': '[0-9]', 'x/': '[x/]', 'abcdefghijklmnopqrstuvwxyz': '[a-z]', '/': '/', '?': r'[?]', '%': '[%]'}
HOST, HDR = 'h.example', ['', 'v/w', 'a?b', '../z', 'x y', '%41', '/abs', 'a#b', '\xe4', '$1%2']


def o(s):
    return [ord(x) for x in s]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def rx(self):
        r = self.r
        it = []
        for _ in range(r.randint(0, 4)):
            if r.random() < .45:
                it.append({'k': 'lit', 's': r.choice(['/', 'a', 'b', '/a', '?', '1', '.', 'x', '%2', '/b/', '.php', '=', '~'])})
            else:
                it.append({'k': 'cls', 's': r.choice(list(CLS)), 'min': r.choice([0, 0, 1]), 'cap': r.random() < .7})
        return {'a': r.random() < .6, 'z': r.random() < .4, 'it': it}

    def pat(self, kind, n=3, first=None):
        r = self.r
        out = [first] if first else []
        for _ in range(r.randint(0, n)):
            x = r.random()
            if x < .45:
                f, t = r.choice([(0, 0), (1, 1), (2, 2), (1, 1), (3, 3), (9, 9), (1, 2), (0, 1000), (1, 1000), (2, 1), (1000, 0), (1000, 1), (2, 0), (11, 11), (3, 2)])
                out.append({'k': r.choice(['cap', 'cap', 'prev']) if kind != 'mark' else 'prev', 'f': f, 't': t})
            elif x < .65:
                out.append({'k': 'var', 'v': r.choice(['path', 'query', 'raw', 'host', 'hdr']), 'enc': r.random() < .4})
            else:
                pool = ['/', 'a', '/x', '..', '/../', '.', '//', 'new', '$', '%', '\\', ' ', '~', '=', '&', '%2f', '/./', '-']
                if kind == 'raw':
                    pool += ['?', '#', '%41', '%00', '?a=1', '\xe4']
                if kind == 'redirect':
                    pool += ['?', '#', '?a=1']
                if kind in ('rewrite', 'query'):
                    pool += ['?', '#', '\xe4'] if kind == 'query' else ['?', '#', '\xe4']
                out.append({'k': 'lit', 's': r.choice(pool)})
        return out

    def rule(self, kind):
        r = self.r
        x = {'has': True, 'rx': self.rx()}
        if kind == 'redirect':
            x['ty'] = r.choice(['abs', 'path', 'rel', 'query'])
            first = {'abs': {'k': 'lit', 's': r.choice(['http://o/', 'https://e.org', 'a:'])}, 'path': {'k': 'lit', 's': r.choice(['/', '/x', '/a/'])}, 'rel': None, 'query': {'k': 'lit', 's': '?' + r.choice(['', 'z', 'q='])}}[x['ty']]
            x['p'] = self.pat(kind, first=first)
        else:
            x['p'] = self.pat(kind, first={'k': 'lit', 's': r.choice(['/', '/', '/n', '/a'])} if r.random() < .8 else None)
            x['hasq'] = kind == 'rewrite' and r.random() < .5
            x['q'] = self.pat('query') if x['hasq'] else []
        return x

    def stmt(self, kind=None):
        r = self.r
        k = kind or r.choice(['rewrite', 'rewrite', 'raw', 'raw', 'redirect', 'redirect', 'mark', 'if', 'if'])
        if k == 'mark':
            return {'k': 'mark', 'p': self.pat('mark')}
        if k == 'if':
            return {'k': 'if', 'v': r.choice(['path', 'query', 'raw', 'host', 'hdr']), 'rx': self.rx(), 'b': [self.stmt(r.choice(['rewrite', 'raw', 'redirect', 'mark', 'mark', 'if'] if r.random() < .3 else ['rewrite', 'raw', 'mark', 'redirect'])) for _ in range(r.randint(1, 3))]}
        n = r.choice([0, 1, 1, 2, 3])
        if n == 0:
            x = self.rule(k)
            x['has'] = False
            return {'k': k, 'rules': [x]}
        return {'k': k, 'rules': [self.rule(k) for _ in range(n)]}

    def nested(self):
        """conditions within conditions, all of them likely true: the captures are those of the innermost"""
        r = self.r
        anyc = {'k': 'cls', 's': '', 'min': 0, 'cap': True}

        def cond(depth):
            v = r.choice(['path', 'raw', 'path', 'host'])
            it = r.choice([[anyc], [lit('/'), {'k': 'cls', 's': 'ab', 'min': 0, 'cap': True}, anyc], [anyc, lit('/'), anyc]]) if v != 'host' else [{'k': 'cls', 's': 'ab', 'min': 0, 'cap': True}, anyc]
            b = []
            for _ in range(r.randint(1, 2)):
                k = r.choice(['rewrite', 'raw', 'redirect', 'mark'])
                p = [{'k': 'prev', 'f': f, 't': f} for f in r.sample([0, 1, 2], r.randint(1, 2))]
                p.insert(r.randint(1, len(p)), lit('-'))
                if k == 'mark':
                    b.append({'k': 'mark', 'p': p})
                else:
                    x = {'has': True, 'rx': {'a': False, 'z': False, 'it': [anyc]}, 'p': [lit('/')] + p}
                    if r.random() < .5:
                        x['p'].append({'k': 'cap', 'f': 1, 't': 1})
                    if k == 'redirect':
                        x['ty'] = 'path'
                    else:
                        x.update(hasq=False, q=[])
                    b.append({'k': k, 'rules': [x]})
            if depth:
                b.insert(r.randint(0, len(b)), cond(depth - 1))
            return {'k': 'if', 'v': v, 'rx': {'a': True, 'z': False, 'it': it}, 'b': b}
        return cond(r.choice([1, 1, 2]))


VAR = {'path': 'req.path', 'query': 'req.query', 'raw': 'req.raw_path', 'host': 'req.host', 'hdr': 'req.header[X-H]'}
CVAR = dict(VAR, hdr='req.header["X-H"]')


def t_str(s):
    return '"' + ''.join('\\\\' if x == '\\' else '\\"' if x == '"' else x if ord(x) < 127 else '\\x%02x' % ord(x) for x in s) + '"'


def t_rx(rx):
    s = '^' if rx['a'] else ''
    for x in rx['it']:
        if x['k'] == 'lit':
            s += re.sub(r'([.?*+()\[\]{}^$|\\])', r'\\\1', x['s'])
        else:
            y = CLS[x['s']] + ('+' if x['min'] else '*')
            s += '(%s)' % y if x['cap'] else y
    return s + ('\\z' if rx['z'] else '')


def t_pat(p, esc):
    s = ''
    for x in p:
        if x['k'] == 'lit':
            s += re.sub(r'([$%%\\%s])' % ('?' if esc else ''), r'\\\1', x['s'])
        elif x['k'] in ('cap', 'prev'):
            f, t = x['f'], x['t']
            s += '$' if x['k'] == 'cap' else '%'
            s += '%d' % f if f == t and f < 10 else '[%d]' % f if f == t else '[%s-%s]' % ('' if f == 1000 else f, '' if t == 1000 else t)
        else:
            s += '%%{%s%s}' % ('enc:' if x['enc'] else '', VAR[x['v']])
    return s


def t_target(k, r):
    if k == 'rewrite':
        return t_pat(r['p'], True) + ('?' + t_pat(r['q'], False) if r['hasq'] else '')
    if k == 'redirect' and r['ty'] == 'rel':
        return './' + t_pat(r['p'], False)
    return t_pat(r['p'], False)


def t_stmt(x, ind='\t\t'):
    k = x['k']
    if k == 'mark':
        return ind + 'header.add "X-M" => %s;\n' % t_str('[%s]' % t_pat(x['p'], False))
    if k == 'if':
        return ind + 'if %s =~ %s {\n%s%s}\n' % (CVAR[x['v']], t_str(t_rx(x['rx'])), ''.join(t_stmt(y, ind + '\t') for y in x['b']), ind)
    name = {'rewrite': 'rewrite', 'raw': 'rewrite_raw', 'redirect': 'redirect'}[k]
    if not x['rules'][0]['has']:
        return ind + '%s %s;\n' % (name, t_str(t_target(k, x['rules'][0])))
    rs = ['%s => %s' % (t_str(t_rx(r['rx'])), t_str(t_target(k, r))) for r in x['rules']]
    return ind + '%s %s;\n' % (name, rs[0] if len(rs) == 1 and len(rs[0]) % 2 else '[%s]' % ', '.join(rs))


def enc(x):
    """strings of a program -> byte lists"""
    if isinstance(x, dict):
        return {k: (o(v) if k == 's' else enc(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [enc(y) for y in x]
    return x


def lit(s):
    return {'k': 'lit', 's': s}


def pool():
    """statements for the exhaustive part"""
    anyc = {'k': 'cls', 's': '', 'min': 0, 'cap': True}
    rx = lambda a, z, *it: {'a': a, 'z': z, 'it': list(it)}
    R = lambda has, rx_, p, q=None: {'has': has, 'rx': rx_, 'p': p, 'q': q or [], 'hasq': q is not None}
    D = lambda has, rx_, ty, p: {'has': has, 'rx': rx_, 'p': p, 'ty': ty}
    e = rx(False, False)
    all_ = rx(True, True, lit('/'), anyc)
    cap = lambda f, t=None: {'k': 'cap', 'f': f, 't': f if t is None else t}
    prev = lambda f, t=None: {'k': 'prev', 'f': f, 't': f if t is None else t}
    var = lambda v, en=False: {'k': 'var', 'v': v, 'enc': en}
    return [
        {'k': 'rewrite', 'rules': [R(True, all_, [lit('/n/'), cap(1)])]},
        {'k': 'rewrite', 'rules': [R(True, rx(True, False, lit('/a')), [lit('/A'), var('raw')], [lit('x='), var('query')]), R(True, all_, [cap(1), lit('/..')])]},
        {'k': 'rewrite', 'rules': [R(False, e, [lit('/s?t/'), var('path')], [])]},
        {'k': 'raw', 'rules': [R(True, all_, [cap(0), lit('/z')])]},
        {'k': 'raw', 'rules': [R(True, rx(False, False, lit('?'), anyc), [lit('/q/'), cap(1), lit('?'), cap(1)]), R(True, rx(False, False, lit('%2'), anyc), [lit('/p/'), cap(1)])]},
        {'k': 'raw', 'rules': [R(False, e, [var('path', True), lit('?'), var('query')])]},
        {'k': 'redirect', 'rules': [D(True, all_, 'rel', [lit('n'), var('path', True)])]},
        {'k': 'redirect', 'rules': [D(False, e, 'query', [lit('?n='), var('query')])]},
        {'k': 'redirect', 'rules': [D(True, rx(True, False, lit('/a')), 'path', [lit('/'), cap(0)]), D(True, rx(True, False, lit('/b'), anyc), 'abs', [lit('http://o'), cap(1), var('path', True)])]},
        {'k': 'if', 'v': 'path', 'rx': rx(True, False, lit('/'), {'k': 'cls', 's': 'ab', 'min': 1, 'cap': True}, anyc), 'b': [
            {'k': 'rewrite', 'rules': [R(True, rx(False, True, {'k': 'cls', 's': '/', 'min': 1, 'cap': True}), [lit('/i'), prev(2), prev(1), cap(1)]), R(False, e, [lit('/j'), prev(1000, 0)])]}, {'k': 'mark', 'p': [prev(1), lit('-'), prev(1, 1000)]}]},
    ]


def run(c):
    rng = c.rng
    P = pool()
    world = {'tok': [o(t) for t in TOK], 'stm': enc(P), 'host': o(HOST), 'hdr': [], 'origin': o('http://' + HOST)}
    wp = os.path.join(vlib.scratch(), 'rwworld.ndjson')
    vlib.write_ndjson(wp, [world])
    env = {'WORLD': wp}
    scn = []
    for cfg, txt in (('RewriteMC1.cfg', '<= 3 tokens, 1 statement'), ('RewriteMC2.cfg', '<= 2 tokens, 2 statements')):
        r = vlib.tlc('RewriteMC', cfg, env=env, want_ok=True, timeout=900)
        c.model(r, 'RewriteMC: every target of %s' % txt)
        scn += vlib.printed(r.out, 'SCN')
    if c.thorough:
        r = vlib.tlc('RewriteMC', 'RewriteMC3.cfg', env=env, want_ok=True, timeout=3000, xmx='20g')
        c.model(r, 'RewriteMC: every target of <= 3 tokens, 2 statements')
    if vlib.tlc('RewriteMC', 'RewriteVac.cfg', env=env).ok:
        raise vlib.Broken('nothing is ever rewritten in RewriteMC')
    c.log('%d scenarios enumerated by TLC' % len(scn))
    rng.shuffle(scn)
    scn = scn[:41620 if c.thorough else 9000]
    progs, index, jobs = [], {}, []
    for pr, toks in scn:
        k = tuple(pr)
        if k not in index:
            progs.append([P[i - 1] for i in pr])
            index[k] = len(progs)
        jobs.append({'prog': index[k], 't': '/' + ''.join(TOK[i - 1] for i in toks), 'h': ''})
    g = Gen(rng)
    for _ in range(4000 if c.thorough else 900):
        progs.append([g.nested()] if rng.random() < .25 else [g.stmt() for _ in range(rng.randint(1, 4))])
        for _ in range(12):
            while True:
                t = '/' + ''.join(rng.choice(WILD) for _ in range(rng.randint(0, 7)))
                if t.count('#') <= 1:
                    break
            jobs.append({'prog': len(progs), 't': t, 'h': rng.choice(HDR)})
    conf = 'keepalive.timeout 60;\nmap "%{req.header[x-p]}" => [\n' + ',\n'.join('\t"%d" => {\n%s\t}' % (i + 1, ''.join(t_stmt(x) for x in p)) for i, p in enumerate(progs)) + '\n];\n' \
        'header.add "X-P" => "[%{req.path}]"; header.add "X-Q" => "[%{req.query}]"; header.add "X-R" => "[%{req.raw_path}]"; respond 200 => "x";\n'
    pp = os.path.join(vlib.scratch(), 'rwprogs.ndjson')
    vlib.write_ndjson(pp, [enc(p) for p in progs])
    srv = vlib.Server('', modules=['mod_rewrite', 'mod_redirect'], name='c16')
    srv.conf = srv.conf + conf

    def raw(j):
        return ('GET %s HTTP/1.1\r\nHost: %s\r\nX-P: %d\r\n' % (j['t'], HOST, j['prog']) + ('X-H: %s\r\n' % j['h'] if j['h'] else '') + '\r\n').encode('latin1')

    def obs(j, x):
        e = {'prog': j['prog'], 'rq': {'t': o(j['t']), 'host': o(HOST), 'hdr': o(j['h']), 'origin': o('http://' + HOST)}, 'st': 0, 'loc': [], 'path': [], 'query': [], 'raw': [], 'marks': []}
        if x is None or x['bad']:
            return e
        hd = x['h']
        v = lambda k: o((hd.get(k) or ['[]'])[0][1:-1])
        e.update(st=x['status'], loc=o((hd.get('location') or [''])[0]), path=v('x-p'), query=v('x-q'), raw=v('x-r'), marks=[o(m[1:-1]) for m in hd.get('x-m', [])])
        return e
    with srv:
        play = http1.Player((srv.ip, srv.port), raw, lambda j: 'GET')
        parts = [jobs[i:i + 40] for i in range(0, len(jobs), 40)]
        res = [x for p in vlib.parallel(lambda p: play(p), parts, 12) for x in p]
        tr = [obs(j, x) for j, x in zip(jobs, res)]
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
        c.log('%d programs, %d requests' % (len(progs), len(jobs)))
        rej, d, gn = vlib.validate('RewriteTrace', 'RewriteTrace.cfg', tr, batch=20000, env={'PROGS': pp})
        c.cov['states'] += d
        c.cov['transitions'] += gn
        c.cov['traces_validated_against_impl'] += len(tr)
        st = {}
        for t in tr:
            st[t['st']] = st.get(t['st'], 0) + 1
        c.note(programs=len(progs), requests=len(jobs), statuses=st)
        sh = lambda e: {k: (''.join(map(chr, v)) if isinstance(v, list) and k != 'marks' else [''.join(map(chr, m)) for m in v] if k == 'marks' else v) for k, v in e.items() if k != 'rq'}
        c.sample({'program': ''.join(t_stmt(x) for x in progs[jobs[-1]['prog'] - 1]), 'request': raw(jobs[-1]).decode('latin1'), 'observed': sh(tr[-1])})
        if rej:
            idx = sorted(rej)[:60]
            c.log('%d rejected, repeating' % len(rej))
            tr2 = [obs(jobs[i], play([jobs[i]])[0]) for i in idx]
            rej2, _, _ = vlib.validate('RewriteTrace', 'RewriteTrace.cfg', tr2, env={'PROGS': pp})
            for x in sorted(rej2)[:10]:
                i = idx[x]
                text = ''.join(t_stmt(y) for y in progs[jobs[i]['prog'] - 1])
                c.violation('rewrite', 'under\n%s the request %r gives %r' % (text, raw(jobs[i]), sh(tr2[x])), {'config': text, 'request': raw(jobs[i]).decode('latin1'), 'observed': sh(tr2[x])})
            if len(rej) > 3 and not rej2:
                c.violation('rewrite-pipelined', '%d answers wrong only when pipelined' % len(rej), {'request': raw(jobs[idx[0]]).decode('latin1'), 'observed': sh(tr[idx[0]])})


vlib.main('C16', run)
