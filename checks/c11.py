"""C11: conditions, blocks, captures and options of a configuration do what the documentation says, for every request."""
import os, sys, json, random, re, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1, stubs

PATHS = ['/a', '/ab', '/b', '/a/x', '/d/', '/d', '/q1', '/a1', '/', '/aa', '/.b', '/abc/def']
QUERIES = ['', 'q', 'q2', 'a=1', 'q=a', '1']
HOSTS = ['h', 'g', 'h.example', 'a.h', 'x']
HDR = ['', 'v', 'val', 'v1', 'av']
ENVK = ['A', 'B']
METHODS = ['GET', 'GET', 'POST', 'DELETE']
FILES = {'/a': 5, '/ab': 0, '/d/f': 3, '/.b': 100}
REMOTES = ['127.0.0.1', '127.0.0.2', '127.0.1.1', '127.1.2.3', '127.255.0.129', '127.0.0.130']
CLS = [('', '.'), ('ab', '[ab]'), ('0123456789', '[0-9]'), ('/', '[/]'), ('abdhxqv', '[abdhxqv]')]
LV = {'path': 'req.path', 'raw_path': 'req.raw_path', 'query': 'req.query', 'host': 'req.host', 'method': 'req.method', 'scheme': 'req.scheme', 'remoteip': 'req.remoteip', 'header': 'req.header', 'env': 'req.env', 'ppath': 'phys.path', 'docroot': 'phys.docroot',
      'rheader': 'resp.header', 'length': 'req.length', 'localport': 'req.localport', 'size': 'phys.size', 'status': 'resp.status', 'is_handled': 'req.is_handled', 'exists': 'phys.exists', 'is_dir': 'phys.is_dir', 'is_file': 'phys.is_file'}
LONG = {'req.': 'request.', 'phys.': 'physical.', 'resp.': 'response.'}
OPS = ['==', '!=', '=^', '!^', '=$', '!$']
IOPS = ['==', '!=', '<', '<=', '>', '>=']


class Gen:
    def __init__(self, rng, port, root, backend):
        self.r = rng
        self.port = port
        self.root = root
        self.backend = backend
        self.n = 0
        self.pre = []

    def fresh(self):
        self.n += 1
        return self.n

    def operand(self, lv):
        r = self.r
        pool = {'path': PATHS + ['/', '/a', 'x', 'b', ''], 'raw_path': PATHS + ['?q', '/a?q', '2'], 'query': QUERIES + ['2'], 'host': HOSTS + ['.example', 'a.'], 'method': ['GET', 'POST', 'DELETE', 'G', 'ET'], 'scheme': ['http', 'https', 'ht'], 'remoteip': REMOTES + ['127.0', '.1', '.130'],
                'header': HDR, 'env': HDR + ['va', 'q2', '/a', 'a1'], 'ppath': ['/www/a', '/d/', 'b', ''] + [self.root + p for p in PATHS[:3]], 'docroot': [self.root, '', '/www'], 'rheader': HDR + ['B1', 'B'], 'length': ['0', '3'], 'status': ['200', '20'], 'localport': [str(self.port)], 'size': ['5', '-1', '3']}
        return r.choice(pool[lv])

    def rx(self):
        r = self.r
        items = []
        for _ in range(r.randint(1, 3)):
            if r.random() < .45:
                items.append({'k': 'lit', 's': r.choice(['/', 'a', 'b', '/a', 'q', 'v', 'h', '1', 'd/', 'x']), 'min': 0, 'cap': False})
            else:
                items.append({'k': 'cls', 's': r.choice(CLS)[0], 'min': r.choice([0, 0, 1]), 'cap': r.random() < .7})
        return {'a': r.random() < .7, 'z': r.random() < .3, 'it': items}

    def atom(self, phase):
        r = self.r
        lvs = ['path', 'path', 'path', 'raw_path', 'query', 'query', 'host', 'method', 'scheme', 'remoteip', 'header', 'env', 'env', 'ppath', 'docroot', 'length', 'localport', 'size', 'is_handled', 'exists', 'is_dir', 'is_file'] + (['rheader', 'rheader', 'status', 'status'] if phase else [])
        lv = r.choice(lvs)
        a = {'k': 'atom', 'lv': lv, 'key': '', 'op': '', 's': '', 'i': 0, 'rx': 0, 'net': 0}
        if lv == 'header':
            a['key'] = 'x-h'
        if lv == 'env':
            a['key'] = r.choice(ENVK)
        if lv == 'rheader':
            a['key'] = r.choice(['X-R', 'X-B'])
        if lv in ('is_handled', 'exists', 'is_dir', 'is_file'):
            a['ty'] = 'bool'
        elif lv in ('length', 'localport', 'size', 'status') and r.random() < .85:
            a.update(ty='int', op=r.choice(IOPS), i=r.choice({'length': [0, 1, 3, 5], 'localport': [self.port, self.port + 1, 80], 'size': [-1, 0, 3, 4, 5, 6, 100], 'status': [200, 201, 299, 404, 500]}[lv]))
        elif lv == 'remoteip' and r.random() < .8:
            bits = r.choice([0, 1, 7, 8, 9, 15, 16, 23, 24, 25, 31, 32])
            a.update(ty='net', op=r.choice(['=/', '!/']), net={'addr': [int(x) for x in r.choice(REMOTES + ['10.0.0.0', '255.0.0.0']).split('.')], 'bits': bits})
        elif lv not in ('length', 'localport', 'size', 'status', 'remoteip') and r.random() < .5:
            a.update(ty='rx', op=r.choice(['=~', '=~', '!~']), rx=self.rx())
        else:
            a.update(ty='str', op=r.choice(OPS), s=self.operand(lv))
        return a

    def expr(self, depth, phase):
        r = self.r
        x = r.random()
        if depth <= 0 or x < .35:
            e = self.atom(phase)
        else:
            e = {'k': r.choice(['and', 'or']), 'l': self.expr(depth - 1, phase), 'r': self.expr(depth - 1, phase)}
        if r.random() < .2:
            e = {'k': 'not', 'l': e}
        return e

    def pat(self):
        r = self.r
        out = []
        for _ in range(r.randint(0, 2)):
            x = r.random()
            if x < .6:
                f, t = r.choice([(0, 0), (1, 1), (2, 2), (1, 1), (1, 2), (0, 1000), (1, 1000), (2, 1), (1000, 0), (1000, 1), (2, 0), (3, 3)])
                out.append({'k': 'cap', 'f': f, 't': t})
            elif x < .8:
                lv = r.choice(['path', 'query', 'host', 'method', 'env', 'header', 'length', 'remoteip'])
                out.append({'k': 'var', 'lv': lv, 'key': {'env': r.choice(ENVK), 'header': 'x-h'}.get(lv, '')})
            else:
                out.append({'k': 'lit', 's': r.choice(['v', 'a', '/', '.', 'z1'])})
        return out

    def stmt(self, depth, phase):
        r = self.r
        x = r.random()
        if depth > 0 and x < .45:
            b = self.stmts(depth - 1, phase)
            e = self.stmts(depth - 1, phase) if r.random() < .6 else []
            return {'k': 'if', 'c': self.expr(2, phase), 'b': b, 'e': e}
        if depth > 0 and x < .52:
            return {'k': 'block', 'b': self.stmts(depth - 1, phase)}
        if depth > 0 and x < .58:
            keys = r.sample(['/a', '/b', 'q2', 'h', 'a', '1', 'x', '/d/', ''], r.randint(1, 4))
            m, bs = [], []
            while keys:
                k = r.choice([1, 1, 2])
                m.append({'keys': keys[:k], 'n': len(bs) + 1})
                keys = keys[k:]
                bs.append(self.stmts(depth - 1, phase))
            d = r.random() < .5
            if d:
                bs.append(self.stmts(depth - 1, phase))
            p = self.pat() or [{'k': 'var', 'lv': 'path', 'key': ''}]
            return {'k': 'map', 'p': p, 'm': m, 'bs': bs, 'def': d}
        k = r.choice(['t', 't', 't', 'h', 'env', 'env', 'rh', 'tag', 'docroot'] + (['respond', 'backend'] if not phase and r.random() < .5 else []))
        if k in ('t', 'h'):
            return {'k': k, 'n': self.fresh(), 'p': self.pat()}
        if k == 'env':
            return {'k': 'env', 'key': r.choice(ENVK), 'p': self.pat()}
        if k == 'rh':
            return {'k': 'rh', 'key': 'X-R', 'p': self.pat()}
        if k == 'tag':
            return {'k': 'tag', 's': 'tag%d' % self.fresh()}
        if k == 'docroot':
            return {'k': 'docroot'}
        if k == 'respond':
            return {'k': 'respond', 'n': r.choice([200, 201, 299, 404, 500]), 'p': [{'k': 'lit', 's': 'R%d' % self.fresh()}] + self.pat()}
        return {'k': 'backend', 'n': r.choice([200, 201, 299, 404]), 's': r.choice(['B1', 'B2'])}

    def stmts(self, depth, phase):
        return [self.stmt(depth, phase) for _ in range(self.r.randint(1, 3))]

    def program(self, depth=3):
        return self.stmts(depth, 0) + [{'k': 'respond', 'n': 200, 'p': [{'k': 'lit', 's': 'F'}, {'k': 'var', 'lv': 'env', 'key': 'T'}]}] + self.stmts(depth - 1, 1) + [{'k': 'h', 'n': 0, 'p': [{'k': 'var', 'lv': 'env', 'key': 'T'}]}]

    # ---- text
    def name(self, lv, key):
        n = LV[lv]
        if self.r.random() < .2:
            for a, b in LONG.items():
                if n.startswith(a):
                    n = b + n[len(a):]
                    break
        if lv in ('header', 'env', 'rheader'):
            if lv == 'header' and self.r.random() < .5:
                key = 'X-H'
            if lv == 'rheader' and self.r.random() < .3:
                key = key.lower()
            if lv == 'env' and self.r.random() < .3:
                n = n.replace('.env', '.environment') if not n.endswith('environment') else n
            return n, key
        return n, None

    def t_pat(self, p):
        s = ''
        for x in p:
            if x['k'] == 'lit':
                s += x['s']
            elif x['k'] == 'cap':
                f, t = x['f'], x['t']
                if f == t and self.r.random() < .7:
                    s += '%%%d' % f
                elif f == t:
                    s += '%%[%d]' % f
                else:
                    s += '%%[%s-%s]' % ('' if f == 1000 else f, '' if t == 1000 else t)
            else:
                n, key = self.name(x['lv'], x['key'])
                s += '%%{%s%s}' % (n, '' if key is None else '[%s]' % key)
        return '"%s"' % s

    def t_rx(self, rx):
        s = '^' if rx['a'] else ''
        for x in rx['it']:
            if x['k'] == 'lit':
                s += x['s']
            else:
                c = dict(CLS)[x['s']] + ('+' if x['min'] else '*')
                s += '(%s)' % c if x['cap'] else c
        return s + ('$' if rx['z'] else '')

    def t_atom(self, a, neg=False):
        n, key = self.name(a['lv'], a['key'])
        if key is not None:
            n += '["%s"]' % key
        if a['ty'] == 'bool':
            return n
        if a['ty'] == 'int':
            return '%s %s %d' % (n, a['op'], a['i'])
        if a['ty'] == 'net':
            ad = a['net']
            t = '.'.join(map(str, ad['addr']))
            return '%s %s "%s"' % (n, a['op'], t if ad['bits'] == 32 and self.r.random() < .5 else '%s/%d' % (t, ad['bits']))
        if a['ty'] == 'rx':
            return '%s %s "%s"' % (n, a['op'], self.t_rx(a['rx']))
        return '%s %s "%s"' % (n, a['op'], a['s'])

    def t_expr(self, e, prec=0):
        if e['k'] == 'atom':
            s = self.t_atom(e)
            return '(%s)' % s if self.r.random() < .1 else s
        if e['k'] == 'not':
            l = e['l']
            if l['k'] == 'atom' and self.r.random() < .6:
                return self.r.choice(['!', 'not ', '! ']) + self.t_atom(l)
            return self.r.choice(['!', 'not ']) + '(%s)' % self.t_expr(l)
        p = 2 if e['k'] == 'and' else 1
        # and/or are associative: grouping to the right needs no parentheses for the meaning, but print them to keep the tree
        s = '%s %s %s' % (self.t_expr(e['l'], p), e['k'], self.t_expr(e['r'], p + 1))
        return '(%s)' % s if p < prec or self.r.random() < .15 else s

    def t_stmts(self, ss, ind=''):
        return ''.join(self.t_stmt(x, ind) for x in ss)

    def t_stmt(self, x, ind):
        k = x['k']
        if k == 't':
            return '%senv.set "T" => "%%{req.env[T]}<%d:%s>";\n' % (ind, x['n'], self.t_pat(x['p'])[1:-1])
        if k == 'h':
            return '%sheader.add "X-T" => "%d:%s";\n' % (ind, x['n'], self.t_pat(x['p'])[1:-1])
        if k == 'env':
            return '%senv.set "%s" => %s;\n' % (ind, x['key'], self.t_pat(x['p']))
        if k == 'rh':
            return '%sheader.overwrite "%s" => %s;\n' % (ind, x['key'], self.t_pat(x['p']))
        if k == 'tag':
            return '%sserver.tag "%s";\n' % (ind, x['s'])
        if k == 'docroot':
            return '%sdocroot "%s";\n' % (ind, self.root)
        if k == 'respond':
            return '%srespond %d => %s;\n' % (ind, x['n'], self.t_pat(x['p']))
        if k == 'backend':
            return '%senv.set "WANT" => "%d %s"; scgi "%s";\n' % (ind, x['n'], x['s'], self.backend)
        if k == 'block':
            v = 'blk%d' % self.fresh()
            self.pre.append('%s = {\n%s};\n' % (v, self.t_stmts(x['b'], '\t')))
            return '%s%s;\n' % (ind, v)
        if k == 'map':
            es = []
            for m in x['m']:
                ks = ['"%s"' % y for y in m['keys']]
                es.append('%s => {\n%s%s}' % (ks[0] if len(ks) == 1 and self.r.random() < .8 else '[%s]' % ', '.join(ks), self.t_stmts(x['bs'][m['n'] - 1], ind + '\t'), ind))
            if x['def']:
                es.insert(self.r.randint(0, len(es)), 'default => {\n%s%s}' % (self.t_stmts(x['bs'][-1], ind + '\t'), ind))
            return '%smap %s => [%s];\n' % (ind, self.t_pat(x['p']), ', '.join(es))
        s = 'if %s {\n%s%s}' % (self.t_expr(x['c']), self.t_stmts(x['b'], ind + '\t'), ind)
        if x['e']:
            if len(x['e']) == 1 and x['e'][0]['k'] == 'if' and self.r.random() < .8:
                s += ' else ' + self.t_stmt(x['e'][0], ind).lstrip('\t')
                return ind + s
            s += ' else {\n%s%s}' % (self.t_stmts(x['e'], ind + '\t'), ind)
        elif self.r.random() < .2:
            s += ' else { }'
        return ind + s + '\n'


def backend(c):
    env, body = stubs.read_scgi(c)
    w = dict(env).get('WANT', '200 B1').split()
    c.sendall(('Status: %s\r\nContent-Type: text/plain\r\nX-B: %s\r\n\r\n%s' % (w[0], w[1], w[1])).encode())


def run(c):
    rng = c.rng
    r = vlib.tlc('ConfigMC', 'ConfigMC3.cfg', want_ok=True, timeout=600)
    c.model(r, 'ConfigMC: every condition expression of <= 3 leaves x 8 requests')
    if c.thorough:
        r4 = vlib.tlc('ConfigMC', 'ConfigMC4.cfg', want_ok=True, timeout=3000, xmx='20g')
        c.model(r4, 'ConfigMC: every condition expression of <= 4 leaves x 8 requests')
    if vlib.tlc('ConfigMC', 'ConfigVac.cfg').ok:
        raise vlib.Broken('captures never show in ConfigMC')
    exprs = vlib.printed(r.out, 'SCN')
    rng.shuffle(exprs)
    c.log('%d expressions enumerated by TLC' % len(exprs))
    st = stubs.Stub(backend)
    npg = 3000 if c.thorough else 700
    nex = 6000 if c.thorough else 900
    total = 0
    rounds = 8 if c.thorough else 2
    for rnd in range(rounds):
        srv = vlib.Server('', modules=['mod_scgi'], name='c11')
        os.makedirs(srv.dir + '/www/d')
        for f, n in FILES.items():
            with open(srv.dir + '/www' + f, 'wb') as fh:
                fh.write(b'x' * n)
        root = srv.dir + '/www'
        g = Gen(rng, srv.port, root, st.addr)
        progs = [g.program(rng.choice([2, 3])) for _ in range(npg // rounds)]
        mk = lambda n: [{'k': 'h', 'n': n, 'p': [{'k': 'cap', 'f': 1, 't': 1}]}]
        outer = {'k': 'atom', 'lv': 'path', 'key': '', 'op': '=~', 's': '', 'i': 0, 'net': 0, 'ty': 'rx', 'rx': {'a': True, 'z': False, 'it': [{'k': 'lit', 's': '/', 'min': 0, 'cap': False}, {'k': 'cls', 's': '', 'min': 0, 'cap': True}]}}
        for e in exprs[rnd * (nex // rounds):(rnd + 1) * (nex // rounds)]:
            progs.append([{'k': 'if', 'c': outer, 'b': mk(1) + [{'k': 'if', 'c': e, 'b': mk(2), 'e': mk(3)}] + mk(4), 'e': []}, {'k': 'respond', 'n': 200, 'p': []}])
        texts = []
        for i, p in enumerate(progs):
            g.pre = []
            body = g.t_stmts(p, '\t\t')
            texts.append((''.join(g.pre), '\t"%d" => {\n%s\t}' % (i + 1, body)))
        head = 'keepalive.timeout 60;\nserver.tag "";\n'
        srv.conf = srv.conf + head + ''.join(t[0] for t in texts) + 'map "%{req.header[x-p]}" => [\n' + ',\n'.join(t[1] for t in texts) + '\n];\n'
        jobs = []
        for i in range(len(progs)):
            isx = i >= npg // rounds
            for _ in range(6 if isx else 10):
                if isx:
                    j = {'path': rng.choice(['/a1', '/b', '/a', '/aq']), 'query': rng.choice(['q2', '', 'q', 'x']), 'host': rng.choice(['h', 'g', 'h']), 'method': 'GET', 'len': 0, 'xh': '', 'remote': REMOTES[0]}
                else:
                    m = rng.choice(METHODS)
                    j = {'path': rng.choice(PATHS), 'query': rng.choice(QUERIES), 'host': rng.choice(HOSTS), 'method': m, 'len': rng.choice([0, 1, 3, 5]) if m == 'POST' else 0, 'xh': rng.choice(HDR), 'remote': rng.choice(REMOTES)}
                j['prog'] = i + 1
                jobs.append(j)

        def raw(j):
            t = j['path'] + ('?' + j['query'] if j['query'] or random.Random(j['path']).random() < 0 else '')
            h = '%s %s HTTP/1.1\r\nHost: %s\r\nX-P: %d\r\n' % (j['method'], t, j['host'], j['prog'])
            if j['xh']:
                h += 'X-H: %s\r\n' % j['xh']
            if j['method'] == 'POST':
                h += 'Content-Length: %d\r\n' % j['len']
            return (h + '\r\n' + 'z' * j['len']).encode()

        play = http1.Player((srv.ip, srv.port), raw, lambda j: j['method'], src=lambda j: j['remote'])

        def obs(j, x):
            p = j['path']
            f = {'kind': 'none', 'size': -1}
            fp = root + p
            if os.path.isdir(fp):
                f = {'kind': 'dir', 'size': os.stat(fp).st_size}
            elif os.path.isfile(fp):
                f = {'kind': 'file', 'size': os.stat(fp).st_size}
            rq = {'path': p, 'raw': p + ('?' + j['query'] if j['query'] else ''), 'query': j['query'], 'host': j['host'], 'method': j['method'], 'len': j['len'], 'remote': [int(y) for y in j['remote'].split('.')], 'port': srv.port,
                  'hd': {'x-h': j['xh']}, 'root': root, 'file': f}
            if x is None or x['bad']:
                return {'prog': j['prog'], 'rq': rq, 'st': 0, 'body': '', 'hdr': [], 'tag': ''}
            return {'prog': j['prog'], 'rq': rq, 'st': x['status'], 'body': x['body'].decode('latin1'), 'hdr': x['h'].get('x-t', []), 'tag': (x['h'].get('server') or [''])[0]}
        pp = os.path.join(vlib.scratch(), 'progs%d.ndjson' % rnd)
        vlib.write_ndjson(pp, progs)
        with srv:
            by = {}
            for i, j in enumerate(jobs):
                by.setdefault(j['remote'], []).append(i)
            parts = [v[k:k + 25] for v in by.values() for k in range(0, len(v), 25)]
            res = vlib.parallel(lambda p: play([jobs[i] for i in p]), parts, 12)
            obss = [None] * len(jobs)
            for p, rs in zip(parts, res):
                for i, x in zip(p, rs):
                    obss[i] = obs(jobs[i], x)
            if not srv.alive():
                raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
            c.log('round %d: %d programs, %d requests' % (rnd, len(progs), len(jobs)))
            rej, d, gn = vlib.validate('ConfigTrace', 'ConfigTrace.cfg', obss, batch=20000, env={'PROGS': pp})
            c.cov['states'] += d
            c.cov['transitions'] += gn
            c.cov['traces_validated_against_impl'] += len(obss)
            total += len(obss)
            idx = sorted(rej)[:40]
            if idx:
                c.log('%d rejected, repeating' % len(rej))
                play.left = 4
                tr2 = [obs(jobs[i], play([jobs[i]])[0]) for i in idx]
                rej2, _, _ = vlib.validate('ConfigTrace', 'ConfigTrace.cfg', tr2, env={'PROGS': pp})
                for x in sorted(rej2)[:10]:
                    i = idx[x]
                    c.violation('config', 'program %d on %s gives %s' % (jobs[i]['prog'], raw(jobs[i]), {k: v for k, v in tr2[x].items() if k != 'rq'}), {'config': ''.join(texts[jobs[i]['prog'] - 1]), 'request': raw(jobs[i]).decode(), 'observed': tr2[x]})
                if len(rej) > 3 and not rej2:
                    c.violation('config-pipelined', '%d answers were wrong only when pipelined' % len(rej), {'config': ''.join(texts[jobs[idx[0]]['prog'] - 1]), 'observed': obss[idx[0]]})
            c.sample({'program': texts[0][1][:600], 'request': raw(jobs[0]).decode(), 'observed': {k: v for k, v in obss[0].items() if k != 'rq'}})
    c.note(programs=npg + nex, requests=total)


vlib.main('C11', run)
