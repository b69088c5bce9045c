"""C23: virtual hosts, document roots, aliases and user directories (spec/Vhost.tla)"""
import os, sys, re, pwd, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1

TOK = ['a', 'ab', '/', 'b/', '~daemon', '~root', '~nobody', '/~x-1', '~', '%7edaemon/', '..', '.', '~no such', '%2f', '~bin/a/', '~dae.mon', 'c d', '~Daemon', '%e4']
HTOK = ['a', 'b', '.', 'A', 'com', '..', ':80', 'x-1', '1.2.3.4', '[::1]', '_', '%41', '*']
CLS = {'': '.', 'ab': '[ab]', '0123456789': '[0-9]', 'abcdefghijklmnopqrstuvwxyz': '[a-z]', '/': '/'}


def o(s):
    return [ord(x) for x in s]


def enc(x):
    if isinstance(x, dict):
        return {k: (o(v) if k in ('s', 'a', 'h', 'home', 'u') and isinstance(v, str) else enc(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [enc(y) for y in x]
    return x


def q(s):
    return '"' + ''.join('\\\\' if x == '\\' else '\\"' if x == '"' else x if ord(x) < 127 else '\\x%02x' % ord(x) for x in s) + '"'


def t_rx(rx):
    s = '^' if rx['a'] else ''
    for x in rx['it']:
        if x['k'] == 'lit':
            s += re.sub(r'([.?*+()\[\]{}^$|\\])', r'\\\1', x['s'])
        else:
            y = CLS[x['s']] + ('+' if x['min'] else '*')
            s += '(%s)' % y if x['cap'] else y
    return s + ('\\z' if rx['z'] else '')


def t_pat(p):
    s = ''
    for x in p:
        if x['k'] == 'lit':
            s += re.sub(r'([$%\\])', r'\\\1', x['s'])
        else:
            f, t = x['f'], x['t']
            s += ('$' if x['k'] == 'cap' else '%') + ('%d' % f if f == t and f < 10 else '[%d]' % f if f == t else '[%s-%s]' % ('' if f == 1000 else f, '' if t == 1000 else t))
    return s


def t_user(p):
    return ''.join(x['s'] if x['k'] == 'lit' else '*' if x['k'] == 'user' else '$%d' % x['n'] for x in p)


def t_stmt(x):
    k = x['k']
    blk = lambda b: '{ %s }' % ' '.join(t_stmt(y) for y in b)
    if k == 'mark':
        return 'header.add "X-M" => "%d";' % x['n']
    if k == 'if':
        return 'if %s =~ %s %s' % ('req.host' if x['v'] == 'host' else 'req.path', q(t_rx(x['rx'])), blk(x['b']))
    if k in ('map', 'mapre'):
        r = ['%s => %s' % (q(y['h'] if k == 'map' else t_rx(y['rx'])), blk(y['b'])) for y in x['r']]
        if x['hasd']:
            r.insert(x['dpos'] % (len(r) + 1), 'default => %s' % blk(x['d']))
        return 'vhost.map%s [%s];' % ('_regex' if k == 'mapre' else '', ', '.join(r))
    if k == 'docroot':
        return 'docroot %s;' % (q(t_pat(x['p'][0])) if len(x['p']) == 1 else '(%s)' % ', '.join(q(t_pat(p)) for p in x['p']))
    if k == 'alias':
        r = ['%s => %s' % (q(y['a']), q(t_pat(y['p']))) for y in x['r']]
        return 'alias %s;' % (r[0] if len(r) == 1 else '[%s]' % ', '.join(r))
    return 'userdir %s;' % q(t_user(x['p']))


lit = lambda s: {'k': 'lit', 's': s}
cap = lambda f, t=None: {'k': 'cap', 'f': f, 't': f if t is None else t}


class Gen:
    def __init__(self, rng, D):
        self.r, self.D, self.n = rng, D, 0

    def mark(self):
        self.n += 1
        return {'k': 'mark', 'n': self.n % 1000}

    def rx(self, host):
        r = self.r
        it = []
        for _ in range(r.randint(1, 3)):
            it.append(lit(r.choice(['a', 'b', '.', 'com', 'a.b', '.com', 'x-1', '1.', ':']) if host else r.choice(['/a', '/', '/b', 'b', '~', '/~'])) if r.random() < .6 else {'k': 'cls', 's': r.choice(sorted(CLS)), 'min': r.choice([0, 1]), 'cap': r.random() < .6})
        return {'a': r.random() < .5, 'z': r.random() < .5, 'it': it}

    def pat(self):
        r = self.r
        out = [lit(self.D + r.choice(['/', '/v/', '/none/', '', '/v/h', '/f/']))]
        for _ in range(r.randint(0, 4)):
            x = r.random()
            if x < .55:
                f, t = r.choice([(0, 0), (1, 1), (1, 1), (2, 2), (2, 1000), (2, 1000), (1, 2), (2, 1), (1000, 1), (1000, 2), (0, 2), (1, 1000), (3, 3), (3, 1), (1000, 1000), (31, 1000), (1, 30)])
                out.append(cap(f, t))
            elif x < .65:
                f, t = r.choice([(1, 1), (0, 0), (2, 2), (1, 2), (1000, 0)])
                out.append({'k': 'prev', 'f': f, 't': t})
            else:
                out.append(lit(r.choice(['/', 'a', '/h/', 'x', '/$', '%', '-', '\\'])))
        return out

    def upat(self):
        r = self.r
        out = [lit(r.choice(['public_html', '/usr/web', '/www/', '/', 'x/', '/w$a/', '/p$1x'][:r.choice([5, 5, 6])]))] if r.random() < .8 else []
        for _ in range(r.randint(0, 4)):
            x = r.random()
            if x < .3:
                out.append({'k': 'user'})
            elif x < .7:
                out.append({'k': 'let', 'n': r.choice([1, 1, 2, 2, 3, 5, 9])})
            else:
                out.append(lit(r.choice(['/', '/', 'x', '/y/', '$', '$0', 'a9', '-', '0', '$a'])))
        # merge literals as the parser does
        m = []
        for x in out:
            if m and x['k'] == 'lit' and m[-1]['k'] == 'lit':
                m[-1] = lit(m[-1]['s'] + x['s'])
            else:
                m.append(x)
        return m or [{'k': 'user'}]

    def block(self, n):
        return [self.mark()] + [self.stmt(n - 1) for _ in range(self.r.choice([0, 1, 1, 2]) if n > 0 else 0)]

    def stmt(self, n=2, k=None):
        r = self.r
        k = k or r.choice(['map', 'map', 'mapre', 'docroot', 'docroot', 'docroot', 'alias', 'alias', 'if'] if n > 0 else ['docroot', 'alias'])
        if k == 'docroot':
            return {'k': k, 'p': [self.pat() for _ in range(r.choice([1, 1, 2, 3]))]}
        if k == 'alias':
            return {'k': k, 'r': [{'a': r.choice(['/a', '/a/', '/', '/ab', '/a/b', '/b/', '/~daemon', '/~', '', '/c d', '/abc']), 'p': self.pat()} for _ in range(r.choice([1, 1, 2, 3]))]}
        if k == 'userdir':
            return {'k': k, 'p': self.upat()}
        if k == 'if':
            h = r.random() < .5
            return {'k': k, 'v': 'host' if h else 'path', 'rx': self.rx(h), 'b': self.block(n)}
        x = {'k': k, 'hasd': r.random() < .5, 'd': [], 'dpos': r.randint(0, 9)}
        if k == 'map':
            x['r'] = [{'h': h, 'b': self.block(n)} for h in r.sample(['a', 'b', 'com', 'a.com', 'a.b', 'b.a.com', '1.2.3.4', '[::1]', '', 'x-1', 'a.b.com', 'a..b', '%41', 'aa', '.a', 'A', 'a:80', 'a.'], r.randint(1, 6))]
        else:
            x['r'] = [{'rx': self.rx(True), 'b': self.block(n)} for _ in range(r.randint(1, 3))]
        if x['hasd']:
            x['d'] = self.block(n)
        return x

    def prog(self):
        r = self.r
        p = [self.stmt() for _ in range(r.randint(1, 3))]
        if r.random() < .4:
            p.insert(r.randint(0, len(p)), self.stmt(k='userdir'))
        return p

    def host(self):
        r = self.r
        x = r.random()
        if x < .15:
            h = '.'.join(r.choice(['a', 'b', 'com', 'x-1']) for _ in range(r.choice([29, 30, 31, 32, 33, 40])))
        elif x < .3:
            h = ''.join(r.choice(HTOK) for _ in range(r.randint(1, 6)))
        else:
            h = '.'.join(r.choice(['a', 'b', 'com', 'A', 'aa', '', 'x-1', 'Com']) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5])))
            if not h:
                h = '.'
        if r.random() < .15:
            h += r.choice(['.', ':80', ':', '..', '.:1'])
        return h


BAD = ['vhost.map_regex ["a" => 5];', 'vhost.map_regex [default => {}, default => {}];', 'vhost.map_regex ["a" => {}, "(" => {}];', 'vhost.map_regex ["a" => {}, "b" => "x"];', 'vhost.map ["a" => 5];',
       'vhost.map [default => {}, default => {}];', 'vhost.map ["a" => {}, "a" => {}];', 'vhost.map "a";', 'vhost.map_regex 5;', 'userdir "";', 'userdir 5;', 'userdir ["a", "b"];', 'docroot 5;', 'docroot ["/a", 5];', 'docroot "/$x";', 'docroot ["/a", "%"];',
       'alias 5;', 'alias ["/a" => 5];', 'alias ["/a" => "/b", "/c" => "$"];', 'alias "/a";', 'vhost.map_regex ["a" => {}, default => {}, "b" => {}, default => 5];']


def refused(c, d):
    """mappings that mean nothing are refused, and never crash the loader"""
    def one(x):
        i, t = x
        p = os.path.join(d, 'bad%d.conf' % i)
        with open(p, 'w') as f:
            f.write('setup { module_load ["mod_vhost", "mod_userdir"]; }\n' + t + '\n')
        r = subprocess.run([vlib.worker_bin(), '-t', '-m', vlib.mod_dir(), '-c', p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=60, env=dict(os.environ, MALLOC_PERTURB_='165'))
        return r.returncode, r.stdout.decode('latin1')
    for t, (rc, out) in zip(BAD, vlib.parallel(one, list(enumerate(BAD)), 8)):
        if rc <= 0 or rc > 127:
            c.violation('loader', '%s: the loader ended with %d: %s' % (t, rc, out[-500:]), {'config': t, 'rc': rc, 'output': out})
    c.note(refused=len(BAD))


def redirects(c, srv, D):
    """a directory without a slash, below a docroot, an alias and a user directory, redirects to itself with a slash"""
    js = []
    for where, pre in (('docroot', ''), ('alias', '/al'), ('userdir', '/~daemon')):
        for t in ('/sub', '/sub?a=b', '//sub', '/./sub', '/x/../sub', '/s%20p', '/s%75b?%20'):
            js.append((where, pre + t))
    play = http1.Player((srv.ip, srv.port), lambda j: ('GET %s HTTP/1.1\r\nHost: h.x\r\nX-P: dir\r\n\r\n' % j[1]).encode(), lambda j: 'GET')
    res = play(js)
    tr = []
    for j, x in zip(js, res):
        loc = ((x or {}).get('h') or {}).get('location', [''])[0]
        m = re.match(r'http://h\.x(/.*)\Z', loc)
        tr.append({'dir': True, 'rq': {'t': o(j[1]), 'h': o('h.x')}, 'st': x['status'] if x else 0, 'loc': o(m.group(1)) if m else []})
    wp = os.path.join(vlib.scratch(), 'e.ndjson')
    vlib.write_ndjson(wp, [{}])
    rej, dd, gn = vlib.validate('VhostTrace', 'VhostTrace.cfg', tr, env={'PROGS': wp, 'WORLD': wp})
    c.cov['states'] += dd
    c.cov['transitions'] += gn
    c.cov['traces_validated_against_impl'] += len(tr)
    for i in sorted(rej):
        c.violation(js[i][0] + '-redirect', '%s (%s) redirects with %d to %r' % (js[i][1], js[i][0], tr[i]['st'], ''.join(map(chr, tr[i]['loc']))), {'request': js[i][1], 'where': js[i][0]})


def run(c):
    rng = c.rng
    d = vlib.scratch()
    D = os.path.join(d, 'r')
    dirs = []
    for x in ['', '/v', '/v/a', '/v/b', '/v/com', '/v/com/a', '/v/com/b.a', '/v/a.com', '/v/h', '/v/ha', '/v/hcom', '/a', '/b', '/com', '/f']:
        os.mkdir(D + x)
        dirs.append(D + x)
    for x in ['/f/a', '/f/com', '/f/a.com', '/v/h1', '/v/b.com', '/x-1']:
        open(D + x, 'w').close()
    for x in ['/w', '/w/sub', '/w/s p', '/w/daemon', '/w/daemon/sub', '/w/daemon/s p']:
        os.mkdir(D + x)
    if len(D) > 60:
        raise vlib.Broken('scratch path too long')
    refused(c, d)
    users = [{'u': u.pw_name, 'home': u.pw_dir} for u in pwd.getpwall()]
    P = [
        {'k': 'docroot', 'p': [[lit('/v/'), cap(0)]]},
        {'k': 'docroot', 'p': [[lit('/v/'), cap(1), lit('/'), cap(2, 1000), lit('/h')]]},
        {'k': 'docroot', 'p': [[lit(D + '/v/'), cap(0)], [lit(D + '/f/'), cap(1)], [lit('/v/'), cap(1000, 2), lit('/'), cap(1, 1000)]]},
        {'k': 'alias', 'r': [{'a': '/a', 'p': [lit('/x/'), cap(2, 1000)]}, {'a': '/b/', 'p': [lit('/y')]}, {'a': '/~daemon', 'p': [lit('/z/')]}]},
        {'k': 'userdir', 'p': [lit('public_html')]},
        {'k': 'userdir', 'p': [lit('/w/'), {'k': 'let', 'n': 1}, lit('/'), {'k': 'let', 'n': 1}, {'k': 'let', 'n': 9}, lit('/'), {'k': 'user'}, lit('/')]},
        {'k': 'userdir', 'p': [lit('/w$a/')]},
        {'k': 'map', 'hasd': True, 'dpos': 0, 'd': [{'k': 'mark', 'n': 3}], 'r': [{'h': 'a', 'b': [{'k': 'mark', 'n': 1}, {'k': 'docroot', 'p': [[lit('/A')]]}]}, {'h': 'a.b', 'b': [{'k': 'mark', 'n': 2}]}, {'h': '', 'b': [{'k': 'mark', 'n': 4}]}]},
        {'k': 'mapre', 'hasd': False, 'dpos': 0, 'd': [], 'r': [{'rx': {'a': True, 'z': True, 'it': [{'k': 'cls', 's': 'ab', 'min': 1, 'cap': True}]}, 'b': [{'k': 'mark', 'n': 5}]}, {'rx': {'a': False, 'z': False, 'it': [lit('.a')]}, 'b': [{'k': 'mark', 'n': 6}, {'k': 'docroot', 'p': [[lit('/B/'), cap(1)]]}]}]},
    ]
    mh, mt = ['a', 'b', '.', '..', 'A', ':8'], ['a', '/', '..', '~daemon', 'b/', '%2f', '~root']
    world = {'hosts': [o(t) for t in mh], 'tok': [o(t) for t in mt], 'stm': enc(P), 'dirs': [o(x) for x in dirs], 'users': enc(users)}
    wp = os.path.join(d, 'world.ndjson')
    vlib.write_ndjson(wp, [world])
    env = {'WORLD': wp}
    scn = []
    for cfg, txt in (('VhostMC1.cfg', 'hosts of <= 3 tokens, paths of <= 2, 1 statement'), ('VhostMC2.cfg', 'hosts of <= 2 tokens, paths of <= 1, 2 statements')):
        r = vlib.tlc('VhostMC', cfg, env=env, want_ok=True, timeout=900)
        c.model(r, txt)
        scn += vlib.printed(r.out, 'SCN')
    if c.thorough:
        c.model(vlib.tlc('VhostMC', 'VhostMC3.cfg', env=env, want_ok=True, timeout=3000, xmx='20g'), 'hosts of <= 4 tokens, paths of <= 2, 2 statements')
    for cfg in ('VhostVac.cfg', 'VhostVac2.cfg'):
        if vlib.tlc('VhostMC', cfg, env=env).ok:
            raise vlib.Broken('vacuity: ' + cfg)
    c.log('%d scenarios enumerated by TLC' % len(scn))
    rng.shuffle(scn)
    scn = scn[:40000 if c.thorough else 8000]
    progs, index, jobs = [], {}, []
    for pr, hs, ts in scn:
        k = tuple(pr)
        if sum(P[i - 1]['k'] == 'userdir' for i in k) > 1:
            continue
        if k not in index:
            progs.append([P[i - 1] for i in pr])
            index[k] = len(progs)
        jobs.append({'prog': index[k], 'h': ''.join(mh[i - 1] for i in hs), 't': '/' + ''.join(mt[i - 1] for i in ts), 'abs': rng.random() < .2})
    g = Gen(rng, D)
    for _ in range(4000 if c.thorough else 700):
        progs.append(g.prog())
        hosts = [g.host() for _ in range(4)]
        for _ in range(14):
            jobs.append({'prog': len(progs), 'h': rng.choice(hosts), 't': '/' + ''.join(rng.choice(TOK) for _ in range(rng.randint(0, 4))).replace(' ', '%20'), 'abs': rng.random() < .2})
    conf = 'keepalive.timeout 60;\nmap "%{req.header[x-p]}" => [\n' + ',\n'.join('\t"%d" => { %s }' % (i + 1, ' '.join(t_stmt(x) for x in p)) for i, p in enumerate(progs)) + ',\n\t"dir" => { docroot "%s/w"; alias "/al" => "%s/w"; userdir "%s/w/*"; index ["i.html"]; }' % (D, D, D) + '\n];\n' \
        'header.add "X-D" => "[%{phys.docroot}]"; header.add "X-F" => "[%{phys.path}]"; header.add "X-R" => "[%{req.path}]"; respond 200 => "x";\n'
    pp = os.path.join(d, 'progs.ndjson')
    vlib.write_ndjson(pp, [enc(p) for p in progs])
    srv = vlib.Server('', modules=['mod_vhost', 'mod_userdir'], name='c23', workers=2)
    srv.conf = srv.conf + conf

    def raw(j):
        if j['abs']:
            return ('GET http://%s%s HTTP/1.1\r\nHost: other.b\r\nX-P: %d\r\n\r\n' % (j['h'], j['t'], j['prog'])).encode('latin1')
        return ('GET %s HTTP/1.1\r\nHost: %s\r\nX-P: %d\r\n\r\n' % (j['t'], j['h'], j['prog'])).encode('latin1')

    def obs(j, x):
        e = {'dir': False, 'prog': j['prog'], 'rq': {'t': o(j['t']), 'h': o(j['h'])}, 'st': 0, 'dr': [], 'ph': [], 'path': [], 'tags': []}
        if x is None or x['bad']:
            return e
        hd = x['h']
        v = lambda k: o((hd.get(k) or ['[]'])[0][1:-1])
        e.update(st=x['status'], dr=v('x-d'), ph=v('x-f'), path=v('x-r'), tags=[int(m) for m in hd.get('x-m', [])])
        return e
    with srv:
        play = http1.Player((srv.ip, srv.port), raw, lambda j: 'GET')
        parts = [jobs[i:i + 40] for i in range(0, len(jobs), 40)]
        res = [x for p in vlib.parallel(lambda p: play(p), parts, 12) for x in p]
        tr = [obs(j, x) for j, x in zip(jobs, res)]
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
        c.log('%d programs, %d requests' % (len(progs), len(jobs)))
        env = {'PROGS': pp, 'WORLD': wp}
        rej, dd, gn = vlib.validate('VhostTrace', 'VhostTrace.cfg', tr, batch=20000, env=env)
        c.cov['states'] += dd
        c.cov['transitions'] += gn
        c.cov['traces_validated_against_impl'] += len(tr)
        st = {}
        for t in tr:
            st[t['st']] = st.get(t['st'], 0) + 1
        c.note(programs=len(progs), requests=len(jobs), statuses=st)
        sh = lambda e: {k: ''.join(map(chr, v)) if isinstance(v, list) and k != 'tags' else v for k, v in e.items() if k != 'rq'}
        c.sample({'program': ' '.join(t_stmt(x) for x in progs[jobs[-1]['prog'] - 1]), 'request': raw(jobs[-1]).decode('latin1'), 'observed': sh(tr[-1])})
        redirects(c, srv, D)
        if rej:
            idx = sorted(rej)[:60]
            c.log('%d rejected, repeating' % len(rej))
            tr2 = [obs(jobs[i], play([jobs[i]])[0]) for i in idx]
            rej2, _, _ = vlib.validate('VhostTrace', 'VhostTrace.cfg', tr2, env=env)
            for x in sorted(rej2)[:10]:
                i = idx[x]
                text = ' '.join(t_stmt(y) for y in progs[jobs[i]['prog'] - 1])
                c.violation('vhost', 'under\n%s the request %r gives %r' % (text, raw(jobs[i]), sh(tr2[x])), {'config': text, 'request': raw(jobs[i]).decode('latin1'), 'observed': sh(tr2[x])})
            if len(rej) > 3 and not rej2:
                c.violation('vhost-pipelined', '%d answers wrong only when pipelined' % len(rej), {'request': raw(jobs[idx[0]]).decode('latin1'), 'observed': sh(tr[idx[0]])})


vlib.main('C23', run)
