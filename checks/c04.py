"""C04: request target -> decoded, normalised path -> file below the configured root, and nothing else."""
import os, sys, json, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1

TOK = ['/', '.', '..', 'a', 'b', '%2e', '%2F', '%', 'f.txt', '?', '#', '%00', '%5', 'alias', '%zz', 'x']
WILD = ['/', '/', '.', '..', 'a', 'd', 'f.txt', 'g.php', '%2e', '%2E%2e', '%2f', '%2F..', '%', '%1', '%00', '%0a', '%7f', '%25', '%252e', '%ff', '%c3%a4', '%20', '%zz', '%g1', '%1g', '?', '?x=/../y', '#', 'alias', 'al', 'aliasx', 'secret.txt', 'www', '\\',
        '..\\', '%5c', '~', 'a//', '/./', '/../', '/..', '/.', '...', '.a', 'a.', '..a', ';', '=', '+', ':', '"', '<', '{', '|', 'index.html', 'idx', 'only', 'f.txt/', '&', '!', "'", '@', '[', '%3f', '%23', 'sp%20ace', 'x' * 60]
FS = {  # relative to the scratch directory; '' = directory
    '/secret.txt': 'secret', '/www': '', '/www/f.txt': 'wf', '/www/a': '', '/www/a/f.txt': 'waf', '/www/a/b': '', '/www/a/b/x': 'wabx', '/www/b': 'wb', '/www/index.html': 'widx', '/www/a/index.html': 'waidx', '/www/a/b/idx': 'wabidx',
    '/www/...': '', '/www/.../x': 'wdots', '/www/.a': 'wda', '/www/g.php': 'wphp', '/www/sp ace': 'wsp', '/www/only': '', '/www/only/x': 'wox', '/www/_': 'wus', '/www/%2e': 'wpct', '/www/a/secret.txt': 'was', '/www/alias': '', '/www/alias/f.txt': 'walf', '/www/\\': 'wbs',
    '/other': '', '/other/f.txt': 'of', '/other/a': '', '/other/a/x': 'oax', '/other/index.html': 'oidx', '/otherx': '', '/otherx/f.txt': 'secret', '/other.txt': 'secret', '/al2': '', '/al2/f.txt': 'a2f', '/al2/b': '', '/al2/b/f.txt': 'a2bf', '/wwwx': '', '/wwwx/f.txt': 'secret', '/www.txt': 'secret'}
CFGS = [
    {'docroot': '/www', 'alias': [], 'index': [], 'pathinfo': False, 'excl': []},
    {'docroot': '/www', 'alias': [('/alias', '/other'), ('/a/b/', '/al2')], 'index': ['index.html', 'idx'], 'pathinfo': False, 'excl': ['.php']},
    {'docroot': '/www', 'alias': [('/alias/', '/other'), ('/al', '/al2')], 'index': ['idx', '/index.html'], 'pathinfo': True, 'excl': []},
    {'docroot': '/www', 'alias': [('/alias', '/other'), ('/', '/al2')], 'index': ['index.html'], 'pathinfo': True, 'excl': ['.txt']},
    {'docroot': '/www', 'alias': [], 'index': ['/b', 'index.html'], 'pathinfo': True, 'excl': []},
]


def o(s):
    return [ord(x) for x in s]


def world():
    return {'tok': [o(t) for t in TOK], 'fs': [{'p': o(p), 'id': i} for p, i in sorted(FS.items())],
            'cfgs': [{'docroot': o(c['docroot']), 'alias': [{'prefix': o(a), 'path': o(b)} for a, b in c['alias']], 'index': [o(x) for x in c['index']], 'pathinfo': c['pathinfo'], 'excl': [o(x) for x in c['excl']]} for c in CFGS]}


def conf(dirname):
    out = 'keepalive.timeout 60;\nif req.host == "echo" { header.add "X-P" => "[%{req.path}]"; header.add "X-Q" => "[%{req.query}]"; header.add "X-R" => "[%{req.raw_path}]"; respond 200 => "x"; }\n'
    for i, c in enumerate(CFGS):
        b = 'docroot "%s%s";' % (dirname, c['docroot'])
        if c['alias']:
            b += ' alias [%s];' % ', '.join('"%s" => "%s%s"' % (a, dirname, p) for a, p in c['alias'])
        if c['index']:
            b += ' index [%s];' % ', '.join('"%s"' % x for x in c['index'])
        if c['pathinfo']:
            b += ' pathinfo; header.add "X-Pi" => "[%{phys.pathinfo}]";'
        if c['excl']:
            b += ' static.exclude_extensions [%s];' % ', '.join('"%s"' % x for x in c['excl'])
        out += '%sif req.host == "c%d" { %s static; }\n' % ('else ' if True else '', i + 1, b)
    return out


PLAYERS = {}


def batch(addr, reqs, timeout=20):
    """pipeline [(host, target)] on one connection; returns list of Resp or None"""
    p = PLAYERS.setdefault(addr, http1.Player(addr, lambda x: b'GET ' + x[1].encode('latin1') + b' HTTP/1.1\r\nHost: ' + x[0].encode() + b'\r\n\r\n', timeout=timeout))
    return p(reqs)


def run(c):
    rng = c.rng
    wp = os.path.join(vlib.scratch(), 'world.ndjson')
    vlib.write_ndjson(wp, [world()])
    env = {'WORLD': wp}
    r = vlib.tlc('UrlMC', 'UrlMC5.cfg' if c.thorough else 'UrlMC4.cfg', env=env, want_ok=True, timeout=2000)
    c.model(r, 'UrlMC: every target of <= %d tokens x %d configurations' % (5 if c.thorough else 4, len(CFGS)))
    if vlib.tlc('UrlMC', 'UrlVac.cfg', env=env).ok:
        raise vlib.Broken('nothing is ever served in UrlMC')
    scn = ['/' + ''.join(TOK[i - 1] for i in s) for s in vlib.printed(r.out, 'SCN')]
    c.log('%d targets enumerated by TLC' % len(scn))
    rng.shuffle(scn)
    scn = scn[:60000 if c.thorough else 6000]
    n = 30000 if c.thorough else 5000
    for _ in range(n):
        t = '/' + ''.join(rng.choice(WILD) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 12])))
        if t.count('#') <= 1:
            scn.append(t)
    srv = vlib.Server('', name='c04')
    for p, i in sorted(FS.items()):
        if i == '':
            os.makedirs(srv.dir + p, exist_ok=True)
        else:
            with open(srv.dir + p, 'w') as f:
                f.write('id:' + i + ';')
    srv.conf = srv.conf + conf(srv.dir)
    with srv:
        addr = (srv.ip, srv.port)
        reqs = []
        for t in scn:
            reqs.append(('echo', t))
            reqs.append(('c%d' % rng.randint(1, len(CFGS)), t))

        def play(reqs, size=60, n=12):
            parts = [reqs[i:i + size] for i in range(0, len(reqs), size)]
            return [x for p in vlib.parallel(lambda p: batch(addr, p), parts, n) for x in p]

        def obs(rq, r):
            h, t = rq
            if r is None or r['bad']:
                return {'k': 'file', 't': o(t), 'cfg': 1, 'st': 0, 'id': '', 'loc': [], 'locq': [], 'pi': []}
            hd = r['h']
            g = lambda k: o((hd.get(k) or ['[]'])[0][1:-1])
            if h == 'echo':
                if r['status'] != 200:
                    return {'k': 'path', 't': o(t), 'path': [], 'query': [], 'raw': []}
                return {'k': 'path', 't': o(t), 'path': g('x-p'), 'query': g('x-q'), 'raw': g('x-r')}
            loc = (hd.get('location') or [''])[0]
            m = re.match(r'^http://%s(/[^?]*)(?:\?(.*))?$' % h, loc)
            m2 = re.match(rb'^id:(\w+);$', r['body'])
            return {'k': 'file', 't': o(t), 'cfg': int(h[1:]), 'st': r['status'], 'id': m2.group(1).decode() if m2 else '', 'loc': o(m.group(1)) if m else [], 'locq': o(m.group(2) or '') if m else [], 'pi': g('x-pi')}
        tr = [obs(q, x) for q, x in zip(reqs, play(reqs))]
        c.log('%d requests played' % len(tr))
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
        rej, d, g = vlib.validate('UrlTrace', 'UrlTrace.cfg', tr, env=env, batch=40000)
        c.cov['states'] += d
        c.cov['transitions'] += g
        c.cov['traces_validated_against_impl'] += len(tr)
        st = {}
        for t in tr:
            if t['k'] == 'file':
                st[t['st']] = st.get(t['st'], 0) + 1
        c.note(statuses=st)
        c.sample({'target': reqs[0][1], 'observed': tr[0]['path']})
        c.sample({'target': reqs[1][1], 'host': reqs[1][0], 'status': tr[1]['st'], 'id': tr[1]['id']})
        if rej:
            idx = sorted(rej)[:100]
            c.log('%d rejected, repeating' % len(rej))
            tr2 = [obs(reqs[i], x) for i, x in zip(idx, play([reqs[i] for i in idx], 1, 4))]
            rej2, _, _ = vlib.validate('UrlTrace', 'UrlTrace.cfg', tr2, env=env)
            for x in sorted(rej2):
                s = {k: (''.join(map(chr, v)) if isinstance(v, list) else v) for k, v in tr2[x].items()}
                c.violation('target', 'target %r (host %s): the server does not do what the specification says: %r' % (reqs[idx[x]][1], reqs[idx[x]][0], s), {'request': reqs[idx[x]], 'observed': s})
            if len(rej) > 3 and not rej2:
                c.violation('target-pipelined', '%d targets misread only when pipelined' % len(rej), {'request': reqs[idx[0]], 'observed': tr[idx[0]]})


vlib.main('C04', run)
