"""C17: header and environment edits (spec/Headers.tla)"""
import os, sys, re, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1, relay, stubs

NAMES = ['X-A', 'x-a', 'X-B', 'X-b', 'X-Ab', 'X-A-b', 'X-C']
ENVS = ['FOO', 'foo', 'BAR', 'X_Y']
VALS = ['', '1', 'a', 'a, b', 'some text', ';', 'k=v; path=/', 'a:b', '(x)', 'x' * 70]


def cfgstr(s):
    return '"' + ''.join('\\' + c if c in '\\"' else '\\x%02x' % ord(c) if ord(c) < 32 or ord(c) > 126 else c for c in s) + '"'


def part(r, depth=0):
    x = r.random()
    if x < .45:
        return {'t': 'lit', 'x': r.choice(VALS + ['$', '%', '?', '\\', '100%', 'a\tb'])}
    if x < .6:
        return {'t': 'path', 'x': ''}
    if x < .7:
        return {'t': 'query', 'x': ''}
    if x < .83:
        return {'t': 'rq', 'x': r.choice(NAMES).lower()}
    if x < .92:
        return {'t': 'rs', 'x': r.choice(NAMES).lower()}
    return {'t': 'env', 'x': r.choice(ENVS)}


def pattext(pat):
    s = ''
    for p in pat:
        s += {'lit': lambda: re.sub(r'([\\$%?])', r'\\\1', p['x']), 'path': lambda: '%{req.path}', 'epath': lambda: '%{enc:req.path}', 'query': lambda: '%{req.query}',
              'rq': lambda: '%%{req.header[%s]}' % p['x'], 'rs': lambda: '%%{resp.header[%s]}' % p['x'], 'env': lambda: '%%{req.env[%s]}' % p['x']}[p['t']]()
    return s


def stmt(r, after):
    tab = r.choice(['rs', 'rs', 'rs', 'rq', 'rq', 'env']) if not after else 'rs'
    if tab == 'env':
        op = r.choice(['set', 'set', 'set', 'add', 'add', 'remove', 'clear'])
        n = r.choice(ENVS)
    else:
        op = r.choice(['add', 'add', 'append', 'append', 'overwrite', 'overwrite', 'remove'])
        n = r.choice(NAMES)
    pat = [part(r) for _ in range(r.choice([1, 1, 1, 2, 3]))] if op not in ('remove', 'clear') else []
    if not after:
        # the answer is not there yet: its headers cannot be asked for
        pat = [p if p['t'] != 'rs' else {'t': 'path', 'x': ''} for p in pat]
    return {'op': op, 'tab': tab, 'n': n, 'k': n.lower() if tab != 'env' else n, 'pat': pat}


def text(s):
    a = {'rs': 'header', 'rq': 'req_header', 'env': 'env'}[s['tab']] + '.' + s['op']
    if s['op'] == 'clear':
        return a + ';'
    if s['op'] == 'remove':
        return '%s %s;' % (a, cfgstr(s['n']))
    return '%s %s => %s;' % (a, cfgstr(s['n']), cfgstr(pattext(s['pat'])))


EVIL = ['%0d%0aX-Evil:%201', '%0aX-A:%20z', '%0d%0a%0d%0abody', '%0d', '%0A', '%0d%0a%20folded', '%0d%0a', 'a%20b', '%22q', 'plain', '%C3%A9', '%5c', '%09tab', 'x%3dy', 'a%20%0d%0a%09b', '%0a%0a%20%09']


def request(r, k, j):
    segs = ''.join(r.choice(EVIL) if r.random() < .6 else r.choice(['a', 'b.txt', '%41']) for _ in range(r.randint(1, 3)))
    raw = '/p%d/%s' % (k, segs)
    q = r.choice(['', 'q=1', 'a%0d%0ab', '%0aX-Evil:1', 'x=%20'])
    hs = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        hs.append((r.choice(NAMES), r.choice([v for v in VALS if v]) if r.random() < .8 else r.choice(['a\r\n b', 'x\r\n\t y\r\n z'])))
    back = [(r.choice(NAMES), r.choice(VALS)) for _ in range(r.choice([0, 0, 1, 2, 3]))]
    return {'id': 'k%dj%d' % (k, j), 'raw': raw, 'q': q, 'hs': hs, 'back': back}


def unesc(s):
    # control characters of a path are replaced when it is decoded (C04)
    return re.sub('[\0-\x1f\x7f]', '_', _unesc(s))


def _unesc(s):
    return re.sub('%([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)


def lines(hs):
    return [{'n': n, 'k': n.lower(), 'v': v} for n, v in hs]


class Backend:
    def __init__(self, proto):
        self.proto, self.want, self.seen = proto, {}, {}
        self.stub = stubs.Stub(self.run)
        self.addr = self.stub.addr

    def run(self, c):
        if self.proto == 'http':
            line, hs, body = relay.read_http(c)
            hs = [(n.decode('latin1'), v.decode('latin1')) for n, v in hs]
            i = [v for n, v in hs if n.lower() == 'y-id'][0]
            head = 'HTTP/1.1 200 OK\r\n'
        else:
            if self.proto == 'scgi':
                env, body = stubs.read_scgi(c)
            else:
                env, body = relay.read_fcgi(c)
                env = [(a.decode('latin1'), b.decode('latin1')) for a, b in env]
            hs = env
            i = dict(env)['HTTP_Y_ID']
            head = 'Status: 200 OK\r\n'
        self.seen[i] = (hs, body)
        b = (head + ''.join('%s: %s\r\n' % x for x in self.want[i]) + 'Content-Length: 4\r\n\r\nbody').encode('latin1')
        c.sendall(b if self.proto != 'fcgi' else relay.rec(6, b) + relay.rec(6, b'') + relay.rec(3, b'\0' * 8))


def enc(s):
    return ''.join(c if re.match(r'[A-Za-z0-9_.~/-]', c) else '%%%02X' % ord(c) for c in s)


def rawlines(b):
    head, _, body = b.partition(b'\r\n\r\n')
    ls = head.decode('latin1').split('\r\n')
    hs = []
    bad = False
    for l in ls[1:]:
        if ':' not in l or '\n' in l or '\r' in l:
            bad = True
            continue
        n, v = l.split(':', 1)
        hs.append((n, v.strip(' \t')))
    return ls[0], hs, body, bad


def run(c):
    r = c.rng
    c.model(vlib.tlc('HeadersMC', 'HeadersMC4.cfg' if c.thorough else 'HeadersMC.cfg', want_ok=True), 'Headers')
    for cfg in ('HeadersVac.cfg', 'HeadersVac2.cfg'):
        if vlib.tlc('HeadersMC', cfg).ok:
            raise vlib.Broken('vacuity: ' + cfg)
    backs = {p: Backend(p) for p in ('http', 'scgi', 'fcgi')}
    total, refused = 0, []
    for rnd in range(1 if not c.thorough else 12):
        progs, conf = [], []
        for k in range(450):
            kind = r.choice(['respond', 'proxy', 'proxy', 'scgi', 'fcgi'])
            p1 = [stmt(r, False) for _ in range(r.randint(0, 5))]
            p2 = [stmt(r, True) for _ in range(r.randint(0, 5))]
            progs.append((kind, p1, p2))
            h = {'respond': 'respond 200 => "body";', 'proxy': 'proxy "%s";' % backs['http'].addr, 'scgi': 'scgi "%s";' % backs['scgi'].addr, 'fcgi': 'fastcgi "%s";' % backs['fcgi'].addr}[kind]
            conf.append('if req.path =^ "/p%d/" {\n%s\n%s\nif resp.status >= 0 {\n%s\n}\n}' % (k, '\n'.join(map(text, p1)), h, '\n'.join(map(text, p2))))
        srv = vlib.Server('keepalive.timeout 60;\n' + '\n'.join(conf), ['mod_proxy', 'mod_scgi', 'mod_fastcgi'], workers=2, name='hdr')
        with srv:
            jobs = [(k, request(r, k, j)) for k in range(len(progs)) for j in range(8)]

            def one(kq):
                k, q = kq
                kind, p1, p2 = progs[k]
                for b in backs.values():
                    b.want[q['id']] = q['back']
                raw = ('GET %s%s HTTP/1.1\r\nHost: h\r\nY-Id: %s\r\n%sConnection: close\r\n\r\n' % (q['raw'], '?' + q['q'] if q['q'] else '', q['id'], ''.join('%s: %s\r\n' % x for x in q['hs']))).encode('latin1')
                st = http1.Stream((srv.ip, srv.port))
                st.send(raw)
                import time
                t0 = time.time()
                while not st.eof and time.time() - t0 < 8:
                    st.drain()
                    if not st.eof:
                        time.sleep(.002)
                st.close()
                status, hs, body, bad = rawlines(bytes(st.buf))
                if kind == 'respond' or True:
                    low = {n.lower(): v for n, v in hs}
                    if low.get('transfer-encoding', '').lower() == 'chunked':
                        body = b''.join(re.findall(rb'[0-9a-f]+\r\n(.*?)\r\n', body, re.S))
                ok = not bad and status.startswith('HTTP/1.1 200') and body == b'body'
                path = unesc(q['raw'])
                t = {'rq': lines(q['hs']), 'path': path, 'epath': enc(path), 'query': q['q'], 'p1': p1, 'p2': p2, 'back': lines(q['back']), 'kind': kind,
                     'ors': lines([x for x in hs if x[0].lower().startswith('x-')]), 'orq': [], 'oenv': [], 'ok': ok}
                if kind != 'respond':
                    b = backs[{'proxy': 'http'}.get(kind, kind)]
                    sh, sb = b.seen.get(q['id'], ([], b''))
                    if q['id'] not in b.seen or sb:
                        t['ok'] = False
                    if kind == 'proxy':
                        t['orq'] = lines([x for x in sh if x[0].lower().startswith('x-') and not x[0].lower().startswith('x-forwarded')])
                    else:
                        t['oenv'] = [[a, v] for a, v in sh if a in ENVS]
                t['raw'] = bytes(st.buf).decode('latin1')[:1500] if not t['ok'] else ''
                return t
            tr = vlib.parallel(one, jobs, 24)
            rej, d, g = vlib.validate('HeadersTrace', 'HeadersTrace.cfg', tr)
            c.cov['states'] += d
            c.cov['transitions'] += g
            c.cov['traces_validated_against_impl'] += len(tr)
            total += len(tr)
            c.sample(tr[0])
            if rej:
                again = [jobs[i] for i in sorted(rej)[:40]]
                tr2 = vlib.parallel(one, again, 4)
                rej2, _, _ = vlib.validate('HeadersTrace', 'HeadersTrace.cfg', tr2)
                for i in sorted(rej2)[:6]:
                    k, q = again[i]
                    c.violation('headers', 'request %s %s of program\n%s\nbackend answer %s -> client %s backend %s %s ok=%s %s' % (q['raw'], q['hs'], conf[k], q['back'], [(x['n'], x['v']) for x in tr2[i]['ors']],
                                [(x['n'], x['v']) for x in tr2[i]['orq']], tr2[i]['oenv'], tr2[i]['ok'], tr2[i]['raw'][:300]), {'config': conf[k], 'request': q, 'record': tr2[i]})
            if not srv.alive():
                raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
    c.note(requests=total)


vlib.main('C17', run)
