"""C22: the access log (spec/Alog.tla)"""
import os, sys, re, time, socket, signal, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1, stubs

BIG = 24000000
SIMPLE = ['a', 'A', 'h', 'p', 'm', 's', 'q', 'U', 'f', 'V', 'v', 'r', 't', 'X', 'b', 'B', 'O', 'u', 'D', 'T', 'I', '%']
DEFAULT = [('h', ''), ' ', ('V', ''), ' ', ('u', ''), ' ', ('t', ''), ' "', ('r', ''), '" ', ('s', ''), ' ', ('b', ''), ' "', ('i', 'Referer'), '" "', ('i', 'User-Agent'), '"']
VAL = ['x', 'a b', 'q\\', 'a\tb', 'caf\xe9', '\xff\xfe', '100%', '%s%n', "it's", '\\n', '<script>', '"quoted \\" \\\\ text"', '\x80', '~', '\x7f', '-', 'a, b', '\\x41']
PATH = ['%22', '%5C', '%C3%A9', '%20', '%0a', '%0D', '%09', '%7F', '%80', '%ff', 'a', 'b', '%25', '.', '%3f', '~', '%00', "'"]
QUERY = ['', 'q=1', 'a%22b', '%5c', 'x=%C3%A9', '%0a', 'a?b', "'"]


def cfgstr(s):
    return '"' + ''.join('\\' + c if c in '\\"' else '\\x%02x' % ord(c) if ord(c) < 32 or ord(c) > 126 else c for c in s) + '"'


def fmt(r, kind):
    """a format as list of literal strings and (specifier, key)"""
    if r.random() < .1:
        return list(DEFAULT)
    out, need = [], r.choice([('U', ''), ('r', ''), ('i', 'X-Id')] if kind != 'static' else [('q', ''), ('r', ''), ('i', 'X-Id')])
    items = [need]
    for _ in range(r.randint(1, 7)):
        x = r.random()
        if x < .15:
            items.append(('i', r.choice(['X-A', 'x-a', 'Referer', 'User-Agent', 'X-None'])))
        elif x < .25:
            items.append(('o', r.choice(['X-R', 'x-r', 'Content-Type', 'X-None'])))
        elif x < .35:
            items.append(('e', r.choice(['FOO', 'REMOTE_USER', 'NONE'])))
        else:
            items.append((r.choice(SIMPLE), ''))
    r.shuffle(items)
    for i, it in enumerate(items):
        if i:
            out.append(r.choice([' ', '|', '" "', '\t', ' - ', '\x01', '] [']))
        out.append(it)
    if r.random() < .3:
        out.insert(0, 'log: ')
    if r.random() < .3:
        out.append(' .')
    return out


def fmttext(r, f):
    return ''.join(x if isinstance(x, str) else '%' + r.choice(['', '', '', '>', '<']) + ('{%s}' % x[1] if x[1] else '') + x[0] for x in f)


def by(s):
    return list(s.encode('latin1') if isinstance(s, str) else s)


def fmtrec(f):
    # keys of headers are compared without case, names of variables with it
    return [{'t': 'lit', 'x': by(x)} if isinstance(x, str) else {'t': x[0], 'x': x[1] if x[0] == 'e' else x[1].lower()} for x in f]


def unesc(s):
    return re.sub('[\0-\x1f\x7f]', '_', re.sub('%([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s))


KINDS = ['respond', 'respond', 'respond', 'static', 'none', 'dead', '204', '403', 'redirect', 'proxy']


def request(r, k, kind, n):
    i = 'id%dz' % n
    path = '/p%d/%s%s' % (k, i, ''.join(r.choice(PATH) for _ in range(r.randint(0, 3))))
    if kind == 'static':
        path = '/p%d/%s/../f.txt' % (k, i) if False else '/p%d/f.txt' % k
    q = r.choice(QUERY)
    if kind == 'static':
        q = i
    m = r.choice(['GET', 'GET', 'GET', 'HEAD', 'POST', 'M-SEARCH' if kind in ('respond', '204', '403') else 'GET']) if kind != 'static' else r.choice(['GET', 'GET', 'HEAD'])
    hs = [('X-Id', i)]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        hs.append((r.choice(['X-A', 'x-A', 'Referer', 'User-Agent', 'X-User']), r.choice(VAL)))
    ver = r.choice(['1.1', '1.1', '1.1', '1.0'])
    host = r.choice(['h', 'www.example.org', 'h:8080']) if ver == '1.1' or r.random() < .5 else ''
    conn = r.choice(['', '', '', 'close', 'keep-alive'])
    return {'id': i, 'n': n, 'k': k, 'kind': kind, 'm': m, 'path': path, 'q': q, 'hs': hs, 'ver': ver, 'host': host, 'conn': conn, 'body': b'x' * r.choice([0, 1, 500]) if m == 'POST' else b''}


def raw(q):
    return ('%s %s%s HTTP/%s\r\n%s%s%s%s\r\n' % (q['m'], q['path'], '?' + q['q'] if q['q'] else '', q['ver'], 'Host: %s\r\n' % q['host'] if q['host'] else '', 'Connection: %s\r\n' % q['conn'] if q['conn'] else '',
            ''.join('%s: %s\r\n' % x for x in q['hs']), 'Content-Length: %d\r\n' % len(q['body']) if q['m'] == 'POST' else '')).encode('latin1') + q['body']


def stamp(t):
    return by(time.strftime('[%d/%b/%Y:%H:%M:%S +0000]', time.gmtime(t)))


def backend(c):
    f = c.makefile('rb')
    while f.readline().strip():
        pass
    c.sendall(b'HTTP/1.1 200 OK\r\nX-R: from "b\xe9"\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n')
    time.sleep(.002)
    c.sendall(b'6\r\n world\r\n0\r\n\r\n')


def session(srv, src, reqs, pipe, abort):
    """requests on one connection until it closes; returns what the client saw of each"""
    st = http1.Stream((srv.ip, srv.port), src=src, rcvbuf=8192 if abort else None)
    out = []
    try:
        t0 = time.time()
        if abort:
            st.send(raw(reqs[0]))
            e = time.time() + 5
            while len(st.buf) < 2000 and time.time() < e:
                if st.wait(.05) and st.eof:
                    break
            out.append((reqs[0], None, t0, time.time(), len(st.buf)))
            return out
        if pipe:
            st.send(b''.join(raw(q) for q in reqs))
        pos = 0
        for q in reqs:
            if not pipe:
                t0 = time.time()
                st.send(raw(q))
            e = time.time() + 10
            while True:
                st.drain()
                x, used = http1.parse_response(bytes(st.buf[pos:]), q['m'], st.eof)
                if x is not None or st.eof or time.time() > e:
                    break
                st.wait(.2)
            if x is None or x.get('bad') or x.get('trunc'):
                out.append((q, None, t0, time.time(), 0))
                break
            x['used'] = used
            x['head'] = bytes(st.buf[pos:]).find(b'\r\n\r\n') + 4
            x['close'] = 'close' in x['conn'] or x['framing'] == 'eof' or (x['ver'] == 10 and 'keep-alive' not in x['conn'])
            out.append((q, x, t0, time.time(), used))
            pos += used
            if x['close']:
                break
        return out
    finally:
        st.close()


def run(c):
    r = c.rng
    c.model(vlib.tlc('AlogMC', 'AlogMC4.cfg' if c.thorough else 'AlogMC.cfg', want_ok=True), 'Alog')
    for cfg in ('AlogBug.cfg', 'AlogBug2.cfg', 'AlogVac.cfg'):
        if vlib.tlc('AlogMC', cfg).ok:
            raise vlib.Broken('vacuity: ' + cfg)
    os.environ['TZ'] = 'UTC'
    seq = [0]
    total = nline = 0
    for rnd in range(2 if not c.thorough else 14):
        bad = []
        for attempt in range(2):
            bad = one_round(c, r, seq)
            total += bad[1]
            nline += bad[2]
            if not bad[0]:
                break
            if attempt:
                for key, what, rep in bad[0][:6]:
                    c.violation(key, what, rep)
    c.note(requests=total, lines=nline)


def one_round(c, r, seq):
    stub = stubs.Stub(backend)
    progs, conf = [], []
    dead = vlib.free_port()
    files = ['f%d.log' % i for i in range(6)]
    for k in range(90):
        kind = r.choice(KINDS)
        f = fmt(r, kind)
        target = r.choice(files) if r.random() < .93 else r.choice(['', None, '/dev/full', '@DIR@/none/x.log'])
        user = r.random() < .4
        name = r.choice(['', '', 'srv.example'])
        progs.append({'kind': kind, 'f': f, 'target': target, 'user': user, 'name': name})
        lines = []
        if r.random() < .2:
            lines.append('accesslog "@DIR@/%s"; accesslog.format "%%s wrong";' % r.choice(files))
        if target is not None:
            lines.append('accesslog %s;' % (cfgstr('@DIR@/' + target) if target in files else '"%s"' % target))
        elif lines:
            lines = []
        if f == DEFAULT:
            lines = [l.replace(' accesslog.format "%s wrong";', '') for l in lines]
        else:
            lines.append('accesslog.format %s;' % cfgstr(fmttext(r, f)))
        if len(lines) == 2 and 'accesslog.format' in lines[1] and 'accesslog.format' not in lines[0] and r.random() < .5:
            lines.reverse()
        if name:
            lines.append('server.name "%s";' % name)
        if user:
            lines.append('env.set "REMOTE_USER" => "%{req.header[x-user]}"; env.set "FOO" => "%{req.path}x";')
        if kind in ('respond', '403', '204'):
            lines.append('header.add "X-R" => "r\\"%{req.header[x-a]}";')
        if kind == 'static':
            lines.append('docroot "@DIR@/www";')
        lines.append({'respond': 'respond 200 => "some body";', 'static': 'static;', 'none': '', 'dead': 'proxy "127.0.0.1:%d";' % dead, '204': 'respond 204;', '403': 'respond 403 => "no";', 'redirect': 'redirect "http://x/";', 'proxy': 'proxy "%s";' % stub.addr}[kind])
        conf.append('if req.path =^ "/p%d/" {\n%s\n}' % (k, '\n'.join(lines)))
    conf.append('if req.path =^ "/big/" { accesslog "@DIR@/big.log"; accesslog.format "%q %X %s %b %O %r"; docroot "@DIR@/www"; static; }')
    srv = vlib.Server('keepalive.timeout 60;\n' + '\n'.join(conf), ['mod_accesslog', 'mod_proxy', 'mod_redirect'], workers=3, name='alog', env={'TZ': 'UTC'})
    www = os.path.join(srv.dir, 'www')
    for k in range(90):
        os.makedirs(os.path.join(www, 'p%d' % k))
        with open(os.path.join(www, 'p%d' % k, 'f.txt'), 'w') as fh:
            fh.write('file %d' % k)
    os.makedirs(os.path.join(www, 'big'))
    with open(os.path.join(www, 'big', 'x'), 'wb') as fh:
        fh.truncate(BIG)
    seen = []
    found = []
    with srv:
        jobs = []
        for _ in range(420):
            n = r.choice([1, 1, 2, 3, 5])
            reqs = []
            for _ in range(n):
                k = r.randrange(len(progs))
                reqs.append(request(r, k, progs[k]['kind'], seq[0]))
                seq[0] += 1
            jobs.append((reqs, r.random() < .4, False, '127.0.0.%d' % r.randint(2, 250)))
        for _ in range(8):
            q = request(r, 0, 'static', seq[0])
            q.update(path='/big/x', q=q['id'], m='GET', ver='1.1', host='h', k=-1, conn='', hs=[('X-Id', q['id'])])
            seq[0] += 1
            jobs.append(([q], False, True, '127.0.0.3'))
        r.shuffle(jobs)
        for j, o in zip(jobs, vlib.parallel(lambda j: session(srv, j[3], j[0], j[1], j[2]), jobs, 24)):
            seen.append((j, o))
        time.sleep(.3)
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
        srv.stop(signal.SIGINT if r.random() < .5 else signal.SIGTERM, 10)
        if srv.proc.returncode not in (0,):
            found.append(('exit', 'server ended with %s: %s' % (srv.proc.returncode, srv.log()[-1500:]), {'config': srv.conf}))
    stub.close() if hasattr(stub, 'close') else None
    recs, info = [], []
    where = {}
    for fn in files + ['big.log']:
        p = os.path.join(srv.dir, fn)
        ls = open(p, 'rb').read() if os.path.exists(p) else b''
        if ls and not ls.endswith(b'\n'):
            ls += b'<no newline>\n'
        ids = []
        for pos, l in enumerate(ls.split(b'\n')[:-1]):
            m = re.search(rb'id(\d+)z', l)
            n = int(m.group(1)) if m else -1
            ids.append(n)
            where[(fn, n)] = (pos, l)
        must, may = [], []
        for (reqs, pipe, abort, src), o in seen:
            k0 = 0
            for q, x, t0, t1, used in o:
                t = progs[q['k']]['target'] if q['k'] >= 0 else 'big.log'
                if t == fn:
                    # a request the parser refuses is no request: it may be logged or not
                    (must if (x is not None and x['status'] != 400) or abort else may).append(q['n'])
            for q in reqs[len(o):]:
                if q['k'] >= 0 and progs[q['k']]['target'] == fn:
                    may.append(q['n'])
        recs.append({'k': 'file', 'ids': ids, 'must': must, 'may': may})
        info.append('file %s: lines for %s..., cut %s answered %d, missing %s extra %s twice %s' % (fn, ids[:5], [(o[0][0]['n'], o[0][4], o[0][3] - o[0][2]) for (_, _, ab, _), o in seen if ab], len(must), sorted(set(must) - set(ids))[:5], sorted(set(ids) - set(must) - set(may))[:5], sorted({i for i in ids if ids.count(i) > 1})[:5]))
    nl = 0
    for (reqs, pipe, abort, src), o in seen:
        byfile = {}
        for j, (q, x, t0, t1, used) in enumerate(o):
            p = progs[q['k']] if q['k'] >= 0 else {'f': [('q', ''), ' ', ('X', ''), ' ', ('s', ''), ' ', ('b', ''), ' ', ('O', ''), ' ', ('r', '')], 'target': 'big.log', 'user': False, 'name': ''}
            e = where.get((p['target'], q['n']))
            if e is None:
                continue
            byfile.setdefault(p['target'], []).append(e[0])
            if x is None and not abort:
                continue
            path = unesc(q['path'])
            hs = [[n.lower(), by(v)] for n, v in q['hs']]
            env = []
            if p['user']:
                env = [['REMOTE_USER', by(', '.join(v for n, v in q['hs'] if n.lower() == 'x-user'))], ['FOO', by(path + 'x')]]
            rec = {'a': by(src), 'la': by('127.0.0.1'), 'port': srv.port, 'm': by(q['m']), 'st': x['status'] if x else 200, 'q': by(q['q']), 'path': by(path),
                   'file': by(www + path) if q['kind'] == 'static' else [], 'host': by(re.sub(r':\d+$', '', q['host'])), 'name': by(p['name']),
                   'raw': by(q['path'] + ('?' + q['q'] if q['q'] else '')), 'ver': by('HTTP/' + q['ver']), 'rq': hs, 'rs': [[n.lower(), by(v)] for n, v in x['headers']] if x else [], 'env': env,
                   'ts': [stamp(t) for t in range(int(t0) - 1, int(t1) + 3)], 'x': by('X' if abort else '-' if x['close'] else '+'),
                   'body': sorted({len(x['body']), x['used'] - x['head']}) if x else [0], 'out': x['used'] if x else 0, 'cut': abort, 'dmax': int((t1 - t0 + 2) * 1000000)}
            recs.append({'k': 'line', 'f': fmtrec(p['f']), 'q': rec, 'l': list(e[1])})
            info.append('request %r from %s with format %r: line %r (answer %s)' % (raw(q)[:400], src, fmttext(r, p['f']), e[1], x and {'status': x['status'], 'headers': x['headers'], 'body': len(x['body'])}))
            nl += 1
        for fn, ps in byfile.items():
            if len(ps) > 1:
                recs.append({'k': 'conn', 'ids': ps})
                info.append('requests %s of one connection are at lines %s of %s' % ([q['n'] for q, *_ in o], ps, fn))
    rej, d, g = vlib.validate('AlogTrace', 'AlogTrace.cfg', recs, batch=600)
    c.cov['states'] += d
    c.cov['transitions'] += g
    c.cov['traces_validated_against_impl'] += len(recs)
    c.sample(recs[-1])
    for i in sorted(rej):
        found.append((recs[i]['k'], info[i], {'record': recs[i], 'config': srv.conf}))
    return found, sum(len(o) for _, o in seen), nl


vlib.main('C22', run)
