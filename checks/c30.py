"""C30: TLS listeners (spec/Tls.tla)"""
import sys, os, ssl, socket, time, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, http1, stubs

PKI = os.path.join(os.path.dirname(os.path.abspath(http1.__file__)), 'pki') + '/'
NONE = dict(none=True, name='', trusted=False, dates=False, purpose=False, caok=False, inter=0)


def cert(name, trusted=True, dates=True, purpose=True, caok=True, inter=0):
    return dict(none=False, name='c-' + name, trusted=trusted, dates=dates, purpose=purpose, caok=caok, inter=inter)


CERTS = {'none': NONE, 'good': cert('good'), 'sub1': cert('sub1', inter=1), 'sub2': cert('sub2', inter=2), 'self': cert('self', trusted=False),
         'alien': cert('alien', trusted=False), 'expired': cert('expired', dates=False), 'serveronly': cert('serveronly', purpose=False),
         'badca': cert('badca', caok=False, inter=1)}
OPEN = dict(verify=False, any=False, require=False, depth=1)
B = {False: 'false', True: 'true'}


def context(kind, v=None):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    c.verify_mode = ssl.CERT_NONE
    c.set_ciphers('ALL:@SECLEVEL=0')
    if v == 12:
        c.maximum_version = ssl.TLSVersion.TLSv1_2
    if kind != 'none':
        c.load_cert_chain(PKI + kind + '.pem')
    return c


def der(name):
    s = open(PKI + name + '.pem').read()
    return ssl.PEM_cert_to_DER_cert(s[s.index('-----BEGIN CERT'):s.index('-----END CERT') + 26])


def eof(t, secs=10):
    t0 = time.time()
    while not t.eof and time.time() - t0 < secs:
        t.wait(.3)
    return t.eof


def identity(port, ctx, session=None):
    """(stream, name the server has for us or None when it does not answer)"""
    t = http1.TlsStream(('127.0.0.1', port), ctx=ctx, session=session)
    if not t.up:
        t.close()
        return t, None
    t.send(b'GET /id HTTP/1.1\r\nHost: a.test\r\nConnection: close\r\n\r\n')
    eof(t)
    t.close()
    r, n = http1.parse_response(t.buf, 'GET', True)
    if r is None or r.bad or r.trunc or r.status != 200:
        return t, None
    b = bytes(r.body).decode('latin1')
    return t, b[4:-7] if b.startswith("id=<") and b.endswith("> https") else b


class Backend:
    """HTTP backend whose answers are planned: path /x/<id>"""

    def __init__(self):
        self.plan, self.seen = {}, {}
        self.stub = stubs.Stub(self.run)

    def run(self, c):
        b = b''
        while b'\r\n\r\n' not in b:
            x = c.recv(65536)
            if not x:
                return
            b += x
        h, _, body = b.partition(b'\r\n\r\n')
        i = int(h.split(b' ')[1].split(b'/')[-1])
        p = self.plan[i]
        n = 0
        for l in h.split(b'\r\n'):
            if l.lower().startswith(b'content-length:'):
                n = int(l[15:])
        body += stubs.recv_exact(c, n - len(body))
        self.seen[i] = body
        k = p['kind']
        d = p['body']
        if k == 'close':
            c.sendall(b'HTTP/1.0 200 OK\r\n\r\n')
        elif k.startswith('cl'):
            c.sendall(b'HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n' % (len(d) + (100 if k == 'clcut' else 0)))
        else:
            c.sendall(b'HTTP/1.1 200 OK\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n')
        r = random.Random(p['seed'])
        j = 0
        while j < len(d):
            x = d[j:j + r.choice([1, 100, 5000, 16384, 70000, 300000])]
            c.sendall(b'%x\r\n%s\r\n' % (len(x), x) if k.startswith('chunked') else x)
            j += len(x)
            if r.random() < .2:
                time.sleep(.01)
        if k == 'chunked':
            c.sendall(b'0\r\n\r\n')
        if k == 'chunkedcut':
            time.sleep(.2)
        c.close()


def run(c):
    vlib.build()
    for m in ('TlsMC', 'TlsLive'):
        c.model(vlib.tlc('TlsMC', m + '.cfg', workers=8, want_ok=True), m)
    r = c.rng
    be = Backend()
    D = vlib.scratch()
    W = os.path.join(D, 'c30www-%d' % os.getpid())
    os.makedirs(W)
    blob = r.randbytes(700000)
    open(W + '/f', 'wb').write(blob)
    for n, p in (('a.test', 'server'), ('b.test', 'server2'), ('x' * 60 + '.long.test', 'sub1')):
        shutil.copy(PKI + p + '.pem', W + '/sni_%s.pem' % n)
    store = {'a.test': 'server', 'b.test': 'server2', 'x' * 60 + '.long.test': 'sub1'}
    have = [m for m in ('openssl', 'gnutls') if os.path.exists(os.path.join(vlib.mod_dir(), 'libmod_%s.so' % m))]
    setup, fronts, ports = 'fetch.files_static "sni" => "%s/sni_*.pem";\n' % W, [], {}
    if 'openssl' in have:
        cfgs = [OPEN] + [dict(verify=True, any=a, require=q, depth=d) for a in (False, True) for q in (False, True) for d in (0, 1, 2)]
        for g in cfgs:
            p = vlib.free_port()
            fronts.append((g, p))
            setup += 'openssl ( "listen" => "127.0.0.1:%d", "pemfile" => "%sserver.pem", "client-ca-file" => "%sroot.pem"' % (p, PKI, PKI)
            if g['verify']:
                setup += ', "verify" => true, "verify-any" => %s, "verify-require" => %s, "verify-depth" => %d' % (B[g['any']], B[g['require']], g['depth'])
            setup += ' );\n'
        ports['openssl'] = fronts[0][1]
    sni = []
    if 'gnutls' in have:
        for k in ('plain', 'fallback', 'nofallback'):
            p = vlib.free_port()
            setup += 'gnutls ( "listen" => "127.0.0.1:%d", "pemfile" => "%sself.pem"%s%s );\n' % (
                p, PKI, ', "sni-backend" => "sni"' if k != 'plain' else '', ', "sni-fallback-pemfile" => "%sgood.pem"' % PKI if k == 'fallback' else '')
            if k == 'plain':
                ports['gnutls'] = p
            else:
                sni.append((p, 'good' if k == 'fallback' else ''))
    conf = '''openssl.setenv "client";
if req.path == "/id" { respond 200 => "id=<%%{req.environment[SSL_CLIENT_S_DN_CN]}> %%{req.scheme}"; }
else if req.path =^ "/x/" { proxy "%s"; }
else { docroot "%s"; static; }
''' % (be.stub.addr, W)
    if 'openssl' not in have:
        conf = conf.replace('openssl.setenv "client";\n', '')
    srv = vlib.Server(conf, ['mod_' + m for m in have] + ['mod_proxy'], name='c30', setup=setup + 'io.timeout 60;\n')
    srv.start()
    for p in [x[1] for x in fronts] + [x[0] for x in sni] + list(ports.values()):
        t0 = time.time()
        while True:
            try:
                socket.create_connection(('127.0.0.1', p)).close()
                break
            except OSError:
                if time.time() - t0 > 20:
                    raise vlib.ServerDied('TLS listener did not come up:\n' + srv.log()[-3000:])
                time.sleep(.05)
    recs, ctxs = [], []

    def add(ev, cfg=OPEN, crt=NONE, foreign=False, **what):
        recs.append(dict(cfg=cfg, cert=crt, foreign=foreign, ev=ev))
        ctxs.append(what)

    # --- who may talk
    def who(a):
        (g, p), k, v = a
        ctx = context(k, v)
        t, n = identity(p, ctx)
        out = [(g, k, False, n, dict(v=v, err=t.err))]
        if n is not None and t.o.session:      # the same client again with its session: nothing may change
            t2, n2 = identity(p, ctx, t.o.session)
            out.append((g, k, False, n2, dict(v=v, err=t2.err, resumed=bool(t2.up and t2.o.session_reused))))
        return out
    for l in vlib.parallel(who, [(f, k, v) for f in fronts for k in CERTS for v in (12, 13)], n=8):
        for g, k, fo, n, w in l:
            add([dict(o='admit', v=n is not None, who=n or '')], g, CERTS[k], fo, part='who', kind=k, **w)

    def foreign(a):
        (g1, p1), (g2, p2), k, v = a
        ctx = context(k, v)
        t, n = identity(p1, ctx)
        if n is None or not t.o.session:
            return []
        t2, n2 = identity(p2, ctx, t.o.session)
        return [(g2, k, True, n2, dict(v=v, err=t2.err, frm=g1, resumed=bool(t2.up and t2.o.session_reused)))]
    todo = [(f, h, k, v) for f in fronts for h in fronts if f is not h and not f[0]['require'] for k in ('none', 'alien', 'expired', 'good') for v in (12, 13)]
    r.shuffle(todo)
    for l in vlib.parallel(foreign, todo if c.thorough else todo[:250], n=8):
        for g, k, fo, n, w in l:
            add([dict(o='admit', v=n is not None, who=n or '')], g, CERTS[k], fo, part='foreign', kind=k, **w)
    c.note(resumed=sum(1 for x in ctxs if x.get('resumed') and x['part'] == 'who'))

    # --- which certificate is shown
    shown = {der(n): n for n in ('self', 'good', 'server', 'server2', 'sub1')}

    def cert_for(a):
        (p, fb), name, v, seed = a
        q = random.Random(seed)
        mode = q.choice(['all', 'bytes', 'cuts'])
        pace = None if mode == 'all' else lambda rest: ((1 if mode == 'bytes' else q.randint(1, 200)), .0005 if mode == 'bytes' else q.choice([0, .01]))
        t = http1.TlsStream(('127.0.0.1', p), ctx=context('none', v), sni=name or None, pace=pace)
        s = shown.get(t.o.getpeercert(True), '?') if t.up else 'no handshake: %s' % t.err
        t.close()
        inv = {b: a for a, b in store.items()}
        return [dict(o='cert', name=name, store=list(store), fallback=('(fallback)' if fb else ''), default='(default)',
                     shown='(default)' if s == 'self' else '(fallback)' if s == 'good' else inv.get(s, s))]
    names = list(store) + ['', 'c.test', 'a.test.b.test', 'test', 'y' * 60 + '.long.test']
    todo = [(f, n, v, r.random()) for f in sni for n in names for v in (12, 13) for _ in range(6 if c.thorough else 2)]
    for a, ev in zip(todo, vlib.parallel(cert_for, todo, n=8)):
        add(ev, part='sni', name=a[1], v=a[2])

    # --- the bytes between
    nid = [0]

    def stream(a):
        front, v, seed = a
        q = random.Random(seed)
        old = q.random() < .4       # HTTP/1.0: the end of the response is the end of the connection
        ex = []
        for i in range(1 if old else q.randint(1, 4)):
            nid[0] += 1
            k = q.choice(['cl', 'chunked', 'close', 'file', 'file', 'empty'] + (['chunked', 'chunkedcut', 'clcut', 'chunkedcut'] if i == 0 else []))
            up = q.randbytes(q.choice([0, 1, 3000, 16384, 20000, 150000])) if q.random() < .5 and k != 'file' else b''
            e = dict(id=nid[0], kind='cl' if k == 'empty' else k, seed=q.random(), up=up,
                     body=blob if k == 'file' else b'' if k == 'empty' else q.randbytes(q.choice([1, 16383, 16384, 16385, 40000, 65536, 200000, 500000])))
            be.plan[e['id']] = e
            ex.append(e)
            if k.endswith('cut'):
                break
        data = b''
        for i, e in enumerate(ex):
            last = i == len(ex) - 1
            data += b'%s %s HTTP/1.%d\r\nHost: a.test\r\n%s%s\r\n%s' % (b'POST' if e['up'] else b'GET', b'/f' if e['kind'] == 'file' else b'/x/%d' % e['id'], 0 if old else 1,
                    b'Connection: close\r\n' if last and not old else b'', b'Content-Length: %d\r\n' % len(e['up']) if e['up'] else b'', e['up'])
        mode = q.choice(['all', 'cuts', 'cuts'])
        pace = None if mode == 'all' else lambda rest: (q.choice([1, 5, 50, 1400, 20000]), q.choice([0, 0, .001, .005]))
        rec = q.choice([None, lambda: q.choice([1, 7, 100, 1000, 16384])])
        slow = q.random() < .4
        ev = []
        t = http1.TlsStream(('127.0.0.1', ports[front]), ctx=context('none', v), pace=pace, rcvbuf=4096 if slow else None)
        ev.append(dict(o='admit', v=t.up, who=''))
        t.send(data, 20, rec)
        t0 = time.time()
        while not t.eof and time.time() - t0 < 25:
            if slow and q.random() < .05:
                time.sleep(.05)
            t.wait(.3)
        t.close()
        cut = ex[-1]['kind'].endswith('cut')
        what = dict(part='stream', front=front, v=v, old=old, kinds=[e['kind'] for e in ex], err=t.err, slow=slow, mode=mode)
        buf = t.buf
        evs = []
        for e in ex:
            if e['kind'] != 'file':
                s = be.seen.get(e['id'])
                evs.append(dict(o='up', n=len(e['up']), have=-1 if s is None else len(s), same=s == e['up']))
            evs.append(dict(o='give', n=len(e['body'])))
            x, n = http1.parse_response(buf, 'GET', t.eof)
            if x is None or x.bad or (e['kind'].endswith('cut') and x.status >= 500):
                # nothing of this one: fine only when it broke before it began
                what['bad'] = (x and x.bad or 'nothing', len(buf))
                if x is not None and not x.bad:
                    buf = buf[n:]
                continue
            b = bytes(x.body if x.body is not None else b'')
            evs.append(dict(o='got', n=len(b), same=x.status == 200 and e['body'].startswith(b) and (e['kind'].endswith('cut') or not x.trunc)))
            buf = buf[n:]
            if x.status != 200 or b != e['body']:
                what['bad'] = (x.status, len(b), len(e['body']))
        evs.append(dict(o='end', how='cut' if cut else 'complete'))
        evs.append(dict(o='fin', note=bool(t.clean)) if t.eof else dict(o='no end'))
        return ev + evs, what
    fr = sorted(ports)
    todo = [(fr[i % len(fr)], r.choice([12, 13]), r.random()) for i in range(900 if c.thorough else 240)]
    for a, (ev, w) in zip(todo, vlib.parallel(stream, todo, n=8)):
        add(ev, **w)
    if not srv.alive():
        raise vlib.ServerDied(srv.log()[-3000:])
    srv.stop()
    shutil.rmtree(W, ignore_errors=True)
    rej, d, g = vlib.validate('TlsTrace', 'TlsTrace.cfg', recs)
    c.cov['states'] += d
    c.cov['transitions'] += g
    c.cov['traces_validated_against_impl'] += len(recs)
    parts = {}
    for x in ctxs:
        parts[x['part']] = parts.get(x['part'], 0) + 1
    c.note(connections=parts, cut=sum(1 for x in ctxs if x['part'] == 'stream' and x['kinds'][-1].endswith('cut')))
    c.log(parts, c.cov.get('resumed'), 'rejected', len(rej))
    if fronts and not c.cov['resumed']:
        raise vlib.Broken('no session was ever resumed')
    if os.environ.get('VERIF_KEEP'):
        for i in sorted(rej):
            print('REJ', ctxs[i], recs[i]['ev'][-3:] if ctxs[i]['part'] == 'stream' else (recs[i]['ev'], recs[i]['cfg']))
    for i in sorted(rej)[:12]:
        k = vlib.stuck('TlsTrace', 'TlsTrace.cfg', recs[i])
        e = recs[i]['ev'][min(k, len(recs[i]['ev'])) - 1]
        c.violation('%s-%s' % (ctxs[i]['part'], e['o']), '%s refused by the model: %s %s %s' % (e, ctxs[i], recs[i]['cfg'], recs[i]['cert']), dict(rec=recs[i], what=ctxs[i]))
    c.sample(recs[-1])
    c.assumptions += ['client certificates are made in advance (lib/pki); revocation lists and OCSP are not looked at']


if __name__ == '__main__':
    vlib.main('C30', run)
