"""C31: flow control: bounded memory for slow peers, no stall, no loss (spec/Flow.tla)"""
import os, sys, time, socket, ssl, threading, zlib, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1, stubs, relay

RMAX = 256 << 10
BLK = None
TLSDIR = os.path.dirname(os.path.abspath(http1.__file__))


def content(n):
    return (BLK * (n // len(BLK) + 1))[:n]


def ktcp():
    """(local port, remote port) -> (bytes not acknowledged, bytes not read) of every TCP socket"""
    out = {}
    for f in ('/proc/net/tcp',):
        for l in open(f).read().split('\n')[1:]:
            p = l.split()
            if len(p) > 4:
                tx, rx = p[4].split(':')
                out[int(p[1].split(':')[1], 16), int(p[2].split(':')[1], 16)] = (int(tx, 16), int(rx, 16), p[3])
    return out


def rss(srv):
    return int(open('/proc/%d/statm' % srv.proc.pid).read().split()[1]) * 4096


def cpu(srv):
    p = open('/proc/%d/stat' % srv.proc.pid).read().rsplit(')', 1)[1].split()
    return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')


class Sender:
    """backends that send as much as they get rid of, and receive on demand"""

    def __init__(self):
        self.jobs = {}
        self.http = stubs.Stub(lambda c: self.serve(c, 'http'))
        self.scgi = stubs.Stub(lambda c: self.serve(c, 'scgi'))
        self.fcgi = stubs.Stub(lambda c: self.serve(c, 'fcgi'))

    def serve(self, c, proto):
        c.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 17)
        j, body, raw = None, b'', b''
        if proto == 'http':
            # the body stays where it is for a while
            while b'\r\n\r\n' not in raw:
                x = c.recv(4096)
                if not x:
                    return
                raw += x
            head, _, body = raw.partition(b'\r\n\r\n')
            tgt = head.split(b' ')[1]
        elif proto == 'scgi':
            env, body = stubs.read_scgi(c)
            tgt = dict(env)['REQUEST_URI'].encode()
        else:
            env, body = relay.read_fcgi(c)
            tgt = dict(env)[b'REQUEST_URI']
        j = self.jobs[int(tgt.rsplit(b'/', 1)[1])]
        j['c'], j['bport'], j['peer'] = c, c.getsockname()[1], c.getpeername()[1]
        if j['kind'] == 'up':
            j['arrived'] = True
            j['read'].wait(60)
            want = j['total']
            got = bytearray(body)
            c.settimeout(15)
            try:
                while len(got) < want:
                    x = c.recv(1 << 18)
                    if not x:
                        break
                    got += x
            except OSError:
                pass
            j['same'] = bytes(got) == content(want)
            c.sendall(b'HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 2\r\n\r\nok')
            return
        data = content(j['total'])
        if proto == 'http' and j['kind'] == 'tunnel':
            c.sendall(b'HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\nConnection: upgrade\r\n\r\n')
            j['sent'] = 0
            j['arrived'] = True
        else:
            h = b'HTTP/1.1 200 OK\r\nConnection: close\r\n' if proto == 'http' else b'Status: 200\r\n'
            h += b'Content-Type: text/plain\r\n'
            if j['cl']:
                h += b'Content-Length: %d\r\n' % j['total']
            data = h + b'\r\n' + data
        if proto == 'fcgi':
            data = b''.join(relay.rec(6, data[i:i + 65528]) for i in range(0, len(data), 65528)) + relay.rec(6, b'') + relay.rec(3, b'\0' * 8)
        data = memoryview(data)
        c.settimeout(.2)
        t = 0
        try:
            while t < len(data):
                try:
                    t += c.send(data[t:t + 65536])
                    j['sent'] = t
                except TimeoutError:
                    pass
            j['all'] = True
        except OSError:
            j['gone'] = time.time()
        if j['kind'] == 'tunnel' or j.get('leave'):
            c.settimeout(.2)
            while not j['fin'].is_set() and not j['gone']:
                time.sleep(.1)


class Client:
    def __init__(self, srv, front, ports, rcvbuf=1 << 16):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(20)
        self.s.connect(('127.0.0.1', ports[front]))
        self.lport, self.sport = self.s.getsockname()[1], ports[front]
        if front != 'plain':
            ctx = ssl.create_default_context()
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
            self.s = ctx.wrap_socket(self.s, server_hostname='a.test')
        self.buf = bytearray()
        self.eof = False
        self.err = None

    def take(self, n):
        """n more bytes (or as many as there are)"""
        n += len(self.buf)
        while len(self.buf) < n and not self.eof:
            try:
                x = self.s.recv(min(1 << 18, n - len(self.buf)))
            except (TimeoutError, socket.timeout):
                self.err = 'nothing arrives'
                return
            except OSError as e:
                self.err, self.eof = str(e), True
                return
            if not x:
                self.eof = True
            self.buf += x


def quiet(js, limit=20):
    """until no counter moves any more"""
    last, since, t0 = None, time.time(), time.time()
    while time.time() - t0 < limit:
        k = ktcp()
        cur = [(j['sent'], k.get((j['bport'], j['peer'])), k.get((j['peer'], j['bport'])), k.get((j['cl_sport'], j['cl_lport'])), k.get((j['cl_lport'], j['cl_sport']))) for j in js]
        if cur != last:
            last, since = cur, time.time()
        elif time.time() - since > .6:
            return last
        time.sleep(.06)
    return last


def body_of(j, buf, eof):
    if j['kind'] == 'tunnel':
        h, s, b = bytes(buf).partition(b'\r\n\r\n')
        return b if h.startswith(b'HTTP/1.1 101') else None
    resp, n = http1.parse_response(buf, 'GET', eof)
    if resp is None or resp.bad or resp.trunc or resp.status != 200:
        return None
    b = bytes(resp.body)
    ce = resp['h'].get('content-encoding')
    if ce:
        try:
            b = zlib.decompressobj(47).decompress(b)
        except zlib.error:
            return None
    return b




def run(c):
    global BLK
    vlib.build()
    for m in ('MC', 'MC2', 'MC3'):
        c.model(vlib.tlc('FlowMC', 'Flow%s.cfg' % m, workers=8, want_ok=True), 'Flow' + m)
    BLK = random.Random(c.rng.randrange(1 << 30)).randbytes((1 << 20) + 77)
    snd = Sender()
    extra = ''
    fronts = ['plain']
    ports = {}
    mods = ['mod_proxy', 'mod_scgi', 'mod_fastcgi', 'mod_deflate']
    for m in ('openssl', 'gnutls'):
        if os.path.exists(os.path.join(vlib.mod_dir(), 'libmod_%s.so' % m)):
            ports[m] = vlib.free_port()
            mods.append('mod_' + m)
            fronts.append(m)
            extra += '%s ( "listen" => "127.0.0.1:%d", "pemfile" => "%s/tls.pem" );\n' % (m, ports[m], TLSDIR)
    limits = {'d': (256 << 10, ''), 'a': (16 << 10, 'io.buffer_out 16kbyte;'), 'b': (100 << 10, 'io.buffer_out 102400;'), 'e': (1 << 20, 'io.buffer_out 1024kbyte;'), 'u': (0, 'io.buffer_out 0;')}
    conf = ''.join('if req.path =^ "/%s/" { %s }\n' % (k, v[1]) for k, v in limits.items() if v[1])
    conf += 'if req.path =~ "/raw/" { buffer_request_body false; }\n'
    conf += '''if req.path =~ "/scgi/" { scgi "127.0.0.1:%d"; } else if req.path =~ "/fcgi/" { fastcgi "127.0.0.1:%d"; } else { proxy "127.0.0.1:%d"; }
''' % (snd.scgi.port, snd.fcgi.port, snd.http.port)
    conf += 'if req.path =~ "/z/" { deflate; }\n'
    srv = vlib.Server(conf, mods, name='c31', setup=extra + 'io.timeout 120;\n')
    srv.start()
    ports['plain'] = srv.port
    recs, ctxs = [], []
    jid = [0]
    TOTAL = 24 << 20
    PROTO = [('http', True), ('http', False), ('scgi', True), ('scgi', False), ('fcgi', False), ('fcgi', True), ('tunnel', False)]

    def newjob(**kw):
        jid[0] += 1
        j = dict(id=jid[0], sent=0, all=False, gone=None, fin=threading.Event(), read=threading.Event(), same=None, bport=0, peer=0, arrived=False, c=None, **kw)
        snd.jobs[jid[0]] = j
        return j

    def down(lk, combos):
        L = limits[lk][0]
        time.sleep(.5)
        base = rss(srv)
        js = []
        for proto, cl, front, z, v, sc in combos:
            j = newjob(kind='tunnel' if proto == 'tunnel' else 'down', proto=proto, cl=cl, total=TOTAL, front=front, sc=sc, z=z, lk=lk)
            j['cli'] = Client(srv, front, ports)
            j['cl_sport'], j['cl_lport'] = j['cli'].sport, j['cli'].lport
            j['ev'] = []
            path = '/%s/%s%s/%d' % (lk, 'z/' if z else '', proto, j['id'])
            j['cli'].s.sendall(('GET %s HTTP/%s\r\nHost: a.test\r\n%s%s\r\n' % (path, v, 'Accept-Encoding: gzip\r\n' if z else '',
                               'Connection: upgrade\r\nUpgrade: x\r\n' if proto == 'tunnel' else 'Connection: close\r\n')).encode())
            js.append(j)
        vlib.parallel(lambda j: j['cli'].take(j['sc'][0]), js, n=len(js))

        def obs(act):
            st = quiet(act)
            for j, (s, b1, b2, c1, c2) in zip(act, st):
                kb = (b1[0] if b1 else 0) + (b2[1] if b2 else 0)
                kc = (c1[0] if c1 else 0) + (c2[1] if c2 else 0)
                j['ev'].append(dict(o='quiet', sent=s, kb=kb, kc=kc, got=len(j['cli'].buf)))
        obs(js)
        r = rss(srv)
        for j in js:
            j['ev'].append(dict(o='rss', v=r, base=base, n=len(js), extra=16 << 20))
            if c.rng.random() < .5:      # bytes in the other direction change nothing
                try:
                    j['cli'].s.sendall(b'x' * 50 if j['kind'] == 'tunnel' else b'GET /fast HTTP/1.1\r\n')
                except OSError:
                    pass
        time.sleep(.3)
        t0, w0 = cpu(srv), time.time()
        time.sleep(1)
        ms = int((cpu(srv) - t0) * 1000 / (time.time() - w0))
        for j in js:
            j['ev'].append(dict(o='cpu', ms=ms))
        for step in range(1, 3):
            act = [j for j in js if j['sc'][step]]
            if act:
                vlib.parallel(lambda j: j['cli'].take(j['sc'][step]), act, n=len(act))
                obs(act)

        def fin(j):
            if j['sc'][3] == 'leave':
                t0 = time.time()
                j['cli'].s.close()
                while not j['gone'] and time.time() - t0 < 8:
                    time.sleep(.05)
                if not j['all']:
                    j['ev'].append(dict(o='gone', ms=int(1000 * ((j['gone'] or t0 + 100) - t0))))
            else:
                if j['kind'] == 'tunnel':
                    j['cli'].take(j['total'] + 2000) if j['all'] else None
                    while not j['cli'].eof and not j['cli'].err:
                        x = len(j['cli'].buf) - (bytes(j['cli'].buf[:2000]).find(b'\r\n\r\n') + 4)
                        if x >= j['total']:
                            break
                        j['cli'].take(min(65536, j['total'] - x))
                else:
                    j['cli'].take(1 << 30)
                b = body_of(j, j['cli'].buf, j['cli'].eof)
                j['ev'].append(dict(o='end', same=b is not None and b == content(j['total'])))
                if not j['ev'][-1]['same']:
                    j['what'] = '%s: %d bytes of raw answer, %s' % (j['cli'].err, len(j['cli'].buf), None if b is None else len(b))
                j['cli'].s.close()
            j['fin'].set()
            j['cli'].buf = None
        vlib.parallel(fin, js, n=len(js))
        for j in js:
            slack = 24576 + TOTAL // 200 + (65536 if j['front'] != 'plain' else 0) + (131072 if j['z'] else 0)
            recs.append(dict(L=L, R=RMAX, slack=slack, ev=j['ev']))
            ctxs.append({k: j[k] for k in ('proto', 'cl', 'front', 'z', 'sc', 'lk', 'kind')} | {'what': j.get('what')})

    def scen(fin=None):
        r = c.rng
        return (r.choice([0, 0, 1, 100000, 4 << 20, 9 << 20]), r.choice([0, 70000, 1 << 20, 5 << 20]), r.choice([0, 0, 300000, 3 << 20]), fin or r.choice(['all', 'all', 'all', 'leave']))

    def up(raw, kind, n):
        """requests with bodies nobody reads yet"""
        time.sleep(.5)
        base = rss(srv)
        js = []
        tot = 32 << 20
        for i in range(n):
            j = newjob(kind='up', proto='http', total=tot, raw=raw)
            j['s'] = socket.create_connection(('127.0.0.1', srv.port))
            j['s'].settimeout(1.5)
            j['ev'] = []
            js.append(j)
        data = content(tot)

        def push(j):
            j['off'] = 0
            h = ('POST /d/%shttp/%d HTTP/1.1\r\nHost: a.test\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % ('raw/' if raw else '', j['id'], tot)).encode()
            j['s'].sendall(h)
            d = memoryview(data)
            try:
                while j['off'] < tot:
                    j['off'] += j['s'].send(d[j['off']:j['off'] + 65536])
            except (TimeoutError, socket.timeout):
                pass
        vlib.parallel(push, js, n=n)
        t0 = time.time()
        while time.time() - t0 < 10 and not all(j['arrived'] for j in js):
            time.sleep(.05)
        time.sleep(.5)
        r = rss(srv)
        for j in js:
            j['ev'].append(dict(o='rss', v=r, base=base, n=n, extra=16 << 20))

        def fin(j):
            j['read'].set()
            d = memoryview(data)
            j['s'].settimeout(15)
            try:
                while j['off'] < tot:
                    j['off'] += j['s'].send(d[j['off']:j['off'] + 65536])
                x = j['s'].recv(1000)
            except OSError as e:
                x = b''
            j['ev'].append(dict(o='end', same=bool(j['same']) and x.startswith(b'HTTP/1.1 200')))
            j['s'].close()
        vlib.parallel(fin, js, n=n)
        for j in js:
            recs.append(dict(L=256 << 10, R=RMAX, slack=65536, ev=j['ev']))
            ctxs.append(dict(kind='upload', raw=raw, key='upload-unbuffered' if raw else None))
    rounds = 4 if c.thorough else 1
    up(False, 'http', 6)
    up(True, 'http', 3)
    c.log('uploads')
    for k in range(rounds):
        for lk in ('d', 'a', 'b', 'e', 'u'):
            combos = []
            for proto, cl in PROTO:
                combos.append((proto, cl, 'plain', False, '1.1', scen()))
            for front in fronts[1:]:
                for proto, cl in c.rng.sample(PROTO, 3):
                    combos.append((proto, cl, front, False, '1.1', scen()))
            for proto, cl in c.rng.sample(PROTO[:6], 2):
                combos.append((proto, cl, c.rng.choice(fronts), True, '1.1', scen()))
            combos.append((*c.rng.choice(PROTO[:6]), 'plain', False, '1.0', scen('all')))
            down(lk, combos)
            c.log('limit ' + lk)
            if not srv.alive():
                break
    if not srv.alive():
        c.violation('server', 'the server died (rc %s)' % srv.proc.returncode, dict(log=srv.log()[-3000:]))
    srv.stop()
    rej, d, g = vlib.validate('FlowTrace', 'FlowTrace.cfg', recs)
    for i in sorted(rej):
        n = vlib.stuck('FlowTrace', 'FlowTrace.cfg', recs[i])
        e = recs[i]['ev'][n - 1] if 0 < n <= len(recs[i]['ev']) else None
        held = e['sent'] - e['kb'] - e['kc'] - e['got'] if e and e['o'] == 'quiet' else None
        c.violation(ctxs[i].get('key') if e and e['o'] == 'rss' and ctxs[i].get('key') else 'flow', 'flow control: %s not allowed (%s%s)' % (e, ctxs[i], '' if held is None else ', held %d with limit %d' % (held, recs[i]['L'])), dict(ctx=ctxs[i], rec=recs[i]))
    c.cov['histories'] = len(recs)
    c.cov['traces_validated_against_impl'] = len(recs)
    c.cov['states'] += d
    c.cov['transitions'] += g
    c.cov['quiet points'] = sum(1 for x in recs for e in x['ev'] if e['o'] == 'quiet')
    c.cov['stuck at the limit'] = sum(1 for x in recs for e in x['ev'] if e['o'] == 'quiet' and x['L'] and e['sent'] - e['kb'] - e['kc'] - e['got'] >= x['L'])
    c.sample(recs[:3])


vlib.main('C31', run)
