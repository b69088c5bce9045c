"""C25: keep-alive and io timeouts, requests per connection (spec/KeepAlive.tla)"""
import os, sys, time, json, random, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1, stubs, relay
from hold import Hold, until

IO, LATE = 3000, 4000
BIG, TAKE = 56 << 20, 4 << 20


class Flow:
    """a backend that sends a head and then as much as it gets rid of, until told to finish"""

    def __init__(self):
        self.fin, self.sent = {}, {}
        self.stub = stubs.Stub(self._serve)
        self.port = self.stub.port

    def _serve(self, c):
        line, hs, body = relay.read_http(c)
        k = line.split(b' ')[1].decode().rsplit('/', 1)[1]
        fin = self.fin.setdefault(k, threading.Event())
        c.sendall(b'HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n')
        blk, n = b'x' * 65536, 0
        c.settimeout(.1)
        while n < 48 << 20 and not fin.is_set():
            try:
                n += c.send(blk)
                self.sent[k] = n
            except TimeoutError:
                pass
        while not fin.wait(.1):
            pass


class Hist:
    def __init__(self, srv, idx, h, base, seed, hold, flow):
        self.srv, self.idx, self.h, self.base, self.hold, self.flow = srv, idx, h, base, hold, flow
        self.r = random.Random(seed)
        self.front = self.r.choice(['plain'] * 2 + list(srv.ports))
        self.ev = []
        self.t00 = time.time()
        self.bad = None
        self.open = ''          # the head that is being sent

    def t(self):
        return int((time.time() - self.t00) * 1000)

    def add(self, o, t0, **kw):
        self.ev.append(dict(o=o, t0=t0, t1=self.t(), **kw))

    def cf(self, cls):
        k, n = self.base
        return {'a': dict(k=k, n=n), 'b': dict(k=1000, n=n), 'c': dict(k=k, n=1), 'd': dict(k=0, n=n), 'e': dict(k=2000, n=2)}[cls]

    def put(self, data):
        self.st.send(data, timeout=5)

    def pause(self, ms):
        """wait; an end of the stream is noticed at once (only where nothing else can be read)"""
        end = time.time() + ms / 1000
        while time.time() < end and not self.st.eof:
            if self.noread:
                time.sleep(max(0, end - time.time()))
            else:
                self.st.wait(min(.5, end - time.time()))

    def gone(self):
        if self.noread or not self.st.eof or (self.ph == 'busy' and self.st.buf):
            return False
        self.add('eof', self.t())
        return True

    def head(self, method, path, close, extra=''):
        return '%s %s HTTP/1.1\r\nHost: x\r\n%s%s' % (method, path, 'Connection: close\r\n' if close else '', extra)

    def path(self, kind):
        cls = self.r.choice('aaaaaaabcde')
        self.nreq += 1
        return cls, '/%s/%s/h%d-%d' % (cls, kind, self.idx, self.nreq)

    def kind(self, i):
        """looks ahead: how the request is served"""
        for o in self.h[i + 1:]:
            if o == 'long':
                return 'slow'
            if o == 'flow':
                return 'flow'
            if o == 'out':
                return 'big'
            if o in ('answer',):
                return 'fast'
        return self.r.choice(['slow', 'fast'])


    def run(self):
        t0 = self.t()
        want = any(o in ('flow', 'out') for o in self.h)
        self.st = (http1.Stream if self.front == 'plain' else http1.TlsStream)(('127.0.0.1', self.srv.ports[self.front]), rcvbuf=262144 if want else None)
        if self.front != 'plain' and not self.st.up:
            self.bad = 'TLS handshake failed (%s)' % self.st.err
            return dict(io=IO, ev=[dict(o='conn', t0=t0, t1=self.t())])
        self.tk, self.noread, self.nreq, self.ph, self.q, self.rest = 0, False, 0, 'fresh', [], 'none'
        self.partial = None
        self.add('conn', t0)
        try:
            self._ops()
        finally:
            for q in self.q:
                self.hold.act(q['id'], 'close')
                if q['id'] in self.flow.fin:
                    self.flow.fin[q['id']].set()
            self.st.close()
        return dict(io=IO, ev=self.ev)

    def request(self, i, method, extra='', nth=0, close=False):
        kind = 'slow' if method == 'POST' else self.kind(i) if nth == 0 else 'fast'
        cls, p = self.path(kind)
        q = dict(cls=cls, kind=kind, close=close, id=p.rsplit('/', 1)[1], method=method)
        return q, self.head(method, p, close, extra)

    def _ops(self):
        h = self.h
        for i, o in enumerate(h):
            if self.gone():
                return
            t0 = self.t()
            if self.ph == 'closing':
                break
            if self.ph not in {'half': ('fresh', 'head', 'idle'), 'req': ('fresh', 'head', 'idle'), 'reqclose': ('fresh', 'head', 'idle'), 'two': ('fresh', 'head', 'idle'),
                               'reqhalf': ('fresh', 'head', 'idle'), 'post': ('fresh', 'head', 'idle'), 'body': ('body',), 'bodyend': ('body',), 'take': ('flow', 'out'),
                               'flow': ('busy',), 'out': ('busy',), 'answer': ('busy',), 'drain': ('flow', 'out')}.get(o, (self.ph,)):
                continue
            if o in ('flow', 'out') and self.q[0]['kind'] not in ('flow', 'big'):
                continue
            if o == 'half':
                if self.partial is None:
                    # which request will it be?
                    j = next((j for j in range(i + 1, len(h)) if h[j] in ('req', 'reqclose', 'two', 'reqhalf', 'post')), None)
                    m = 'POST' if j is not None and h[j] == 'post' else 'GET'
                    q, hd = self.request(j if j is not None else i, m, close=j is not None and h[j] == 'reqclose',
                                         extra='Content-Length: 12\r\n' if m == 'POST' else '')
                    k = self.r.randrange(1, len(hd))
                    self.put(hd[:k].encode())
                    self.partial = (q, hd[k:])
                else:
                    q, hd = self.partial
                    k = self.r.randrange(0, len(hd)) if hd else 0
                    self.put((hd[:k] or ('' if hd else 'X-More: 1\r\n')).encode() or hd[:1].encode())
                    self.partial = (q, hd[k:] if k else hd[1:])
                self.add('in', t0, ph='head')
                self.ph = 'head'
            elif o in ('req', 'reqclose', 'two', 'reqhalf'):
                if self.partial:
                    q, hd = self.partial
                else:
                    q, hd = self.request(i, 'GET', close=o == 'reqclose')
                qs, data = [q], hd + '\r\n'
                self.partial, rest = None, 'none'
                if o == 'two':
                    q2, hd2 = self.request(i, 'GET', nth=1)
                    qs.append(q2)
                    data += hd2 + '\r\n'
                if o == 'reqhalf':
                    j = next((j for j in range(i + 1, len(h)) if h[j] in ('req', 'reqclose', 'two', 'reqhalf', 'post')), None)
                    m = 'POST' if j is not None and h[j] == 'post' else 'GET'
                    q2, hd2 = self.request(j if j is not None else i, m, close=j is not None and h[j] == 'reqclose', extra='Content-Length: 12\r\n' if m == 'POST' else '')
                    k = self.r.randrange(1, len(hd2))
                    data += hd2[:k]
                    self.partial, rest = (q2, hd2[k:]), 'head'
                self.put(data.encode())
                self.busy(t0, qs, rest)
            elif o == 'post':
                if self.partial:
                    q, hd = self.partial
                else:
                    q, hd = self.request(i, 'POST', extra='Content-Length: 12\r\n')
                self.partial = None
                self.put((hd + '\r\nabc').encode())
                self.left, self.bq = 9, q
                self.add('in', t0, ph='body')
                self.ph = 'body'
            elif o == 'body':
                if self.left < 2:
                    continue
                self.put(b'd')
                self.left -= 1
                self.add('in', t0, ph='body')
            elif o == 'bodyend':
                self.put(b'e' * self.left)
                self.busy(t0, [self.bq], 'none')
            elif o in ('flow', 'out'):
                self.noread = True
                time.sleep(.4)
                self.add('fill', t0, ph=o)
                self.ph = o
            elif o == 'take':
                n, e = 0, time.time() + 3
                while n < TAKE and time.time() < e and not self.st.eof:
                    self.st.wait(.5)
                    n = self.st.total - self.tk
                self.tk = self.st.total
                if self.st.eof:
                    self.noread = False
                    self.add('eof', self.t())
                    return
                self.add('take', t0)
            elif o in ('answer', 'drain'):
                if not self.answer(t0):
                    return
            elif o in ('wait', 'long'):
                self.pause(1000)
        if self.gone():
            return
        # the end: who has to go goes, who waits for the server stays
        if self.ph == 'busy' and self.q[0]['kind'] != 'fast':
            self.pause(IO + 1600)
            if self.gone():
                return
            if self.q[0]['kind'] == 'slow':
                self.add('open', self.t())
        if self.ph == 'busy':
            while self.ph == 'busy' and self.q:
                if not self.answer(self.t()):
                    return
        if self.ph in ('flow', 'out'):
            t1 = max(e['t1'] for e in self.ev)
            self.pause(t1 + IO + LATE + 300 - self.t())
            self.answer(self.t())
            return
        k = self.lastk if self.ph == 'idle' else 0
        self.pause((k + 1000 if self.ph == 'idle' else IO if self.ph != 'closing' else 0) + LATE + 300)
        if not self.gone():
            self.add('open', self.t())

    def busy(self, t0, qs, rest):
        self.add('req', t0, qs=[dict(close=q['close']) for q in qs], rest=rest)
        self.q += qs
        self.rest = rest
        self.ph = 'busy'

    def answer(self, t0):
        q = self.q[0]
        self.noread = False
        if q['kind'] == 'slow':
            if until(lambda: self.hold.arrived(q['id']) or self.st.eof, 5):
                self.hold.act(q['id'], b'HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nslow')
        elif q['kind'] == 'flow':
            until(lambda: q['id'] in self.flow.fin or self.st.eof, 5)
            if q['id'] in self.flow.fin:
                self.flow.fin[q['id']].set()
        end = time.time() + 15
        resp = None
        while resp is None and time.time() < end:
            if len(self.st.buf) < 300 or q['kind'] not in ('flow', 'big') or self.st.eof or bytes(self.st.buf[-5:]) == b'0\r\n\r\n' or len(self.st.buf) >= BIG:
                resp, n = http1.parse_response(self.st.buf, 'GET', self.st.eof)
            if resp is not None or self.st.eof:
                break
            self.st.wait(.3)
        if resp is None or resp.bad or resp.trunc or resp.blen != {'big': BIG, 'flow': self.flow.sent.get(q['id'])}.get(q['kind'], resp.blen):
            if self.st.eof:
                self.add('eof', self.t())
            else:
                self.bad = 'no answer to request %s within 15 s' % q['id']
            return False
        if resp.status != 200:
            self.bad = 'request %s was answered %d' % (q['id'], resp.status)
            return False
        del self.st.buf[:n]
        close = any(k == 'connection' and 'close' in v.lower() for k, v in resp['headers'])
        self.add('answer', t0, ann=close, cf=self.cf(q['cls']))
        self.lastk = self.cf(q['cls'])['k']
        self.q.pop(0)
        if close:
            self.q, self.ph = [], 'closing'
        elif self.q:
            self.ph = 'busy'
            if self.q[0]['kind'] == 'fast':    # is answered already
                return self.answer(t0)
        else:
            self.ph = 'idle' if self.rest == 'none' else self.rest
        return True


def run(c):
    vlib.build()
    r = vlib.tlc('KeepAliveMC', 'KeepAliveMC.cfg', workers=8, want_ok=True)
    c.model(r, 'KeepAliveMC')
    hold, flow = Hold(), Flow()
    scn = []
    g = vlib.tlc('KeepAliveGen', 'KeepAliveGen4.cfg')
    short = sorted(set(json.dumps(x['h']) for x in vlib.printed(g.out, 'SCN')))
    g = vlib.tlc('KeepAliveGen', 'KeepAliveSim.cfg', workers=1, extra=['-simulate', 'num=%d' % (6000 if c.thorough else 1500), '-depth', '14', '-seed', str(c.rng.randrange(1 << 30))])
    long = sorted(set(json.dumps(x['h']) for x in vlib.printed(g.out, 'SCN') if len(x['h']) > 4))
    c.rng.shuffle(short)
    c.rng.shuffle(long)
    ns, nl = (1300, 900) if c.thorough else (230, 170)
    heavy = lambda h: 'flow' in h or 'out' in h
    pick = [h for h in short if not heavy(h)][:ns] + [h for h in short if heavy(h)][:ns // 6] + \
           [h for h in long if not heavy(h)][:nl] + [h for h in long if heavy(h)][:nl // 6]
    c.rng.shuffle(pick)
    bases = [(k, n) for k in (0, 2000, 5000, 3000) for n in (0, 1, 2, 3)]
    srvs = []
    for bi, (k, n) in enumerate(bases):
        opts = 'keepalive.timeout %d;\nkeepalive.requests %d;\n' % (k // 1000, n)
        where = c.rng.random() < .5
        conf = ('' if where else opts) + '''
if req.path =^ "/b/" { keepalive.timeout 1; }
if req.path =^ "/c/" { keepalive.requests 1; }
if req.path =^ "/d/" { keepalive.timeout 0; }
if req.path =^ "/e/" { keepalive.timeout 2; keepalive.requests 2; }
if req.path =~ "/slow/" { proxy "127.0.0.1:%d"; }
else if req.path =~ "/flow/" { proxy "127.0.0.1:%d"; }
else if req.path =~ "/big/" { rewrite ".*" => "/big"; docroot "@DIR@"; static; }
else { respond 200 => "fast"; }
''' % (hold.stub.port, flow.port)
        tls, mods, setup = http1.tlsports(['mod_proxy', 'mod_rewrite'], 'io.timeout %d;\n%s' % (IO // 1000, opts if where else ''), vlib.free_port, vlib.mod_dir())
        s = vlib.Server(conf, modules=mods, name='c25-%d' % bi, setup=setup)
        s.ports = dict(tls, plain=s.port)
        with open(os.path.join(s.dir, 'big'), 'wb') as f:
            f.truncate(BIG)
        s.start()
        srvs.append((s, (k, n)))
    light = [h for h in pick if not heavy(json.loads(h))]
    heavys = [h for h in pick if heavy(json.loads(h))]
    recs, hs = [], []
    lock = threading.Lock()

    def one(a):
        i, h = a
        s, b = srvs[i % len(srvs)]
        x = Hist(s, i, json.loads(h), b, i * 7919 + SEED, hold, flow)
        rec = x.run()
        with lock:
            recs.append(rec)
            hs.append((x, b))
    SEED = c.rng.randrange(1 << 30)
    done = threading.Thread(target=lambda: vlib.parallel(one, list(enumerate(heavys)), n=24))
    done.start()
    vlib.parallel(one, list(enumerate(light, 10000)), n=150)
    done.join()
    for s, b in srvs:
        if s.proc.poll() is not None:
            c.violation('server', 'the server died (rc %s)' % s.proc.returncode, dict(log=s.log()[-3000:], base=b))
        s.stop()
    hold.stop()
    for x, b in hs:
        if x.bad:
            c.violation('answer', x.bad, dict(base=b, front=x.front, h=x.h, ev=x.ev))
    rej, d, g = vlib.validate('KeepAliveTrace', 'KeepAliveTrace.cfg', recs)
    c.log('validated')
    for i, rec in enumerate(recs):
        if i in rej and not hs[i][0].bad:
            n = vlib.stuck('KeepAliveTrace', 'KeepAliveTrace.cfg', rec)
            c.violation('history', 'keep-alive or io timeout: the model does not allow this history (stuck at %s)' % (n,), dict(base=hs[i][1], front=hs[i][0].front, h=hs[i][0].h, ev=rec['ev'], stuck=n))
    c.cov['histories'] = len(recs)
    c.cov['traces_validated_against_impl'] = len(recs)
    c.cov['states'] += d
    c.cov['transitions'] += g
    c.cov['events'] = sum(len(x['ev']) for x in recs)
    c.cov['cut or shut'] = sum(1 for x in recs if x['ev'][-1]['o'] == 'eof')
    c.cov['answers'] = sum(1 for x in recs for e in x['ev'] if e['o'] == 'answer')
    c.sample(recs[:3])


vlib.main('C25', run)
