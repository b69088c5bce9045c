"""C10: balancers (spec/Balance.tla)"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1, relay
from hold import Hold, until, Client

W, SLACK = 6000, 4000


class Back:
    """a backend on a fixed port that can go away and come back"""

    def __init__(self, proto):
        self.proto = proto
        h = Hold(proto=proto)
        self.port = h.stub.port
        self.holds, self.cur = [h], h

    def down(self):
        self.cur.stub.stop()
        self.cur = None

    def up(self):
        self.cur = Hold(port=self.port, proto=self.proto)
        self.holds.append(self.cur)

    def evs(self, k):
        return [e for h in self.holds for e in h.reqs.get(k, [])]

    def act(self, k, a):
        for h in self.holds:
            h.act(k, a)

    def stop(self):
        for h in self.holds:
            h.stop()


class Hist:
    def __init__(self, srv, k, spec, backs, seed, long):
        self.srv, self.k, self.spec, self.backs, self.long = srv, k, spec, backs, long
        import random
        self.r = random.Random(seed)
        self.ev, self.cl, self.n = [], {}, 0
        self.t0 = time.time()
        self.up = {b for b in range(1, len(spec['kinds']) + 1)}
        self.where, self.waiting, self.bad = {}, set(), []

    def t(self):
        return int((time.time() - self.t0) * 1000)

    def add(self, o, **kw):
        self.ev.append(dict(o=o, **kw))

    def find(self, r):
        key = 'r%d' % r
        l = [b for b, x in self.backs.items() for _ in x.evs(key)]
        if len(l) > 1:
            self.bad.append('request %d was passed on %d times (to %s)' % (r, len(l), l))
        return l[0] if l else 0

    def poll(self):
        """waiting requests that arrived meanwhile"""
        for r in sorted(self.waiting):
            b = self.find(r)
            c = self.cl[r].poll()
            if b or c:
                self.waiting.discard(r)
                if b:
                    self.add('arr', r=r, b=b, t=self.t())
                    self.where[r] = b
                else:
                    self.static(r, c, True)

    def static(self, r, c, waited, t=0):
        who = (c.get('body') or b'').decode('latin1') if c.get('status') == 200 else ''
        b = int(who) if who.isdigit() else 99
        if b == 99:
            self.bad.append('request %d answered %s %s without a backend' % (r, c.get('status'), who[:50]))
        if waited:
            self.add('arr', r=r, b=b, t=self.t())
        else:
            self.add('req', r=r, b=b, t=t, ta=self.t())
        self.add('got', r=r, b=b, own=True)

    def req(self):
        r = self.n = self.n + 1
        c = self.cl[r] = Client((self.srv.ip, self.srv.port))
        body = b'' if self.r.random() < .6 else b'<%d>' % r * self.r.choice([1, 50, 9000])
        c.body = body
        t = self.t()
        c.send('/h%d/r%d' % (self.k, r), 'Content-Length: %d\r\n' % len(body) if body else '', 'POST' if body else 'GET', body)
        # nothing else happens until it is somewhere, or cannot be anywhere
        lim = .25 if not self.up else (W + SLACK + 1500) / 1000
        if self.waiting:
            lim = .25
        until(lambda: self.find(r) or c.poll(), lim)
        b = self.find(r)
        if b:
            self.add('req', r=r, b=b, t=t, ta=self.t())
            self.where[r] = b
        elif c.poll():
            self.static(r, c.resp, False, t)
        else:
            self.add('req', r=r, b=0, t=t, ta=self.t())
            self.waiting.add(r)

    def answer(self, r):
        b = self.where.pop(r)
        back = self.backs[b]
        body = str(b).encode()
        x = self.r.random()
        own = back.evs('r%d' % r)[0]['body'] == self.cl[r].body
        if x < .12:
            back.act('r%d' % r, self.r.choice(['close', 'rst']))
            c = until(lambda: self.cl[r].poll() or self.cl[r].st.eof, 5)
            p = self.cl[r].resp
            if not c or (p and not 500 <= (p.get('status') or 0) <= 599):
                self.bad.append('request %d: backend broke, client got %s' % (r, p))
            time.sleep(.02)
            self.find(r)
            self.add('err', r=r)
        elif x < .24:
            self.cl[r].abort()
            until(lambda: all(e['gone'] for e in back.evs('r%d' % r)), 5)
            time.sleep(.02)
            self.add('abort', r=r)
        else:
            out = (b'HTTP/1.1 200 OK\r\n' if back.proto == 'http' else b'Status: 200\r\n') + b'Content-Length: %d\r\n\r\n' % len(body) + body
            back.act('r%d' % r, out if back.proto != 'fcgi' else relay.rec(6, out) + relay.rec(6, b'') + relay.rec(3, b'\0' * 8))
            until(lambda: self.cl[r].poll(), 5)
            p = self.cl[r].resp
            ok = bool(p) and p.get('status') == 200 and p.get('body') == body and own
            time.sleep(.01)
            self.find(r)
            if not ok:
                self.bad.append('request %d at backend %d (own %s): client got %s' % (r, b, own, p))
            self.add('got', r=r, b=b, own=ok)

    def settle(self):
        if self.up:
            until(lambda: self.poll() or not self.waiting, (W + SLACK) / 1000)
        self.poll()
        self.add('settled', t=self.t())

    def run(self):
        r = self.r
        flip = [b for b in self.backs]
        try:
            for _ in range(r.randint(8, 14) if not self.long else 40):
                x = r.random()
                self.poll()
                if x < .5 or not self.where:
                    self.req()
                elif x < .75:
                    self.answer(r.choice(sorted(self.where)))
                elif x < .88 and flip:
                    b = r.choice(flip)
                    if b in self.up:
                        if not self.waiting:
                            self.backs[b].down()
                            self.up.discard(b)
                            self.add('down', b=b, t=self.t())
                    else:
                        self.backs[b].up()
                        self.up.add(b)
                        self.add('up', b=b, t=self.t())
                        self.settle()
                elif x < .94 and self.waiting:
                    q = r.choice(sorted(self.waiting))
                    self.waiting.discard(q)
                    self.cl[q].abort()
                    time.sleep(.05)
                    self.add('abort', r=q)
                elif x < .97:
                    time.sleep(r.choice([.3, 1.2]))
            for b in flip:
                if b not in self.up:
                    self.backs[b].up()
                    self.up.add(b)
                    self.add('up', b=b, t=self.t())
            self.settle()
            for q in sorted(self.where):
                self.answer(q)
            if self.spec['m'] != 'any':
                # after a while every member is known to be up again: the choice is determined
                time.sleep(W / 1000 + .3)
                for _ in range(2 * len(self.spec['kinds']) + 2):
                    self.req()
                    if self.where and r.random() < .6:
                        self.answer(r.choice(sorted(self.where)))
                for q in sorted(self.where):
                    self.answer(q)
            for q in self.cl:
                self.find(q)
            self.add('end')
        finally:
            for c in self.cl.values():
                c.st.close()
            for b in self.backs.values():
                b.stop()
        return {'m': self.spec['m'], 'n': len(self.spec['kinds']), 'w': W, 'slack': SLACK, 'ev': self.ev}


def make(r, k):
    """a balancer: kinds of its members (proxy, fcgi, scgi, or an answer made up on the spot)"""
    m = r.choice(['rr', 'rr', 'sqf', 'sqf', 'any'])
    n = r.choice([1, 2, 3, 3, 4])
    kinds = [r.choice(['http', 'http', 'scgi', 'fcgi', 'here' if r.random() < .5 and m != 'sqf' else 'http']) for _ in range(n)]
    if r.random() < .5:
        kinds = ['http' if x == 'here' else x for x in kinds]
    return {'m': m, 'kinds': kinds}


def member(kind, i, back):
    return '{ %s }' % {'here': 'respond 200 => "%d";' % i, 'http': 'proxy "127.0.0.1:%d";', 'scgi': 'scgi "127.0.0.1:%d";', 'fcgi': 'fastcgi "127.0.0.1:%d";'}[kind].replace('%d', str(back.port) if back else str(i))


def config(r, k, spec, backs):
    ms = [member(x, i, backs.get(i)) for i, x in enumerate(spec['kinds'], 1)]
    if spec['m'] == 'any':
        # balancers inside balancers
        cut = r.randint(0, len(ms) - 1)
        a, b = ms[:cut], ms[cut:]
        b = ['{ balance.%s (%s); }' % (r.choice(['rr', 'sqf']), ', '.join(b))]
        ms = b + a if r.random() < .5 else a + b
        m = r.choice(['rr', 'sqf'])
    else:
        m = spec['m']
    if len(ms) == 1 and r.random() < .5:
        return 'balance.%s %s;' % (m, ms[0])
    return 'balance.%s (%s);' % (m, ', '.join(ms))


def run(c):
    r = c.rng
    for i, cfg in enumerate(['BalanceMC1.cfg', 'BalanceMC2.cfg', 'BalanceLive.cfg'] + (['BalanceMC3.cfg'] if c.thorough else [])):
        c.model(vlib.tlc('BalanceMC', cfg, want_ok=True), cfg[:-4])
    for cfg in ('BalanceBug1.cfg', 'BalanceBug2.cfg', 'BalanceBug3.cfg', 'BalanceVac.cfg'):
        if vlib.tlc('BalanceMC', cfg).ok:
            raise vlib.Broken('vacuity: ' + cfg)
    ops = 0
    for rnd in range(1 if not c.thorough else 8):
        specs = [(make(r, k), r.randrange(1 << 30)) for k in range(48)]
        res = play(c, r, specs)
        ops += sum(len(t['ev']) for t, _, _ in res)
        rej, d, g = vlib.validate('BalanceTrace', 'BalanceTrace.cfg', [t for t, _, _ in res])
        c.cov['states'] += d
        c.cov['transitions'] += g
        c.cov['traces_validated_against_impl'] += len(res)
        c.sample(res[0][0])
        bad = sorted(set(rej) | {i for i, x in enumerate(res) if x[1]})
        if bad:
            res2 = play(c, r, [specs[i] for i in bad[:24]])
            rej2, _, _ = vlib.validate('BalanceTrace', 'BalanceTrace.cfg', [t for t, _, _ in res2])
            for i in sorted(set(rej2) | {i for i, x in enumerate(res2) if x[1]})[:6]:
                t, b, conf = res2[i]
                s = vlib.stuck('BalanceTrace', 'BalanceTrace.cfg', t) if i in rej2 else None
                c.violation('balance', '%s: %s; first refused event %s' % (conf, '; '.join(b), s if s is None else (s, t['ev'][max(0, s - 8):s + 2]) if isinstance(s, int) else s), {'config': conf, 'trace': t, 'notes': b})
    c.note(histories=48, events=ops)


def play(c, r, specs):
    conf, hs, confs = [], [], []
    for k, (spec, seed) in enumerate(specs):
        import random
        backs = {i: Back(x) for i, x in enumerate(spec['kinds'], 1) if x != 'here'}
        cf = config(random.Random(seed), k, spec, backs)
        confs.append(cf)
        conf.append('if req.path =^ "/h%d/" { %s }' % (k, cf))
        hs.append((k, spec, backs, seed))
    srv = vlib.Server('keepalive.timeout 60;\n' + '\n'.join(conf), ['mod_balance', 'mod_proxy', 'mod_scgi', 'mod_fastcgi'], workers=r.choice([1, 3]), name='bal')
    with srv:
        def one(x):
            k, spec, backs, seed = x
            h = Hist(srv, k, spec, backs, seed, c.thorough)
            t = h.run()
            return t, h.bad, confs[k]
        out = vlib.parallel(one, hs, 48)
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
    return out


vlib.main('C10', run)
