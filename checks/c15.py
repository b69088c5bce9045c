#!/usr/bin/env python3
"""C15: rate limits (Throttle) - see DESIGN.md"""
import sys, os, time, threading, socket
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, http1


def models(c):
    for m in ('Throttle', 'ThrottleP', 'ThrottleQ'):
        c.model(vlib.tlc('Throttle', m + '.cfg', want_ok=True), m)
    for b in ('ThrottleBug1', 'ThrottleBug2', 'ThrottleBug3', 'ThrottleBug4', 'ThrottleBug5', 'ThrottleVac'):
        if vlib.tlc('Throttle', b + '.cfg').ok:
            raise vlib.Broken(b + ' not refuted')


class Script:
    """a script for harness/throttle.c; keeps what the record needs"""

    def __init__(self, r):
        self.r = r
        self.ops = []
        self.pools, self.conns = [], []
        self.t = 0
        self.marks = []          # (time, event)
        self.nw = r.choice([1, 1, 2, 2, 3])

    def start(self, ms):
        self.ops += ['S %d' % ms, 'W %d' % self.nw]

    def pool(self, kr, burst):
        self.pools.append(dict(kr=kr, burst=burst))
        self.ops.append('P %d %d' % (kr * 1000, burst))

    def conn(self, w, kr, burst, pools, twice=False):
        self.conns.append(dict(kr=kr, burst=burst if kr else 0, pools=pools))
        self.ops.append('C %d %d %d %d' % (w, kr * 1000, burst, sum(1 << (p - 1) for p in pools) | (256 if twice else 0)))
        return len(self.conns) - 1

    def op(self, s):
        self.ops.append(s)

    def rest(self, ms):
        ms -= ms % 10
        self.ops.append('T %d' % ms)
        self.t += ms

    def mark(self):
        self.marks.append((self.t, dict(o='mark', t=self.t)))
        self.m = self.t

    def prog(self, pool=0, conn=0):
        self.marks.append((self.t, dict(o='prog', t=self.t, d=self.t - self.m, pool=pool, conn=conn)))

    def line(self):
        return ';'.join(self.ops)

    def record(self, out):
        ev = []
        ms = list(self.marks)
        for e in out:
            t = e[2]
            # marks lie between the events at their time and the later ones
            while ms and ms[0][0] < t:
                ev.append(ms.pop(0)[1])
            if e[0] == 'q':
                ev.append(dict(o='q', c=e[1] + 1, t=t, want=e[3], got=e[4], used=e[5]))
            elif e[0] == 'b':
                ev.append(dict(o='b', ms=e[1], t=t))
            else:
                ev.append(dict(o=e[0], c=e[1] + 1, t=t))
        ev += [m[1] for m in ms]
        ev.append(dict(o='end', t=self.t))
        return dict(workers=self.nw, pools=self.pools, conns=self.conns, ev=ev)


def epoch(r):
    return r.choice([1700000000000, 1700000000000 + r.randrange(10**9), (r.randrange(1, 500) << 32) - r.randrange(8000), r.randrange(300, 400) << 32])


def shared(r):
    """connections that always want more share one pool (some have a limit of their own that does not matter)"""
    s = Script(r)
    s.start(epoch(r))
    kr = r.choice([9, 16, 50, 100, 333])
    s.pool(kr, kr * r.choice([200, 1000, 1000, 3000]))
    n = r.randrange(1, 6)
    for _ in range(n):
        s.conn(r.randrange(s.nw), *r.choice([(0, 0), (2 * kr, 2000 * kr)]), [1], r.random() < .2)
    for i in range(n):
        s.op('H %d %d' % (i, r.choice([200000, 65536, 40000, 300000])))
        if r.random() < .3:
            s.rest(r.randrange(0, 600))
    s.rest(3000)
    for _ in range(r.randrange(1, 4)):
        s.mark()
        s.rest(r.randrange(6000, 9000))
        s.prog(pool=1)
    return s


def own(r):
    """each connection its own limit, and pools that do not matter"""
    s = Script(r)
    s.start(epoch(r))
    s.pool(2000, 2000000)
    n = r.randrange(1, 4)
    for _ in range(n):
        kr = r.choice([9, 16, 50, 100])
        s.conn(r.randrange(s.nw), kr, kr * r.choice([200, 500, 2000, 10000]), r.choice([[], [], [1]]))
    for i in range(n):
        s.op('H %d %d' % (i, r.choice([200000, 30000])))
    for _ in range(2):
        s.rest(r.randrange(1000, 3000))
        s.mark()
        s.rest(r.randrange(6000, 9000))
        for i in range(n):
            s.prog(conn=i + 1)
    return s


def stalls(r, long=False):
    """connections that stop and go on, come and go"""
    s = Script(r)
    s.start(epoch(r))
    for _ in range(r.randrange(1, 4)):
        kr = r.choice([9, 50, 100, 250])
        s.pool(kr, kr * r.choice([200, 200, 1000, 2500]))
    live = []

    def new():
        ps = sorted(r.sample(range(1, len(s.pools) + 1), r.choice([0, 1, 1, 1, len(s.pools)])))
        kr = r.choice([0, 0, 0, 20, 100])
        live.append(s.conn(r.randrange(s.nw), kr, kr * r.choice([200, 1000, 4000]), ps, r.random() < .1))
    new()
    new()
    for _ in range(r.randrange(5, 30)):
        x = r.random()
        if x < .1 and len(s.conns) < 8:
            new()
        elif x < .15 and live:
            s.op('X %d' % live.pop(r.randrange(len(live))))
        elif x < .5 and live:
            s.op('Q %d %d %d' % (r.choice(live), r.choice([1, 100, 8192, 8193, 60000, 65536, 65537, 262144]), r.choice([0, 1, 50, 99, 100, 100])))
        elif x < .75 and live:
            s.op('H %d %d' % (r.choice(live), r.choice([0, 0, 20000, 300000])))
        else:
            s.rest(r.choice([0, 10, 50, 190, 200, 210, 400, 1000, 5000] + ([30000] if long else [])))
    return s


def stale(r):
    """one connection stops while the others go on for long, then it goes on as well"""
    s = Script(r)
    s.start(epoch(r))
    kr = r.choice([100, 200])
    s.pool(kr, kr * r.choice([200, 400]))
    n = r.randrange(2, 5)
    for i in range(n):
        s.conn(0 if i == 0 else s.nw - 1, 0, 0, [1])
    s.op('Q 0 %d %d' % (r.choice([60000, 65536]), r.choice([0, 100])))
    for i in range(1, n):
        s.op('H %d 200000' % i)
    s.rest(r.choice([2000, 10000, 25000]))
    s.op('H 0 200000')
    s.rest(3000)
    return s


def back(r):
    """the clock is set back while nothing waits"""
    s = Script(r)
    s.start(1700000000000 + r.randrange(10**9))
    kr = r.choice([9, 50, 100])
    s.pool(kr, kr * 1000)
    for i in range(2):
        s.conn(r.randrange(s.nw), 0, 0, [1])
        s.op('H %d 100000' % i)
    s.rest(r.randrange(1000, 4000))
    s.op('X 0')
    s.op('X 1')
    s.op('B %d' % r.choice([1000, 60000, 3600000, 86400000]))
    for i in range(2):
        s.conn(r.randrange(s.nw), 0, 0, [1])
        s.op('H %d 100000' % (2 + i))
    s.rest(3000)
    s.mark()
    s.rest(8000)
    s.prog(pool=1)
    return s


# ---- through a server

def serve(c, kind, kr, burst, n, size, files):
    """n downloads at once; record of how much had arrived when, and how long it took"""
    act = {'conn': 'io.throttle %d => %d;' % (burst, kr * 1000), 'pool': 'io.throttle_pool %d;' % (kr * 1000), 'ip': 'io.throttle_ip %d;' % (kr * 1000)}[kind]
    srv = vlib.Server('%s\ndocroot "%s"; static;\n' % (act, files), ['mod_throttle'], name='c15-' + kind, workers=2).start()
    t0 = time.time()
    sums, lock = [], threading.Lock()
    got = [0] * n

    def one(k):
        s = socket.create_connection(('127.0.0.1', srv.port), timeout=60)
        s.sendall(b'GET /f HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n')
        while True:
            b = s.recv(65536)
            if not b:
                break
            with lock:
                got[k] += len(b)
                ms = int((time.time() - t0) * 1000) + 2
                sums.append((ms, k, got[k], sum(got)))
        s.close()
    try:
        vlib.parallel(one, list(range(n)), n=n)
    finally:
        srv.stop()
    el = time.time() - t0
    step = max(1, len(sums) // 150)
    ev = []
    for ms, k, g, tot in sums[::step] + sums[-1:]:
        ev.append(dict(o='sum', t=ms, pool=0 if kind == 'conn' else 1, conn=k + 1, n=g if kind == 'conn' else tot, conns=n))
    rec = dict(workers=2, pools=[dict(kr=kr, burst=kr * 1000)], conns=[dict(kr=kr, burst=burst, pools=[1])] * n, ev=ev)
    short = [g for g in got if g < size]
    if short:
        c.violation('short', 'a limited download ended after %d of %d bytes' % (short[0], size), dict(kind=kind, kr=kr, got=got))
    ideal = (size - burst) / (kr * 1000.0) if kind == 'conn' else n * size / (kr * 1000.0)
    if el > 3 * ideal + 10:
        c.violation('slow', 'limited downloads took %.1f s where the limit asks for %.1f s' % (el, ideal), dict(kind=kind, kr=kr, n=n, size=size))
    return rec, dict(kind=kind, kr=kr, burst=burst, n=n, size=size, secs=round(el, 1))


def run(c):
    vlib.build()
    models(c)
    c.log('models')
    r = c.rng
    b = vlib.compile_harness('throttle')
    m = 6 if c.thorough else 1
    scripts = [shared(r) for _ in range(60 * m)] + [own(r) for _ in range(30 * m)] + [stalls(r, c.thorough) for _ in range(150 * m)] + \
              [stale(r) for _ in range(30 * m)] + [back(r) for _ in range(30 * m)]
    out = vlib.run_harness(b, [s.line() for s in scripts], 'th')
    recs, ctx = [], []
    for s, o in zip(scripts, out):
        if isinstance(o, tuple):
            c.violation('crash', 'the limits crashed: %s' % o[1][:200], dict(script=s.line()))
            continue
        recs.append(s.record(o))
        ctx.append(dict(script=s.line()))
    c.log('scripts')
    files = os.path.join(vlib.scratch(), 'c15-files')
    os.makedirs(files, exist_ok=True)
    os.chmod(files, 0o755)
    size = 400000
    open(files + '/f', 'wb').write(os.urandom(1000) * (size // 1000))
    jobs = [('conn', 100, 100000, 3, size), ('conn', 60, 30000, 2, size), ('pool', 200, 0, 4, size), ('pool', 100, 0, 1, size), ('ip', 200, 0, 4, size), ('ip', 400, 0, 9, size)]
    lock = threading.Lock()

    def e2e(j):
        rec, x = serve(c, *j, files)
        with lock:
            recs.append(rec)
            ctx.append(x)
    vlib.parallel(e2e, jobs * (2 if c.thorough else 1), n=6)
    c.log('downloads')
    rej, d, g = vlib.validate('ThrottleTrace', 'ThrottleTrace.cfg', recs)
    for i in sorted(rej)[:8]:
        m = vlib.stuck('ThrottleTrace', 'ThrottleTrace.cfg', recs[i])
        e = recs[i]['ev'][m - 1] if m and m <= len(recs[i]['ev']) else None
        c.violation('throttle', 'rate limit: %s not allowed (%s)' % (e, str(ctx[i])[:300]), dict(ctx=ctx[i], at=m, pools=recs[i]['pools'], conns=recs[i]['conns'], ev=recs[i]['ev'][max(0, m - 40):m]))
    c.cov['histories'] = len(recs)
    c.cov['queries'] = sum(1 for x in recs for e in x['ev'] if e['o'] == 'q')
    c.cov['trace states'] = d
    c.sample([dict(ctx=x) for x in ctx[:3]])


vlib.main('C15', run)
