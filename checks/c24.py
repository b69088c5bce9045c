#!/usr/bin/env python3
"""C24: restarts, crashes and shutdown (Lifecycle) - see DESIGN.md"""
import sys, os, time, random, signal, socket, subprocess, tempfile, ctypes
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, http1, hold

NMAX = 14


def models(c):
    for m in ('Lifecycle', 'LifecycleBig'):
        c.model(vlib.tlc('Lifecycle', m + '.cfg', want_ok=True), m)
    for b in ('LifecycleBug1', 'LifecycleBug2', 'LifecycleBug3', 'LifecycleBug4', 'LifecycleBug5', 'LifecycleVac'):
        if vlib.tlc('Lifecycle', b + '.cfg').ok:
            raise vlib.Broken(b + ' not refuted')


def children(pid):
    out = []
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                s = open('/proc/%s/stat' % p).read().rsplit(')', 1)[1].split()
            except OSError:
                continue
            if int(s[1]) == pid and s[0] != 'Z':
                out.append(int(p))
    return sorted(out)


def dead(pid):
    try:
        return open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()[0] == 'Z'
    except OSError:
        return True


class World:
    """an angel with its workers (or a worker alone), clients, and the record"""

    def __init__(self, solo, good, workers, files, r):
        self.solo, self.r, self.workers = solo, r, workers
        self.dir = tempfile.mkdtemp(prefix='lc-', dir=vlib.scratch())
        self.port = vlib.free_port()
        self.files = files
        self.hold = hold.Hold()
        self.g, self.cur_good = 0, good
        self.good0 = good
        self.ev = []
        self.cl = {}          # k -> dict
        self.n = 0
        self.seen = set()
        self.stalled = []
        self.write(good)
        self.out = open(self.dir + '/out', 'ab')
        if solo:
            cmd = [vlib.worker_bin(), '-m', vlib.mod_dir(), '-c', self.dir + '/l.conf']
        else:
            open(self.dir + '/angel.conf', 'w').write('binary "%s";\nconfig "%s/l.conf";\nmodules_path "%s";\nallow_listen "127.0.0.1/32:%d";\ncopy_env ["PATH"];\n' % (
                vlib.worker_bin(), self.dir, vlib.mod_dir(), self.port))
            cmd = [vlib.angel_bin(), '-c', self.dir + '/angel.conf', '-m', vlib.mod_dir()]
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.out, cwd=self.dir, preexec_fn=vlib._guard)
        self.t0 = time.time()
        self.lastg = 0
        self.last_pids, self.stable = None, time.time()

    def write(self, good):
        self.g += 1
        self.cur_good = good
        s = 'setup {\nlisten "127.0.0.1:%d";\nworkers %d;\nmodule_load "mod_proxy";\nkeepalive.timeout 60;\n}\nheader.add "G" => "%d";\n' % (self.port, self.workers, self.g)
        s += 'if req.path =^ "/s/" { proxy "%s"; } else if req.path =^ "/b/" { docroot "%s"; } else { respond 200 => "hello"; }\n' % (self.hold.addr, self.files)
        if not good:
            s = self.r.choice(['broken {\n', 'setup { listen "127.0.0.1:%d"; module_load "mod_none"; }\n' % self.port, s + 'nosuch.option 3;\n', s.replace('listen', 'listenx')])
        with open(self.dir + '/l.tmp', 'w') as f:
            f.write(s)
        os.rename(self.dir + '/l.tmp', self.dir + '/l.conf')

    def log(self, o, **kw):
        self.ev.append(dict(o=o, t=int((time.time() - self.t0) * 1000), **kw))

    def pids(self):
        if self.solo:
            return [self.p.pid] if self.p.poll() is None else []
        p = children(self.p.pid)
        self.seen.update(p)
        return p

    # -- clients
    def connect(self, k):
        try:
            return http1.Stream(('127.0.0.1', self.port), timeout=3, rcvbuf=4096 if k == 'b' else None)
        except OSError:
            return None

    def send(self, kind, j=None, keep=False):
        self.n += 1
        k = self.n
        path = {'s': '/s/%d' % k, 'b': '/b/big', 'h': '/'}.get(kind, '/f')
        x = dict(kind=kind, keep=keep, again=j is not None, released=False)
        if j is not None:
            x['st'] = self.cl.pop(j)['st']
            self.log('again', k=k, j=j)
        else:
            self.log({'h': 'hold', 'b': 'stall'}.get(kind, 'send'), k=k)
            x['st'] = self.connect(kind)
        x['t'] = self.ev[-1]['t']
        self.cl[k] = x
        if kind == 'b':
            self.stalled.append(k)
        if x['st'] is not None:
            q = 'GET %s HTTP/1.1\r\nHost: x\r\n%s\r\n' % (path, '' if keep or kind == 'b' else 'Connection: close\r\n')
            if kind == 'h':
                q = q[:self.r.randint(5, len(q) - 3)]
            x['st'].send(q.encode())
        self.poll()
        return k

    def probe(self):
        n = len(self.ev)
        k = self.send('f')
        hold.until(lambda: self.poll() or k not in self.cl, 3, .005)
        e = self.ev[n:]
        if len(e) == 2 and e[1]['o'] == 'resp' and e[1]['k'] == k:
            self.ev[n:] = [dict(o='get', t=e[1]['t'], g=e[1]['g'])]
            if k == self.n:
                self.n -= 1
            if n and self.ev[n - 1]['o'] == 'get' and self.ev[n - 1]['g'] == e[1]['g']:
                self.ev.pop()

    def go(self, k, big=False):
        self.log('go', k=k)
        self.cl[k]['released'] = True
        n = 300000 if big else 5
        self.hold.act(str(k), b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n' % n + b'x' * n)

    def poll(self):
        for k, x in list(self.cl.items()):
            st = x['st']
            if st is None:
                self.log('off' if x['kind'] in 'hb' else 'fail', k=k, again=x['again'], sent=x['t'])
                del self.cl[k]
                continue
            if x['kind'] == 'b':
                continue
            st.drain()
            if x['kind'] == 'i':
                if st.eof:
                    self.log('eof', k=k)
                    st.close()
                    del self.cl[k]
                continue
            if x['kind'] == 'h':
                if st.eof or st.buf:
                    self.log('off', k=k)
                    st.close()
                    del self.cl[k]
                continue
            r, n = http1.parse_response(st.buf, 'GET', st.eof)
            if r is not None and r.get('status') == 200 and r.get('complete', True) and not r.get('bad'):
                del st.buf[:n]
                h = dict((a.lower(), b) for a, b in r['headers'])
                g = int(h.get('g', '0'))
                self.lastg = g
                ka = x['keep'] and 'close' not in h.get('connection', '').lower()
                self.log('resp', k=k, g=g, ka=ka)
                if ka:
                    x['kind'] = 'i'
                else:
                    st.close()
                    del self.cl[k]
            elif st.eof or r is not None:
                self.log('fail', k=k, again=x['again'], sent=x['t'])
                st.close()
                del self.cl[k]

    def run(self, dt):
        t = time.time() + dt
        while True:
            self.poll()
            p = self.pids()
            if p != self.last_pids:
                self.last_pids, self.stable = p, time.time()
            if time.time() >= t:
                return
            time.sleep(.01)

    def fast(self):
        return any(x['kind'] == 'f' or (x['kind'] == 's' and x['released']) for x in self.cl.values())

    def old(self):
        return [x for x in self.cl.values()]

    def settle(self, want=None, probe=True):
        """wait until nothing changes; then it is recorded what there is"""
        t0 = time.time()
        win = .3 if want else 1.8
        while time.time() - t0 < 15:
            self.run(.05)
            if probe and not self.fast() and self.last_pids:
                self.probe()
            ok = not self.fast() and time.time() - self.stable > win and time.time() - t0 > win
            if want:
                ok = ok and (len(self.last_pids), self.lastg) == want
                if time.time() - t0 > 8:
                    want, win = None, 1.5
            if ok:
                break
            if probe:
                self.run(.25)
        w = len(self.pids())
        f = 0
        if not self.solo:
            try:
                f = len(os.listdir('/proc/%d/fd' % self.p.pid))
            except OSError:
                pass
        self.log('set', w=w, f=f)

    def sig(self, s):
        try:
            self.p.send_signal(s)
        except OSError:
            pass

    def hup(self, good=None):
        if good is not None:
            self.write(good)
            self.log('edit', good=good)
        self.log('hup')
        self.sig(signal.SIGHUP)

    def kill(self):
        p = self.pids()
        if not p:
            return
        v = self.r.choice(p)
        self.log('kill')
        try:
            os.kill(v, signal.SIGKILL)
        except OSError:
            pass
        hold.until(lambda: dead(v), 3)

    def ready(self):
        t0 = time.time()
        while time.time() - t0 < 15:
            try:
                socket.create_connection(('127.0.0.1', self.port), timeout=1).close()
                return True
            except OSError:
                time.sleep(.02)
        return False

    def term(self):
        self.log('term')
        self.sig(signal.SIGTERM)

    def end(self):
        t0 = time.time()
        while time.time() - t0 < 15 and (self.p.poll() is None or any(not dead(p) for p in self.seen)):
            self.run(.03)
        self.run(.05)
        rc = self.p.poll()
        if rc is None or any(not dead(p) for p in self.seen):
            rc = -999
        self.log('gone', rc=rc)

    def cleanup(self):
        for p in [self.p.pid] + sorted(self.seen) + children(self.p.pid):
            try:
                if p == self.p.pid or 'lighttpd2' in open('/proc/%d/cmdline' % p).read():
                    os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        try:
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            pass
        for x in self.cl.values():
            if x['st'] is not None:
                x['st'].close()
        self.hold.stop()
        self.out.close()

    def record(self):
        return dict(st=self.stalled, good=self.good0, reqs=max(1, self.n), ev=self.ev)


def arrived(w, k):
    hold.until(lambda: w.poll() or k not in w.cl or w.hold.arrived(str(k)), 4, .01)


def play(spec, files):
    """one history; spec: (kind, seed)"""
    kind, seed = spec
    r = random.Random(seed)
    solo = kind == 'solo'
    w = World(solo, kind != 'badstart', r.choice([1, 2, 3]), files, r)
    steps = []
    try:
        if kind == 'badstart':
            w.settle(None, probe=False)
            for _ in range(r.choice([0, 0, 1])):
                w.hup(False)
                w.settle(None, probe=False)
            w.hup(True)
            w.ready()
        else:
            if not w.ready():
                raise vlib.Broken('no start: ' + open(w.dir + '/out').read()[-1500:])
        w.settle((1, w.g))
        slow, serving = [], w.g

        def S(x):
            steps.append(x)

        def begin(what):
            S(what)
            if what == 'slow':
                k = w.send('s', keep=r.random() < .4)
                arrived(w, k)
                slow.append(k)
            elif what == 'idle':
                k = w.send('f', keep=True)
                w.run(.05)
            elif what == 'again':
                l = [k for k, x in w.cl.items() if x['kind'] == 'i']
                if l:
                    w.send('f', j=r.choice(l), keep=r.random() < .5)
                    w.run(.05)
            elif what == 'hold':
                w.send(r.choice('hb'))
                w.run(.05)

        def release(n=99):
            for k in list(slow)[:n]:
                slow.remove(k)
                if k in w.cl:
                    w.go(k, r.random() < .3)
            w.run(.1)

        def busy():
            return 1 if any(x['kind'] in 'shb' for x in w.cl.values()) else 0

        if not solo:
            hups = 0
            for _ in range(r.randint(2, 5)):
                for _ in range(r.choice([0, 1, 2])):
                    begin(r.choice(['slow', 'slow', 'idle', 'idle', 'again', 'hold'] if kind != 'many' else ['idle', 'again']))
                op = r.choice({'mix': ['hup', 'hup', 'hup', 'badhup', 'kill', 'huphup', 'hupkill', 'go'], 'badstart': ['hup', 'badhup', 'kill', 'go'], 'many': ['hup'],
                               'kill': ['hup', 'kill', 'hupkill', 'hupkill', 'badhupkill'], 'termhup': ['hup', 'badhup', 'slow']}[kind])
                if hups > 7:
                    op = 'go'
                S(op)
                if op in ('hup', 'huphup', 'hupkill'):
                    hups += 2 if op == 'huphup' else 1
                    w.hup(True)
                    if op == 'huphup':
                        w.run(r.choice([0, .01, .05, .2]))
                        w.hup()
                    if op == 'hupkill':
                        w.run(r.choice([0, .01, .03, .06, .1]))
                        w.kill()
                        w.run(.1)
                        w.settle(None)
                    elif op == 'huphup':
                        w.settle(None)
                    else:
                        w.settle((1 + busy(), w.g))
                elif op in ('badhup', 'badhupkill'):
                    hups += 1
                    # (with a bad configuration a killed worker is gone for good: no requests then)
                    w.hup(False)
                    w.settle(None)
                    if op == 'badhupkill':
                        release()
                        w.run(.3)
                        w.kill()
                        w.settle(None, probe=False)
                        w.hup(True)
                        hups += 1
                        w.ready()
                        w.settle((1, w.g))
                    else:
                        w.write(True)
                        w.log('edit', good=True)
                elif op == 'kill':
                    w.kill()
                    w.run(.3)
                    w.settle(None)
                elif op == 'go':
                    release(r.choice([1, 9]))
                elif op == 'slow':
                    begin('slow')
                if op != 'go' and r.random() < .6:
                    release(r.choice([1, 9]))
                    for _ in range(r.randint(0, 1)):
                        w.send('f', keep=r.random() < .5)
                    w.run(.1)
                    if not [x for x in w.cl.values() if x['kind'] in 'shb']:
                        w.settle((1, w.lastg))
            if kind == 'termhup':
                if r.random() < .6 and not slow:
                    begin('slow')
                S('hup+term')
                w.hup(True)
                w.run(r.choice([0, .005, .01, .02, .04, .08, .3]))
        else:
            for _ in range(r.randint(0, 5)):
                begin(r.choice(['slow', 'slow', 'idle', 'idle', 'again', 'hold']))
        S('term')
        w.term()
        if r.random() < .5:
            w.run(r.choice([.02, .1, .5]))
            for k, x in list(w.cl.items()):
                if x['kind'] == 'i' and r.random() < .3:
                    w.send('f', j=k)
        for _ in range(r.randint(0, 2)):
            w.send('f')
            w.run(.02)
        if r.random() < .6:
            w.run(r.choice([.3, 1, 2]))
            if r.random() < .7:
                release()
        w.end()
        return w.record(), steps
    finally:
        w.cleanup()


def where(rec):
    """the first event that is refused"""
    p = os.path.join(vlib.scratch(), 'where.ndjson')
    vlib.write_ndjson(p, [rec])
    r = vlib.tlc('LifecycleTrace', 'LifecycleWhere.cfg', env={'TRACE': p}, workers=1)
    return max(int(x) for x in vlib.printed(r.out, 'AT'))


def run(c):
    ctypes.CDLL(None).prctl(36, 1)       # workers that lose their angel become our children
    models(c)
    files = os.path.join(vlib.scratch(), 'c24-files')
    os.makedirs(files + '/b', exist_ok=True)
    os.chmod(files, 0o755)
    with open(files + '/b/big', 'wb') as f:
        f.truncate(60 << 20)
    n = 6 if c.thorough else 1
    specs = [(k, c.rng.getrandbits(30)) for k in ['mix'] * 14 * n + ['solo'] * 14 * n + ['kill'] * 8 * n + ['termhup'] * 10 * n + ['badstart'] * 6 * n + ['many'] * 4 * n]
    res = vlib.parallel(lambda s: play(s, files), specs, n=10)
    c.log('histories')
    recs = [x[0] for x in res]
    rej, d, g = vlib.validate('LifecycleTrace', 'LifecycleTrace.cfg', recs)
    for i in sorted(rej)[:6]:
        m = where(recs[i])
        e = recs[i]['ev'][m - 1]
        c.violation('lifecycle', '%s: %s is not allowed after %s' % (specs[i][0], e, ' '.join(res[i][1])), dict(kind=specs[i], steps=res[i][1], at=m, record=recs[i]))
    c.cov['histories'] = len(recs)
    c.cov['requests'] = sum(x['reqs'] for x in recs)
    c.cov['signals'] = sum(1 for x in recs for e in x['ev'] if e['o'] in ('hup', 'kill', 'term'))
    c.cov['trace states'] = d
    c.sample([dict(kind=s, steps=x[1]) for s, x in list(zip(specs, res))[:4]])


vlib.main('C24', run)
