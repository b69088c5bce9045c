"""C09: requests and their backend connections (spec/Pool.tla)"""
import os, sys, time, threading, socket, select, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, hold, relay, stubs, http1


class Back:
    """a backend that logs what happens on its connections; it can refuse or stop accepting"""

    def __init__(self, proto, ip=None, path=None):
        self.proto, self.ip, self.path = proto, ip, path
        self.cv = threading.Condition()
        self.ev, self.held, self.open, self.late = [], {}, 0, False
        self.stopping = False
        self.base = 0
        self.port = 0
        self.accepting = False
        self.fill = []
        self._listen(64)
        self.addr = 'unix:' + path if path else '%s:%d' % (ip, self.port)
        self.th = threading.Thread(target=self._accept, daemon=True)
        self.accepting = True
        self.th.start()

    def log(self, **e):
        with self.cv:
            self.ev.append(e)
            self.cv.notify_all()

    def _listen(self, n):
        t0 = time.time()
        while True:
            try:
                if self.path:
                    self.s = socket.socket(socket.AF_UNIX)
                    if os.path.exists(self.path):
                        os.unlink(self.path)
                    self.s.bind(self.path)
                else:
                    self.s = socket.socket()
                    self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    self.s.bind((self.ip, self.port))
                    self.port = self.s.getsockname()[1]
                break
            except OSError:
                self.s.close()
                if time.time() - t0 > 5:
                    raise
                time.sleep(.05)
        self.s.setblocking(False)
        self.s.listen(n)

    def _accept(self):
        while not self.stopping:
            if not self.accepting:
                time.sleep(.005)
                continue
            try:
                x, _ = http1.ready(self.s, True, False, .02)
                if not x or not self.accepting:
                    continue
                c, _ = self.s.accept()
            except (OSError, ValueError):
                time.sleep(.005)
                continue
            c.setblocking(True)
            with self.cv:
                self.open += 1
            threading.Thread(target=self._run, args=(c,), daemon=True).start()

    def _run(self, c):
        try:
            self._serve(c)
        except (OSError, EOFError, ValueError):
            pass
        finally:
            c.close()
            with self.cv:
                self.open -= 1
                self.cv.notify_all()

    def _serve(self, c):
        c.settimeout(60)
        if self.proto == 'http':
            line, hs, body = relay.read_http(c)
            target = line.split(b' ')[1].decode('latin1')
        elif self.proto == 'scgi':
            env, body = stubs.read_scgi(c)
            target = dict(env).get('REQUEST_URI', '')
        else:
            env, body = relay.read_fcgi(c)
            target = dict(env).get(b'REQUEST_URI', b'').decode('latin1')
        tag, r, n = target.split('/')[2:5]
        if tag != self.tag:
            return      # a repeated scenario: left over from the one before
        r = int(r)
        self.log(op='arrive', r=r, ok=body == token(r, int(n)))
        h = {'act': None}
        with self.cv:
            self.held[r] = h
        c.settimeout(.01)
        while True:
            with self.cv:
                if h['act'] is None:
                    self.cv.wait(.01)
                act = h['act']
            if act is not None:
                break
            try:
                x = c.recv(1)
            except socket.timeout:
                continue
            except OSError:
                x = b''
            if x:
                self.log(op='extra', r=r)
                return
            with self.cv:
                self.held.pop(r, None)
            self.log(op='closed', r=r)
            return
        c.settimeout(10)
        if act == 'rst':
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        elif act != 'close':
            b = ('answer %d' % r).encode()
            if self.proto == 'http':
                d = b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n' % len(b) + b
            elif self.proto == 'scgi':
                d = b'Status: 200 OK\r\nContent-Type: text/plain\r\n\r\n' + b
            else:
                d = relay.rec(6, b'Status: 200 OK\r\nContent-Type: text/plain\r\n\r\n' + b) + relay.rec(6, b'') + relay.rec(3, b'\0' * 8)
            if act == 'stay':
                # keep our side open: the server has to close (or reuse) it
                c.sendall(d)
                if self.proto == 'scgi':
                    return
                try:
                    c.recv(1)
                except OSError:
                    pass
                return
            c.sendall(d)

    def act(self, r, a):
        with self.cv:
            h = self.held.pop(r)
            self.ev.append({'op': 'break' if a in ('close', 'rst') else 'answer', 'r': r})
            h['act'] = a
            self.cv.notify_all()

    def listen(self, x):
        """up, down, stuck"""
        self.log(op='listen', x=x)
        if x == 'down':
            self.accepting = False
            self.s.close()
            self._unfill()
        elif x == 'stuck':
            self.accepting = False
            time.sleep(.03)
            if self.s.fileno() == -1:
                self._listen(0)
            else:
                self.s.listen(0)
            for _ in range(6):
                f = socket.socket(socket.AF_UNIX if self.path else socket.AF_INET)
                f.settimeout(.15)
                try:
                    f.connect(self.path if self.path else (self.ip, self.port))
                    self.fill.append(f)
                except OSError:
                    f.close()
                    break
        else:
            if self.s.fileno() == -1:
                self._listen(64)
            else:
                self.s.listen(64)
            self._unfill()
            self.accepting = True

    def _unfill(self):
        for f in self.fill:
            f.close()
        self.fill = []

    def stop(self):
        self.stopping = True
        self.s.close()
        self._unfill()
        with self.cv:
            for h in self.held.values():
                h['act'] = 'close'
            self.cv.notify_all()


def token(r, n):
    return (b'%d.' % r * (n // 2 + 1))[:n]


def program(r, stuck):
    ops = []
    for _ in range(r.randint(4, 14)):
        x = r.random()
        if x < .4:
            ops.append(('send', [(r.choice([0, 0, 1, 30, 3000, 200000]), r.random() < .5) for _ in range(r.choice([1, 1, 1, 2, 3, 5]))]))
        elif x < .6:
            ops.append(('act', r.choice(['ok', 'ok', 'stay', 'stay', 'close', 'rst']), r.random()))
        elif x < .72:
            ops.append(('abort', r.random(), r.random() < .5))
        elif x < .8:
            ops.append(('down', r.randint(0, 2)))
        elif x < .9:
            ops.append(('burst', r.randint(2, 8), r.random() < .6))
        elif stuck:
            ops.append(('stuck', r.randint(1, 3), r.choice([.1, .5, 1.5, 5.8, 5.8]), r.random() < .4))
        else:
            ops.append(('pause', r.choice([.01, .05, .2])))
    if stuck and r.random() < .6:
        ops.append(('stuck', r.randint(1, 3), r.choice([.1, .5]), True))
    return ops


def play(addr, back, ops, tag, slow=1):
    back.tag = tag
    with back.cv:
        back.ev, back.held = [], {}
    base = back.open
    cl, free, ctr = {}, [], [0]

    def send(items, wait=True):
        out = []
        for n, reuse in items:
            ctr[0] += 1
            r = ctr[0]
            c = free.pop() if reuse and free else hold.Client(addr)
            cl[r] = c
            back.log(op='send', r=r)
            try:
                c.send('/b%s/%s/%d/%d' % (back.k, tag, r, n), 'Content-Length: %d\r\n' % n if n else '', 'POST' if n else 'GET', token(r, n))
            except OSError:
                pass
            out.append(r)
        if wait:
            settle()
        return out

    def drain():
        for r in sorted(cl):
            c = cl[r]
            x = c.poll()
            if x is not None:
                back.log(op='resp', r=r, st=x.get('status') or 0, own=x.get('body') == b'answer %d' % r)
                del cl[r]
                if not c.st.eof and 'close' not in (x['h'].get('connection') or [''])[0]:
                    free.append(c)
                else:
                    c.st.close()
            elif c.st.eof:
                back.log(op='eof', r=r)
                del cl[r]
                c.st.close()

    def settle(timeout=9):
        """until every open request is held by the backend or answered, and every aborted one is closed"""
        def done():
            drain()
            with back.cv:
                return all(r in back.held for r in cl) and all(r in cl for r in back.held)
        hold.until(done, timeout * slow, .005)
        time.sleep(.02 * slow)
        done()

    def abort(rs):
        for r in rs:
            back.log(op='abort', r=r)
            cl.pop(r).abort()
        settle()

    for op in ops:
        if op[0] == 'send':
            send(op[1])
        elif op[0] == 'burst':
            rs = send([(0, False)] * op[1], False)
            if op[2]:
                drain()
                abort([r for r in rs if r in cl and r % 2])
            settle()
        elif op[0] == 'act':
            with back.cv:
                h = sorted(r for r in back.held if r in cl)
            if h:
                back.act(h[int(op[2] * len(h))], op[1])
                settle()
        elif op[0] == 'abort' and cl:
            k = sorted(cl)
            abort(k if op[2] else [k[int(op[1] * len(k))]])
        elif op[0] == 'pause':
            time.sleep(op[1])
        elif op[0] == 'down':
            back.listen('down')
            send([(0, False)] * op[1])
            back.listen('up')
            settle()
            time.sleep(.15 * slow)
            settle()
            back.log(op='calm')
        elif op[0] == 'stuck':
            back.listen('stuck')
            rs = send([(0, False)] * op[1], False)
            t0 = time.time()
            while time.time() - t0 < op[2]:
                drain()
                time.sleep(.02)
            if op[3]:
                drain()
                abort([r for r in rs if r in cl][:2])
            back.listen('up')
            settle()
            t = 6.2 - (time.time() - t0)
            if t > 0:
                time.sleep(t)
            settle()
            back.log(op='calm')
        settle(2)
        back.log(op='quiet')
    with back.cv:
        h = sorted(r for r in back.held if r in cl)
    for r in h:
        back.act(r, 'ok')
    settle()
    back.log(op='quiet')
    for c in list(cl.values()) + free:
        c.st.close()
    with back.cv:
        ev = list(back.ev)
    hold.until(lambda: back.open <= base, 9 * slow, .02)
    ev.append({'op': 'final', 'open': max(0, back.open - base), 'fds': 0})
    return {'n': ctr[0], 'ev': ev}


def fds(srv):
    return len(os.listdir('/proc/%d/fd' % srv.proc.pid))


def run(c):
    r = c.rng
    c.model(vlib.tlc('PoolMC', 'PoolMC4.cfg' if c.thorough else 'PoolMC.cfg', want_ok=True), 'Pool (safety)')
    c.model(vlib.tlc('PoolMC', 'PoolLive3.cfg' if c.thorough else 'PoolLive.cfg', want_ok=True), 'Pool (liveness)')
    for cfg in ('PoolVac.cfg', 'PoolVac2.cfg'):
        if vlib.tlc('PoolMC', cfg).ok:
            raise vlib.Broken('vacuity: ' + cfg)
    d = vlib.scratch()
    rounds = [(1, 48), (3, 48)] if not c.thorough else [(1, 240), (3, 240), (6, 160)]
    tot = 0
    for workers, n in rounds:
        backs, ops, stm = [], [], []
        for k in range(n):
            proto = r.choice(['http', 'scgi', 'fcgi']) if k >= 6 else ['http', 'scgi', 'fcgi'][k % 3]
            ux = k >= 6 and r.random() < .25
            b = Back(proto, path=os.path.join(d, 'u%d-%d' % (workers, k)) if ux else None, ip='127.0.77.%d' % (k % 250 + 1))
            b.k = k
            b.tag = 'warm'
            backs.append(b)
            ops.append(program(r, r.random() < .35) if k >= 6 else [('stuck', 2, .3, True), ('stuck', 1, 5.8, False)][:k // 3 + 1][::-1])
            stm.append('if req.path =^ "/b%d/" { %s "%s"; }' % (k, {'http': 'proxy', 'scgi': 'scgi', 'fcgi': 'fastcgi'}[proto], b.addr))
        srv = vlib.Server('keepalive.timeout 300;\n' + '\n'.join(stm), ['mod_proxy', 'mod_scgi', 'mod_fastcgi'], workers=workers, name='pool')
        with srv:
            addr = (srv.ip, srv.port)
            vlib.parallel(lambda k: play(addr, backs[k], [('send', [(0, False)])] * 2, 'w'), list(range(n)), 16)
            time.sleep(1)
            base = fds(srv)

            def go(k, tag='a', slow=1):
                return play(addr, backs[k], ops[k], tag, slow)
            tr = vlib.parallel(go, list(range(n)), 48)
            c.cov['traces_validated_against_impl'] += len(tr)
            hold.until(lambda: fds(srv) <= base, 16, .1)
            left = fds(srv) - base
            rej, dd, g = vlib.validate('PoolTrace', 'PoolTrace.cfg', tr)
            c.cov['states'] += dd
            c.cov['transitions'] += g
            tot += sum(t['n'] for t in tr)
            c.sample(tr[0])
            if not srv.alive():
                raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
            bad = sorted(rej)[:10]
            keep = {}
            for j in range(2):
                if not bad:
                    break
                c.log('%d refused, repeating' % len(bad))
                tr2 = vlib.parallel(lambda k: go(k, 'r%d' % j, 3), bad, 4)
                rej2, _, _ = vlib.validate('PoolTrace', 'PoolTrace.cfg', tr2)
                keep = {bad[x]: tr2[x] for x in rej2}
                bad = sorted(keep)
            for k in bad[:5]:
                m = vlib.stuck('PoolTrace', 'PoolTrace.cfg', keep[k])
                e = keep[k]['ev']
                c.violation('pool', '%s: history refused at event %d: %s after %s' % (backs[k].proto, m, e[m - 1] if m <= len(e) else '', e[max(0, m - 12):m - 1]), {'ops': ops[k], 'proto': backs[k].proto, 'history': keep[k]})
            if left > 0 and not bad:
                # once more, to tell a leak from something slow
                base2 = fds(srv)
                vlib.parallel(lambda k: go(k, 'f'), list(range(n)), 48)
                hold.until(lambda: fds(srv) <= base2, 16, .1)
                if fds(srv) > base2:
                    c.violation('descriptors', '%d, then %d descriptors more are open after all requests and connections ended' % (left, fds(srv) - base2), {'ops': ops})
            if not srv.alive():
                raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
        for b in backs:
            b.stop()
    c.note(requests=tot)


vlib.main('C09', run)
