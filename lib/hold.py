"""A backend (HTTP) that holds every request until told what to do with it; and clients for it."""
import socket, threading, time, struct, re
import stubs, http1, relay


class Hold:
    def __init__(self, port=0, start=True, ip='127.0.0.1', proto='http', unix=None):
        self.cv = threading.Condition()
        self.reqs = {}          # id -> {'c': conn, 'gone': bool}
        self.order = []
        self.proto = proto
        self.open = 0
        self.maxopen = 0
        self.total = 0
        self.stub = stubs.Stub(self._run, ip=ip, port=port, start=start, unix=unix)
        self.addr = self.stub.addr

    def _run(self, c):
        with self.cv:
            self.open += 1
            self.total += 1
            self.maxopen = max(self.maxopen, self.open)
            self.cv.notify_all()
        try:
            self._serve(c)
        finally:
            with self.cv:
                self.open -= 1
                self.cv.notify_all()

    def _serve(self, c):
        while True:
            if self.proto == 'http':
                line, hs, body = relay.read_http(c)
                target = line.split(b' ')[1]
            elif self.proto == 'scgi':
                env, body = stubs.read_scgi(c)
                target = dict(env).get('REQUEST_URI', '').encode()
            else:
                env, body = relay.read_fcgi(c)
                target = dict(env).get(b'REQUEST_URI', b'')
            k = target.decode('latin1').rsplit('/', 1)[1]
            ev = {'c': c, 'gone': False, 'act': None, 'body': body, 'hs': hs if self.proto == 'http' else env}
            with self.cv:
                self.reqs.setdefault(k, []).append(ev)
                self.order.append(k)
                self.cv.notify_all()
            c.settimeout(.02)
            while True:
                with self.cv:
                    if ev['act'] is None:
                        self.cv.wait(.02)
                    act = ev['act']
                if act is not None:
                    break
                try:
                    x = c.recv(1, socket.MSG_PEEK)
                    if not x:
                        raise OSError('gone')
                except socket.timeout:
                    continue
                except OSError:
                    with self.cv:
                        ev['gone'] = True
                        self.cv.notify_all()
                    return
            c.settimeout(30)
            if act == 'close':
                return
            if act == 'rst':
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                return
            c.sendall(act)
            if self.proto != 'fcgi':
                return
            # the connection may be used again
            x = c.recv(1, socket.MSG_PEEK)
            if not x:
                return

    def arrived(self, k, n=1):
        with self.cv:
            return len(self.reqs.get(k, [])) >= n

    def act(self, k, a):
        with self.cv:
            for ev in self.reqs.get(k, []):
                if ev['act'] is None:
                    ev['act'] = a
            self.cv.notify_all()

    def gone(self, k):
        with self.cv:
            return all(ev['gone'] for ev in self.reqs.get(k, []))

    def stop(self):
        with self.cv:
            for l in self.reqs.values():
                for ev in l:
                    if ev['act'] is None:
                        ev['act'] = 'close'
            self.cv.notify_all()
        self.stub.stop()


def until(f, timeout=5, step=.002):
    t0 = time.time()
    while time.time() - t0 < timeout:
        x = f()
        if x:
            return x
        time.sleep(step)
    return f()


class Client:
    """a connection with at most one request under way"""

    def __init__(self, addr, src=None):
        self.st = http1.Stream(addr, src=src)
        self.resp = None

    def send(self, path, headers='', method='GET', body=b''):
        self.resp = None
        self.st.send(('%s %s HTTP/1.1\r\nHost: x\r\n%s\r\n' % (method, path, headers)).encode('latin1') + body)

    def poll(self):
        if self.resp is None:
            self.st.drain()
            r, n = http1.parse_response(self.st.buf, 'GET', self.st.eof)
            if r is not None:
                del self.st.buf[:n]
                self.resp = r
        return self.resp

    def abort(self):
        try:
            self.st.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        except OSError:
            pass
        self.st.close()
