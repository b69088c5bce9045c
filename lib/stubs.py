"""Stub backends (SCGI, FastCGI, HTTP): thread-per-connection servers whose behaviour is a Python function."""
import socket, threading, struct, time, os, hashlib


class Stub:
    def __init__(self, handler, unix=None, ip='127.0.0.1', backlog=128, port=0, start=True):
        if unix:
            self.s = socket.socket(socket.AF_UNIX)
            self.s.bind(unix)
            self.addr = 'unix:' + unix
        else:
            self.s = socket.socket()
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.s.bind((ip, port))
            self.port = self.s.getsockname()[1]
            self.addr = '%s:%d' % (ip, self.port)
        self.handler = handler
        self.stopped = False
        if start:
            self.s.listen(backlog)
            threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while not self.stopped:
            try:
                c, a = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self._run, args=(c,), daemon=True).start()

    def _run(self, c):
        try:
            c.settimeout(30)
            self.handler(c)
        except (OSError, EOFError, ValueError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def stop(self):
        self.stopped = True
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        try:
            self.s.close()
        except OSError:
            pass


def recv_exact(c, n):
    b = b''
    while len(b) < n:
        x = c.recv(min(n - len(b), 1 << 20))
        if not x:
            raise EOFError('short read %d/%d' % (len(b), n))
        b += x
    return b


def read_scgi(c):
    """returns (list of (k,v), body bytes)"""
    n = b''
    while True:
        x = c.recv(1)
        if not x:
            raise EOFError('eof in netstring')
        if x == b':':
            break
        n += x
        if len(n) > 8:
            raise ValueError('bad netstring')
    hb = recv_exact(c, int(n))
    if recv_exact(c, 1) != b',':
        raise ValueError('netstring comma')
    parts = hb.split(b'\0')
    env = [(parts[i].decode('latin1'), parts[i + 1].decode('latin1')) for i in range(0, len(parts) - 1, 2)]
    d = dict(env)
    cl = int(d.get('CONTENT_LENGTH') or 0)
    return env, recv_exact(c, cl)


def echo_scgi(c):
    env, body = read_scgi(c)
    d = dict(env)
    out = ('echo %s %d %s' % (d.get('REQUEST_URI', ''), len(body), hashlib.md5(body).hexdigest()[:12])).encode('latin1')
    c.sendall(b'Status: 200 OK\r\nContent-Type: text/plain\r\nX-Echo: 1\r\n\r\n' + out)
    c.close()
