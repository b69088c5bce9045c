"""An origin whose responses are sent piece by piece under the control of the test, and a client that decodes what
arrives while it arrives.  Used by the checks of the Deflate and DiskCache specifications."""
import bz2, re, socket, struct, threading, time, zlib
import stubs, http1


class Origin:
    """HTTP backend; the response to a target containing /o<id> is plan[id]:
    {'head': bytes, 'segs': [bytes], 'end': 'fin'|'rst'|'keep', 'step': bool}
    with step, the next segment is sent only after allow(id) (once per segment, the first included)"""

    def __init__(self):
        self.plan = {}
        self.sem = {}
        self.hits = {}
        self.lock = threading.Lock()
        self.stub = stubs.Stub(self._run)
        self.addr = self.stub.addr

    def add(self, k, head, segs, end='fin', step=False):
        self.plan[k] = (head, segs, end, step)
        self.sem[k] = threading.Semaphore(0)

    def allow(self, k):
        self.sem[k].release()

    def _run(self, c):
        c.settimeout(60)
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        b = b''
        while True:
            while b'\r\n\r\n' not in b:
                x = c.recv(65536)
                if not x:
                    return
                b += x
            h, _, b = b.partition(b'\r\n\r\n')
            m = re.search(rb'\r\nX-K: (\d+)', h) or re.search(rb'/o(\d+)', h.split(b'\r\n')[0])
            k = int(m.group(1))
            with self.lock:
                self.hits[k] = self.hits.get(k, 0) + 1
            head, segs, end, step = self.plan[k]
            if h.startswith(b'HEAD'):
                segs = []
            c.sendall(head)
            for s in segs:
                if step:
                    self.sem[k].acquire(timeout=30)
                c.sendall(s)
            if step and end != 'keep':
                self.sem[k].acquire(timeout=30)
            if end == 'rst':
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                return
            if end == 'fin':
                return

    def stop(self):
        self.stub.stop()


def origin_head(framing, n, extra=(), status=200, close=True):
    h = b'HTTP/1.1 %d X\r\n' % status
    for k, v in extra:
        h += (k + ': ' + v + '\r\n').encode('latin1')
    if framing == 'length':
        h += b'Content-Length: %d\r\n' % n
    elif framing == 'chunked':
        h += b'Transfer-Encoding: chunked\r\n'
    return h + (b'Connection: close\r\n' if close else b'') + b'\r\n'


def decoder(enc):
    """(feed(bytes) -> bytes, finished() -> bool, rest() -> bytes after the end)"""
    if enc in ('gzip', 'x-gzip'):
        d = zlib.decompressobj(31)
    elif enc == 'deflate':
        return Raw()
    elif enc in ('bzip2', 'x-bzip2'):
        d = bz2.BZ2Decompressor()
        return Wrap(lambda b: d.decompress(b) if not d.eof else b'', lambda: d.eof, lambda: d.unused_data)
    elif enc == '':
        return Wrap(lambda b: b, lambda: True, lambda: b'')
    else:
        raise ValueError('encoding ' + enc)
    return Wrap(d.decompress, lambda: d.eof, lambda: d.unused_data)


class Wrap:
    def __init__(self, feed, fin, rest):
        self.feed, self.finished, self.rest = feed, fin, rest


class Raw:
    """"deflate": RFC 1951 data, with or without the RFC 1950 wrapper"""

    def __init__(self):
        self.b = b''
        self.d = None

    def feed(self, x):
        if self.d is None:
            self.b += x
            if len(self.b) < 2:
                return b''
            c = self.b[0] * 256 + self.b[1]
            zl = self.b[0] & 15 == 8 and c % 31 == 0
            self.d = zlib.decompressobj(15 if zl else -15)
            x, self.b = self.b, b''
        return self.d.decompress(x)

    def finished(self):
        return self.d is not None and self.d.eof

    def rest(self):
        return self.d.unused_data if self.d else b''


class Reader:
    """reads one response from a Stream, keeping the decoded body as it grows"""

    def __init__(self, st, method='GET'):
        self.st, self.method = st, method
        self.head = None            # list of (name, value)
        self.body = bytearray()     # after transfer decoding
        self.dec = bytearray()      # after content decoding
        self.complete = False
        self.bad = None
        self._need = None

    def h(self, k):
        return [v for n, v in self.head if n == k]

    def _parse(self):
        b = self.st.buf
        while not self.bad and not self.complete:
            if self.head is None:
                i = b.find(b'\r\n\r\n')
                if i < 0:
                    return
                ls = bytes(b[:i]).split(b'\r\n')
                del b[:i + 4]
                m = re.match(rb'^HTTP/1\.[01] (\d{3})', ls[0])
                if not m:
                    self.bad = 'status line %r' % ls[0][:60]
                    return
                self.status = int(m.group(1))
                if 100 <= self.status < 200 and self.status != 101:
                    continue
                self.head = []
                for l in ls[1:]:
                    k, _, v = l.partition(b':')
                    self.head.append((k.decode('latin1').lower(), v.strip().decode('latin1')))
                enc = self.h('content-encoding')
                self.enc = ','.join(enc).lower()
                self.framing = 'none' if self.method == 'HEAD' or self.status in (204, 304) else 'chunked' if self.h('transfer-encoding') else 'length' if self.h('content-length') else 'eof'
                self.cl = int(self.h('content-length')[0]) if self.h('content-length') else -1
                self.d = decoder(self.enc) if not getattr(self, 'plain', False) and self.enc in ('', 'gzip', 'x-gzip', 'deflate', 'bzip2', 'x-bzip2') else decoder('')
                if self.framing == 'none':
                    self.complete = True
                continue
            if self.framing == 'length':
                x = bytes(b[:self.cl - len(self.body)])
                del b[:len(x)]
                self._add(x)
                if len(self.body) == self.cl:
                    self.complete = True
                return
            if self.framing == 'eof':
                x = bytes(b)
                del b[:]
                self._add(x)
                if self.st.eof:
                    self.complete = not self.st.err
                return
            if self._need is None:          # chunked: size line
                i = b.find(b'\r\n')
                if i < 0:
                    return
                l = bytes(b[:i])
                if not re.match(rb'^[0-9a-fA-F]+$', l):
                    self.bad = 'chunk size %r' % l[:40]
                    return
                del b[:i + 2]
                self._need = int(l, 16)
                self._last = self._need == 0
            if self._last:
                if len(b) < 2:
                    return
                if bytes(b[:2]) != b'\r\n':
                    self.bad = 'trailer'
                    return
                del b[:2]
                self.complete = True
                return
            x = bytes(b[:self._need])
            del b[:len(x)]
            self._need -= len(x)
            self._add(x)
            if self._need:
                return
            if len(b) < 2:
                return
            if bytes(b[:2]) != b'\r\n':
                self.bad = 'chunk end'
                return
            del b[:2]
            self._need = None

    def _add(self, x):
        self.body += x
        try:
            self.dec += self.d.feed(x)
        except (zlib.error, OSError, EOFError) as e:
            self.bad = 'decoder: %s' % e

    def run(self, until, timeout):
        """read until until(self), the end of the response, or the timeout"""
        t0 = time.time()
        while True:
            self._parse()
            if self.bad or self.complete or until(self) or self.st.eof:
                return
            left = timeout - (time.time() - t0)
            if left <= 0:
                return
            self.st.wait(min(left, .5))
