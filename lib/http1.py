"""Raw HTTP/1.x client side: send byte segments, parse the server's byte stream strictly into response events."""
import socket, time, select, hashlib, re, ssl, os


def ready(s, rd, wr, timeout):
    """poll() instead of select(): descriptors may be above 1024"""
    p = select.poll()
    p.register(s, (select.POLLIN if rd else 0) | (select.POLLOUT if wr else 0))
    ev = dict(p.poll(max(0, timeout) * 1000)).get(s.fileno(), 0)
    bad = ev & (select.POLLERR | select.POLLHUP | select.POLLNVAL)
    return rd and bool(ev & select.POLLIN or bad), wr and bool(ev & select.POLLOUT or bad)


class Stream:
    """one client connection; every received byte is kept"""

    def __init__(self, addr, src=None, rcvbuf=None, timeout=10, family=None):
        self.s = socket.socket(family if family else (socket.AF_UNIX if isinstance(addr, str) else socket.AF_INET6 if ':' in addr[0] else socket.AF_INET), socket.SOCK_STREAM)
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(timeout)
        if src:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.s.bind((src, 0))
        self.s.connect(addr)
        if not isinstance(addr, str):
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.setblocking(False)
        self.buf = bytearray()
        self.eof = False
        self.err = None
        self.total = 0
        self.werr = None

    def send(self, data, timeout=10):
        """send everything (reading meanwhile); False if the peer is gone"""
        data = memoryview(data)
        t0 = time.time()
        while len(data):
            if self.werr or self.err:
                return False
            r, w = ready(self.s, not self.eof, True, 0.5)
            if r:
                self._read()
            if w:
                try:
                    n = self.s.send(data)
                    data = data[n:]
                except BlockingIOError:
                    pass
                except OSError as e:
                    self.werr = e.errno
                    return False
            if time.time() - t0 > timeout:
                self.werr = 'timeout'
                return False
        return True

    def _read(self, n=262144):
        try:
            b = self.s.recv(n)
        except BlockingIOError:
            return
        except OSError as e:
            self.err = e.errno
            self.eof = True
            return
        if not b:
            self.eof = True
        else:
            self.buf += b
            self.total += len(b)

    def wait(self, timeout):
        """wait for more bytes or EOF; True if anything happened"""
        if self.eof:
            return False
        r, _ = ready(self.s, True, False, timeout)
        if r:
            self._read()
            return True
        return False

    def drain(self):
        while not self.eof:
            r, _ = ready(self.s, True, False, 0)
            if not r:
                break
            self._read()

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


class TlsStream(Stream):
    """the same over TLS; buf and total are plain text"""

    def __init__(self, addr, src=None, rcvbuf=None, timeout=10, family=None, sni='a.test', ctx=None, session=None, pace=None):
        super().__init__(addr, src, rcvbuf, timeout, family)
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        if ctx is None:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
        self.o = ctx.wrap_bio(self.inb, self.outb, server_hostname=sni)
        if session:
            self.o.session = session
        self.pace = pace
        self.up, self.clean = False, False
        t0 = time.time()
        while not self.up and not self.eof and time.time() - t0 < timeout:
            try:
                self.o.do_handshake()
                self.up = True
            except ssl.SSLWantReadError:
                pass
            except ssl.SSLError as e:
                self.err = str(e)
                self.eof = True
            self._flush(timeout)
            if not self.up:
                self.wait(.5)

    def _flush(self, timeout):
        b = self.outb.read()
        if not self.pace:
            return Stream.send(self, b, timeout)
        i = 0
        while i < len(b):       # pace(rest) -> (bytes of the next segment, seconds before the following one)
            n, t = self.pace(len(b) - i)
            if not Stream.send(self, b[i:i + n], timeout):
                return False
            i += n
            if t:
                time.sleep(t)
        return True

    def send(self, data, timeout=10, record=None):
        data = bytes(data)
        i = 0
        while i < len(data):
            n = record() if record else 65536
            self.o.write(data[i:i + n])
            i += n
        return self._flush(timeout)

    def _read(self, n=262144):
        try:
            b = self.s.recv(n)
        except BlockingIOError:
            return
        except OSError as e:
            self.err = e.errno
            self.eof = True
            return
        if not b:
            self.eof = True
            self.inb.write_eof()
        else:
            self.inb.write(b)
        while self.up:
            try:
                x = self.o.read(262144)
            except ssl.SSLWantReadError:
                break
            except ssl.SSLEOFError:
                break
            except ssl.SSLZeroReturnError:
                x = b''
            except ssl.SSLError as e:
                self.err = str(e)
                self.eof = True
                break
            if not x:
                self.eof = self.clean = True
                break
            self.buf += x
            self.total += len(x)


def tlsports(mods, setup, free_port, mod_dir):
    """TLS listeners besides the plain one: ({name: port}, modules, setup)"""
    ports = {}
    pem = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tls.pem')
    for m in ('openssl', 'gnutls'):
        if os.path.exists(os.path.join(mod_dir, 'libmod_%s.so' % m)):
            ports[m] = free_port()
            mods = list(mods) + ['mod_' + m]
            setup += '\n%s ( "listen" => "127.0.0.1:%d", "pemfile" => "%s" );\n' % (m, ports[m], pem)
    return ports, mods, setup


STATUS = re.compile(rb'^HTTP/(\d)\.(\d) (\d{3})(?: ([^\r\n]*))?$')


class Resp(dict):
    __getattr__ = dict.get


def parse_response(buf, method, eof, want_body=True):
    """Try to parse one response from the start of buf.
    returns (Resp, consumed) or (None, 0) when more bytes are needed, or (Resp with bad=reason, consumed=all)"""
    i = buf.find(b'\r\n\r\n')
    if i < 0:
        if eof and len(buf):
            return Resp(bad='truncated head', raw=bytes(buf[:200])), len(buf)
        if len(buf) > 0 and not bytes(buf[:5]) == b'HTTP/'[:len(buf[:5])]:
            return Resp(bad='garbage instead of a status line', raw=bytes(buf[:200])), len(buf)
        return None, 0
    head = bytes(buf[:i]).split(b'\r\n')
    m = STATUS.match(head[0])
    if not m:
        return Resp(bad='bad status line', raw=head[0][:200]), len(buf)
    r = Resp(ver=int(m.group(1)) * 10 + int(m.group(2)), status=int(m.group(3)), headers=[], bad=None)
    for l in head[1:]:
        k, c, v = l.partition(b':')
        if not c or not k or k.strip() != k or b'\n' in l or b'\r' in l:
            return Resp(bad='bad header line', raw=l[:200], status=r['status']), len(buf)
        r['headers'].append((k.decode('latin1').lower(), v.strip().decode('latin1')))
    h = {}
    for k, v in r['headers']:
        h.setdefault(k, []).append(v)
    r['h'] = h
    pos = i + 4
    cls = h.get('content-length', [])
    te = ','.join(h.get('transfer-encoding', [])).lower()
    r['te'] = te
    r['ncl'] = len(cls)
    r['cl'] = -1
    if cls:
        if len(set(cls)) > 1 or not re.match(r'^\d+$', cls[0]):
            return Resp(bad='bad content-length %r' % cls, status=r['status']), len(buf)
        r['cl'] = int(cls[0])
    r['conn'] = ','.join(h.get('connection', [])).lower()
    st = r['status']
    r['framing'] = 'none'
    if method == 'HEAD' or 100 <= st < 200 or st in (204, 304):
        r['body'] = b''
        r['blen'] = 0
        return r, pos
    if te:
        if te != 'chunked':
            return Resp(bad='unknown transfer-encoding ' + te, status=st), len(buf)
        r['framing'] = 'chunked'
        body = bytearray()
        p = pos
        while True:
            j = buf.find(b'\r\n', p)
            if j < 0:
                if eof:
                    r['trunc'] = True
                    r['body'] = bytes(body)
                    r['blen'] = len(body)
                    return r, len(buf)
                return None, 0
            line = bytes(buf[p:j])
            if not re.match(rb'^[0-9a-fA-F]+(;.*)?$', line):
                return Resp(bad='bad chunk size line %r' % line[:40], status=st), len(buf)
            n = int(line.split(b';')[0], 16)
            p = j + 2
            if n == 0:
                # trailers until empty line
                while True:
                    j = buf.find(b'\r\n', p)
                    if j < 0:
                        if eof:
                            r['trunc'] = True
                            r['body'] = bytes(body)
                            r['blen'] = len(body)
                            return r, len(buf)
                        return None, 0
                    if j == p:
                        r['body'] = bytes(body)
                        r['blen'] = len(body)
                        return r, j + 2
                    p = j + 2
            if len(buf) < p + n + 2:
                if eof:
                    r['trunc'] = True
                    body += buf[p:p + n]
                    r['body'] = bytes(body)
                    r['blen'] = len(body)
                    return r, len(buf)
                return None, 0
            body += buf[p:p + n]
            if bytes(buf[p + n:p + n + 2]) != b'\r\n':
                return Resp(bad='chunk not terminated by CRLF', status=st), len(buf)
            p += n + 2
    if r['cl'] >= 0:
        r['framing'] = 'length'
        if len(buf) - pos < r['cl']:
            if eof:
                r['trunc'] = True
                r['body'] = bytes(buf[pos:])
                r['blen'] = len(buf) - pos
                return r, len(buf)
            return None, 0
        r['body'] = bytes(buf[pos:pos + r['cl']])
        r['blen'] = r['cl']
        return r, pos + r['cl']
    # until EOF
    r['framing'] = 'eof'
    if not eof:
        return None, 0
    r['body'] = bytes(buf[pos:])
    r['blen'] = len(buf) - pos
    return r, len(buf)


def simple(addr, data, methods=('GET',), timeout=5, src=None):
    """send data, read len(methods) responses (or EOF); returns list of Resp"""
    st = Stream(addr, src=src)
    out = []
    try:
        st.send(data)
        t0 = time.time()
        while len(out) < len(methods):
            r, n = parse_response(st.buf, methods[len(out)], st.eof)
            if r is not None:
                del st.buf[:n]
                if r.get('status') and 100 <= r['status'] < 200 and not r['bad'] and r['status'] != 101:
                    continue
                out.append(r)
                if r['bad']:
                    break
                continue
            if st.eof:
                break
            left = timeout - (time.time() - t0)
            if left <= 0:
                break
            st.wait(left)
    finally:
        st.close()
    return out


def get(addr, path, headers=(), method='GET', ver='1.1', timeout=5, src=None, body=None, host='x'):
    if isinstance(path, str):
        path = path.encode('latin1')
    d = method.encode() + b' ' + path + b' HTTP/' + ver.encode() + b'\r\n'
    if host is not None:
        d += b'Host: ' + (host.encode('latin1') if isinstance(host, str) else host) + b'\r\n'
    for k, v in headers:
        d += (k + ': ' + v + '\r\n').encode('latin1')
    if body is not None:
        d += b'Content-Length: %d\r\n' % len(body)
    d += b'\r\n' + (body or b'')
    r = simple(addr, d, (method,), timeout, src)
    return r[0] if r else None


def md5(b):
    return hashlib.md5(b).hexdigest()[:12]


class Player:
    """pipelines requests on few connections; after `budget` requests without an answer the rest are not tried any more (None)"""

    def __init__(self, addr, raw, method=lambda j: 'GET', timeout=15, budget=4, src=None):
        self.addr, self.raw, self.method, self.timeout, self.left, self.src = addr, raw, method, timeout, budget, src

    def __call__(self, jobs):
        out = []
        left = list(jobs)
        while left:
            if self.left <= 0:
                return out + [None] * len(left)
            t0 = time.time()
            got = simple(self.addr, b''.join(self.raw(j) for j in left), [self.method(j) for j in left], self.timeout, src=self.src(left[0]) if self.src else None)
            if len(got) < len(left) and time.time() - t0 >= self.timeout - .5:
                self.left -= 1
            if not got:
                out.append(None)
                left = left[1:]
            else:
                out += got
                left = left[len(got):]
        return out
