"""Scripted backends and the client side for the Relay specification."""
import socket, struct, time, threading, re
import stubs, http1


# ---- reading requests
def read_http(c):
    """(request line, [(name, value)], body) of one HTTP request"""
    b = b''
    while b'\r\n\r\n' not in b:
        x = c.recv(65536)
        if not x:
            raise EOFError('eof in head')
        b += x
    head, _, rest = b.partition(b'\r\n\r\n')
    lines = head.split(b'\r\n')
    hs = []
    cl = 0
    for l in lines[1:]:
        k, _, v = l.partition(b':')
        hs.append((k, v[1:] if v[:1] == b' ' else v))
        if k.lower() == b'content-length':
            cl = int(v)
    while len(rest) < cl:
        x = c.recv(65536)
        if not x:
            raise EOFError('eof in body')
        rest += x
    return lines[0], hs, rest


def nv(b):
    """FastCGI name-value pairs"""
    out, i = [], 0

    def ln(i):
        if b[i] < 128:
            return b[i], i + 1
        return struct.unpack('>I', b[i:i + 4])[0] & 0x7fffffff, i + 4
    while i < len(b):
        n, i = ln(i)
        m, i = ln(i)
        out.append((b[i:i + n], b[i + n:i + n + m]))
        i += n + m
    return out


def read_fcgi(c):
    """(params, stdin); raises on any protocol violation by the server"""
    params, stdin = b'', b''
    begun = pend = False
    while True:
        h = stubs.recv_exact(c, 8)
        ver, typ, rid, cl, pad, res = struct.unpack('>BBHHBB', h)
        d = stubs.recv_exact(c, cl)
        stubs.recv_exact(c, pad)
        if ver != 1 or rid != 1:
            raise ValueError('bad record header')
        if typ == 1:
            if begun or cl != 8 or d[:2] != b'\0\1':
                raise ValueError('bad begin')
            begun = True
        elif typ == 4:
            if not begun or pend:
                raise ValueError('params')
            if cl == 0:
                pend = True
            params += d
        elif typ == 5:
            if not pend:
                raise ValueError('stdin')
            if cl == 0:
                return nv(params), stdin
            stdin += d
        else:
            raise ValueError('type')


def rec(typ, d, pad=0, rid=1, ver=1):
    return struct.pack('>BBHHBB', ver, typ, rid, len(d), pad, 0) + d + b'\xff' * pad


class Scripted:
    """backends that play a script chosen by the id in the request target /s/<id>"""

    def __init__(self):
        self.scripts = {}
        self.seen = {}
        self.errors = []
        self.proxy = stubs.Stub(self._proxy)
        self.scgi = stubs.Stub(self._scgi)
        self.fcgi = stubs.Stub(self._fcgi)

    def _proxy(self, c):
        try:
            line, hs, body = read_http(c)
        except ValueError as e:
            self.errors.append(('proxy', str(e)))
            return
        self._play(c, line.split(b' ')[1] if b' ' in line else b'', {'line': line, 'hs': hs, 'body': body})

    def _scgi(self, c):
        try:
            env, body = stubs.read_scgi(c)
        except ValueError as e:
            self.errors.append(('scgi', str(e)))
            return
        env = [(k.encode('latin1'), v.encode('latin1')) for k, v in env]
        self._play(c, dict(env).get(b'REQUEST_URI', b''), {'env': env, 'body': body})

    def _fcgi(self, c):
        try:
            env, body = read_fcgi(c)
        except ValueError as e:
            self.errors.append(('fcgi', str(e)))
            return
        self._play(c, dict(env).get(b'REQUEST_URI', b''), {'env': env, 'body': body})

    def _play(self, c, target, seen):
        m = re.match(rb'/\w+/(\d+)', target)
        if not m:
            self.errors.append(('target', target))
            return
        k = int(m.group(1))
        self.seen.setdefault(k, []).append(seen)
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        for op, a in self.scripts[k]:
            if op == 'send':
                c.sendall(a)
            elif op == 'sleep':
                time.sleep(a)
            elif op == 'rst':
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                return
            elif op == 'hold':
                c.settimeout(a)
                try:
                    while c.recv(65536):
                        pass
                except OSError:
                    pass
                return
            elif op == 'echo':          # after an upgrade: send back everything, byte for byte inverted
                c.settimeout(20)
                while True:
                    x = c.recv(65536)
                    if not x:
                        return
                    c.sendall(bytes(y ^ 0x55 for y in x))

    def stop(self):
        for s in (self.proxy, self.scgi, self.fcgi):
            s.stop()


# ---- building scripts
REASON = {200: 'OK', 404: 'Not Found'}


def payload(k, n):
    """n bytes, position dependent so that any shift or loss shows"""
    base = bytes((k * 7 + j * 31 + (j >> 8)) % 251 for j in range(min(n, 65521)))
    return (base * (n // max(1, len(base)) + 1))[:n]


def segments(r, b, sc):
    """cut the producer's bytes into writes"""
    x = r.random()
    if x < .35 or not b:
        return [('send', b)]
    if x < .5 and len(b) < 120:
        out = []
        for i in range(len(b)):
            out.append(('send', b[i:i + 1]))
            if r.random() < .1:
                out.append(('sleep', .001))
        return out
    pts = sorted(set([0, len(b)] + [r.randint(0, len(b)) for _ in range(r.randint(1, 4))]))
    out = []
    for i, j in zip(pts, pts[1:]):
        out += [('send', b[i:j]), ('sleep', r.choice([0, .001, .003, .01]))]
    return out


def head_bytes(r, sc, hs):
    eol = b'\r\n' if sc['proto'] == 'proxy' or r.random() < .6 else b'\n'
    st = sc['status']
    h = b''
    if sc['proto'] == 'proxy':
        for _ in range(r.choice([0, 0, 0, 0, 1, 2])):
            h += b'HTTP/1.1 %d Interim\r\nX-I: 1\r\n\r\n' % r.choice([100, 102, 103])
        ver = b'1.0' if sc['v10ka'] or sc.get('v10') else b'1.1'
        h += b'HTTP/' + ver + b' %03d ' % st + r.choice([b'OK', b'Some Reason', b'']) + eol
        if sc['v10ka']:
            h += b'Connection: keep-alive' + eol
        elif r.random() < .3:
            h += b'Connection: close' + eol
    else:
        x = r.random()
        if x < .3 and 100 <= st <= 999:
            h += b'HTTP/1.%d %d Foo' % (r.choice([0, 1]), st) + eol
        elif st != 200 or x < .7:
            h += b'Status: %d Foo' % st + eol
    lines = [b'%s: %s' % (k, v) for k, v in hs]
    if sc['te']:
        lines.insert(r.randint(0, len(lines)), r.choice([b'Transfer-Encoding: chunked', b'transfer-encoding: Chunked']))
    if sc['cl'] >= 0:
        lines.insert(r.randint(0, len(lines)), b'Content-Length: %d' % sc['cl'])
    for l in lines:
        h += l + eol
    return h + eol


BADHEADS = [b'HTTP/1.1 abc OK\r\n\r\n', b'HTTP/1.1 20 OK\r\n\r\n', b'HTTP/1.1 200 OK\r\nFoo\r\n\r\n', b'HTTP/1.1 200 OK\r\n: x\r\n\r\n', b'HTTP/1.1 200 OK\r\nA: \x01\r\n\r\n', b'garbage\r\n\r\n', b'\x00\x00\r\n\r\n',
            b'HTTP/1.1 200 OK\r\nA b: x\r\n\r\n', b'HTTP/1.1 200 OK\r\nTransfer-Encoding: gzip\r\n\r\n', b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n',
            b'HTTP/1.1 200 OK\r\nUpgrade: foo\r\n\r\n', b'HTTP/1.1 101 Foo\r\nUpgrade: foo\r\n\r\n', b'HTTP/1.1 101 Foo\r\nUpgrade: foo\r\nConnection: Upgrade\r\nTransfer-Encoding: chunked\r\n\r\n']
BADPROXY = [b'HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n', b'HTTP/1.1 200 OK\r\nContent-Length: 5x\r\n\r\nabcde', b'HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999\r\n\r\n']


def chunked(r, pieces, ok):
    b = b''
    for p in pieces:
        b += b'%x\r\n' % len(p) + p + b'\r\n'
    if ok == 'last':
        b += b'0\r\n' + r.choice([b'', b'', b'X-T: 1\r\n']) + b'\r\n'
    elif ok == 'proto':
        b += r.choice([b'g\r\n', b'\r\n', b'-1\r\n', b'ffffffffffffffff\r\n'])
    else:
        b += r.choice([b'', b'', b'5', b'5\r\n', b'0', b'0\r\n', b'0\r\n\r'])
    return b


def script(r, k, sc, hs):
    """script for scenario sc; also returns the payload the pieces carry"""
    total = payload(k, sum(sc['p']))
    ps, o = [], 0
    for n in sc['p']:
        ps.append(total[o:o + n])
        o += n
    end = {'eof': [], 'rst': [('sleep', .02), ('rst', 0)], 'open': [('hold', 12)], 'last': r.choice([[], [('hold', 12)]]) if sc['proto'] == 'proxy' else [], 'proto': r.choice([[], [('hold', 12)]])}
    term = sc['term']
    if sc['head'] == 'bad':
        h = r.choice(BADHEADS + (BADPROXY if sc['proto'] == 'proxy' else []))
    elif sc['head'] == 'none':
        h = head_bytes(r, sc, hs)
        h = h[:r.randint(0, max(0, len(h) - 2))].rstrip(b'\r\n')
        # the cut must not end on a complete head
        if re.search(rb'\n\r?\n', h) or (sc['proto'] != 'proxy' and not h):
            h = b'Sta'
    else:
        h = head_bytes(r, sc, hs)
    if sc['proto'] in ('proxy', 'scgi'):
        if sc['head'] == 'ok' and sc['te']:
            b = [h, chunked(r, ps, 'last' if term == 'last' else 'proto' if term == 'proto' else 'cut')]
        else:
            b = [h] + ps
        if r.random() < .5:
            b = [b''.join(b)]
        out = []
        for x in b:
            out += segments(r, x, sc)
            if r.random() < .3:
                out.append(('sleep', r.choice([.002, .03])))
        return out + end.get(term, []), total
    # fastcgi
    data = h
    if sc['head'] == 'ok':
        data += chunked(r, ps, 'last' if term in ('last', 'lastend') else 'cut') if sc['te'] else total
    recs = b''
    o = 0
    while o < len(data):
        n = min(len(data) - o, r.choice([1, 7, 8, 100, 65535, 65535]) if len(data) < 5000 else 65535)
        recs += rec(6, data[o:o + n], r.choice([0, 0, 1, 7, 255]))
        if r.random() < .1:
            recs += r.choice([rec(7, b'oops\n', 3), rec(99, b'zzz'), rec(10, b''), rec(7, b'x' * 300)])
        o += n
    if term in ('end', 'lastend'):
        x = r.random()
        if x < .4:
            recs += rec(6, b'') + rec(3, b'\0' * 8)
        elif x < .6:
            recs += rec(3, b'\0\0\0\5\0\0\0\0')
        elif x < .8:
            recs += rec(6, b'') + rec(7, b'') + rec(3, b'\0' * 8, 5) + r.choice([b'', rec(6, b'late')])
        else:
            recs += rec(6, b'', 3)
        tail = [] if x >= .8 else r.choice([[], [('hold', 12)]])
    elif term == 'proto':
        recs += r.choice([rec(3, b'\0\0\0\0\1\0\0\0'), rec(3, b'\0' * 7), rec(6, b'x', ver=2), rec(6, b'') + rec(6, b'late'), rec(3, b'\0\0\0\0\2\0\0\0')])
        tail = r.choice([[], [('hold', 12)]])
    else:
        recs += r.choice([b'', b'\1', rec(6, b'') [:7], b'\1\6\0\1\0\5\0\0ab' if term == 'last' and False else b''])
        tail = end.get(term, [])
    return segments(r, recs, sc) + tail, total


# ---- client
def fetch(addr, sc, path, total, extra=b'', nexttarget=b'/next', timeout=8):
    v = b'1.1' if sc['ver'] == 11 else b'1.0'
    h = sc['meth'].encode() + b' ' + path + b' HTTP/' + v + b'\r\nHost: x\r\n' + extra
    if sc['ver'] == 11 and not sc['ka']:
        h += b'Connection: close\r\n'
    if sc['ver'] == 10 and sc['ka']:
        h += b'Connection: keep-alive\r\n'
    h += b'\r\n'
    st = http1.Stream(addr)
    o = {'st': 0, 'fr': '', 'len': 0, 'same': True, 'trunc': False, 'keep': False, 'next': 'none', 'hs': [], 'nfr': 0, 'ndate': 0, 'nserver': 0}
    try:
        st.send(h)
        t0 = time.time()
        while True:
            r, n = http1.parse_response(st.buf, sc['meth'], st.eof)
            if r is not None or st.eof or time.time() - t0 > timeout:
                break
            st.wait(.5)
        if r is None:
            o['next'] = 'closed' if st.eof else 'open'
            return o
        del st.buf[:n]
        o['st'] = r.get('status') or 0
        if r['bad']:
            o['fr'] = 'BAD ' + r['bad']
            return o
        b = r['body']
        conn = [x.strip() for x in r['conn'].split(',')]
        o.update(fr=r['framing'], len=len(b), same=b == total[:len(b)], trunc=bool(r.get('trunc')),
                 keep=('close' not in conn) if r['ver'] == 11 else ('keep-alive' in conn),
                 hs=[['%s: %s' % kv] for kv in r['headers'] if kv[0].startswith('x-') and kv[0] != 'x-i'], nfr=len(r['h'].get('content-length', [])) + len(r['h'].get('transfer-encoding', [])),
                 ndate=len(r['h'].get('date', [])), nserver=len(r['h'].get('server', [])))
        o['hs'] = [x[0] for x in o['hs']]
        if r['framing'] == 'eof':
            o['keep'] = False
        if o['keep'] and not o['trunc']:
            st.send(b'GET ' + nexttarget + b' HTTP/1.1\r\nHost: x\r\n\r\n')
            t0 = time.time()
            while True:
                q, n = http1.parse_response(st.buf, 'GET', st.eof)
                if q is not None or st.eof or time.time() - t0 > timeout:
                    break
                st.wait(.5)
            o['next'] = 'ok' if q and not q['bad'] and q['status'] == 200 and q['body'] == b'next' else ('bad ' + str(q)[:100] if q else 'silent')
        else:
            t0 = time.time()
            while not st.eof and time.time() - t0 < timeout:
                st.wait(.5)
            o['next'] = 'extra bytes' if st.buf else 'closed' if st.eof else 'open'
        return o
    finally:
        st.close()
