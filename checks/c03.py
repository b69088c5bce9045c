"""C03: malformed, ambiguous and oversized requests are refused and the connection closed; well-formed ones are read as sent."""
import os, sys, json, random, time, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1

CONF = '''
header.add "X-Meth" => "[%{req.method}]";
header.add "X-Host" => "[%{req.host}]";
header.add "X-Xa" => "[%{req.header[x-a]}]";
respond 200 => "ok";
'''
METHOD = ['GET', 'HEAD', 'POST', 'OPTIONS', 'PUT', 'FOO']
URI = ['/', '/a?b', '*', 'http://u.example/x', 'https://u.example:8080/', '/a\xe9', 'a', 'http://a b/', 'http://us@er@h/x', '/x#f#g', 'http://[::1]:80/', 'http://h']
VER = ['HTTP/1.1', 'HTTP/1.0', 'HTTP/1.2', 'HTTP/01.1', 'HTTP/2.0', 'HTTP/1.', 'http/1.1']
HDR = ['Host: h.example', 'Host:', 'Host: h:80', 'Host: a b', 'host: [::1]', 'Host: h:x', 'Content-Length: 0', 'Content-Length: 5', 'Content-Length: +5', 'Content-Length: 5, 5', 'Content-Length: -1',
       'Content-Length: 99999999999999999999', 'Transfer-Encoding: chunked', 'Transfer-Encoding: identity', 'Transfer-Encoding: gzip', 'Transfer-Encoding: gzip, chunked', 'Expect: 100-continue', 'Expect: other',
       'X-A: v', 'X-A: "q\\"', 'X-A : v', 'X-A: a\r\n b', ' X-A: lead', 'X-A: \x01', 'Transfer-Encoding: xchunked', 'Content-Length: 5 5']
TOK = {'method': [[ord(c) for c in x] for x in METHOD], 'uri': [[ord(c) for c in x] for x in URI], 'ver': [[ord(c) for c in x] for x in VER], 'hdr': [[ord(c) for c in x + '\r\n'] for x in HDR]}

GOOD = {
    'method': ['GET', 'GET', 'HEAD', 'POST', 'PUT', 'OPTIONS', 'DELETE', 'BREW', 'get'],
    'uri': ['/', '/a.txt', '/a/b?c=d&e', '/x%20y', '/#f', '/?#', 'http://u.example/x?y', 'https://u.example:8080/', 'http://u:p@Host.Example./p', '*', '/%zz', '/a%', '/<>"{}|\\^`', 'http://[fe80::1]:80/', 'http://1.2.3.4/'],
    'ver': ['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0'],
    'host': ['h.example', 'H.EXAMPLE.', 'h:80', '[::1]', '[::ffff:1.2.3.4]:8080', '[v1.x:y]', '1.2.3.4', 'a_b-c~d', "a!$&'()*+,;=b", 'a%20b', 'h..'],
    'hdr': ['X-A: v', 'x-a: two', 'X-A:nospace', 'X-A:  \t sp \t', 'X-A: "quo\\"ted"', 'X-B: fold\r\n ed', 'X-B:\r\n\t x', 'X-A: \xe9', 'X-B: "a\r\n b"', 'Connection: close', 'Connection: keep-alive', 'Accept: */*', 'X-B: a"b c"d', 'X-B: \\',
            'Content-Length: 0', 'Content-Length: 3', 'Content-Length: 000', 'Transfer-Encoding: chunked', 'Transfer-Encoding: IDENTITY', 'Expect: 100-Continue', 'X-B:', 'X-B: a\tb'],
}
BITS = ['\r', '\n', '\r\n', ' ', '\t', ':', '"', '\\', '\0', '\x7f', '\xff', '\x01', 'Host: z\r\n', 'Content-Length: 1\r\n', 'Transfer-Encoding: chunked\r\n', '/', '?', '#', '@', '[', ']', '%', 'HTTP/1.1', '1', '.', 'a', '\r\n\r\n', ';', ',', '*', '+', '-', 'A', '\x0b', '\x80']


def random_head(rng):
    hs = []
    if rng.random() < .9:
        hs.append('Host: ' + rng.choice(GOOD['host']))
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        hs.append(rng.choice(GOOD['hdr']))
    rng.shuffle(hs)
    nl = '\n' if rng.random() < .08 else '\r\n'
    m = rng.choice(GOOD['method'])
    s = ('' if rng.random() < .9 else rng.choice(['\r\n', '\n', '\r\n\r\n', '\n\r\n'])) + m + ' ' + rng.choice(GOOD['uri']) + ' ' + rng.choice(GOOD['ver']) + nl + ''.join(h + nl for h in hs) + nl
    return s


def mutate(rng, s):
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        p = rng.randrange(len(s) + 1)
        if rng.random() < .35:   # near line structure
            idx = [i for i, c in enumerate(s) if c in '\r\n: "\t']
            p = rng.choice(idx) + rng.choice([0, 0, 1])
        k = rng.random()
        if k < .4:
            s = s[:p] + rng.choice(BITS) + s[p:]
        elif k < .7:
            s = s[:p] + s[p + 1:]
        elif k < .9:
            s = s[:p] + rng.choice(BITS) + s[p + 1:]
        else:
            q = rng.randrange(len(s) + 1)
            a, b = min(p, q), max(p, q)
            s = s[:a] + s[a:b] * 2 + s[b:]
    return s


def observe(addr, data, splits, patience):
    """send data (in pieces), record the first final response and what happens after"""
    st = http1.Stream(addr)
    out = {'st': 0, 'closed': False, 'more': False, 'meth': [], 'host': [], 'xa': [], 'bad': ''}
    try:
        pos = 0
        for x in list(splits) + [len(data)]:
            if st.werr or st.eof:
                break
            st.send(data[pos:x], timeout=patience + 1)
            pos = x
        method = 'HEAD' if re.match(rb'^(\r?\n)*HEAD ', data) else 'GET'
        t0 = time.time()
        first = None
        while True:
            r, n = http1.parse_response(st.buf, method if first is None else 'GET', st.eof)
            if r is not None:
                del st.buf[:n]
                if r['bad']:
                    if first is None:
                        out['bad'] = r['bad']
                        break
                    if n or st.buf:
                        out['more'] = True
                elif 100 <= r['status'] < 200:
                    continue
                elif first is None:
                    first = r
                    out['st'] = r['status']
                    for k, h in (('meth', 'x-meth'), ('host', 'x-host'), ('xa', 'x-xa')):
                        v = (r['h'].get(h) or ['[]'])[0]
                        out[k] = [ord(c) for c in v[1:-1]]
                    if r['status'] == 200:
                        break
                    continue
                else:
                    out['more'] = True
            if st.eof:
                break
            left = patience - (time.time() - t0)
            if left <= 0:
                break
            st.wait(left)
        out['closed'] = st.eof
    finally:
        st.close()
    return out


def run(c):
    rng = c.rng
    tok = os.path.join(vlib.scratch(), 'tok.ndjson')
    small = {'method': TOK['method'][:4], 'uri': TOK['uri'][:8], 'ver': TOK['ver'][:4], 'hdr': TOK['hdr']}
    vlib.write_ndjson(tok, [small])
    c.model(vlib.tlc('HttpHeadMC', 'HttpHeadMC3.cfg' if c.thorough else 'HttpHeadMC.cfg', env={'TOKENS': tok}, want_ok=True), 'HttpHeadMC: all heads from the token pool')
    if vlib.tlc('HttpHeadMC', 'HttpHeadVac.cfg', env={'TOKENS': tok}).ok:
        raise vlib.Broken('HttpHead accepts nothing')
    full = TOK
    vlib.write_ndjson(tok, [full])
    g = vlib.tlc('HttpHeadMC', 'HttpHeadGen.cfg', env={'TOKENS': tok}, extra=['-simulate', 'num=%d' % (60000 if c.thorough else 9000), '-seed', str(c.seed), '-depth', '4'], workers=1)
    seen, heads = set(), []
    for s in vlib.printed(g.out, 'SCN'):
        p = s['p']
        k = (p['m'], p['u'], p['v'], tuple(p['h']))
        if k in seen:
            continue
        seen.add(k)
        b = METHOD[p['m'] - 1] + ' ' + URI[p['u'] - 1] + ' ' + VER[p['v'] - 1] + '\r\n' + ''.join(HDR[x - 1] + '\r\n' for x in p['h']) + '\r\n'
        heads.append((len(s['s']), b))
    # few accepted heads and single-reason refusals are the interesting ones: keep them first
    heads.sort(key=lambda x: x[0])
    ncomb = 20000 if c.thorough else 2500
    c.log('model checked, heads generated')
    jobs = []
    for _, b in heads[:ncomb]:
        jobs.append((b, []))
    nmut = 30000 if c.thorough else 4500
    for _ in range(nmut):
        b = mutate(rng, random_head(rng))
        jobs.append((b, []))
    # limits: long uris, long heads; [index, count] expands one 'a'
    for n in [8000, 8190, 8191, 8192, 8193, 8194, 9000, 20000]:
        b = 'GET /a HTTP/1.1\r\nHost: h\r\n\r\n'
        jobs.append((b, [(b.index('/a') + 2, n - 1)]))
    base = len('GET /a HTTP/1.1\r\nHost: h\r\nX-B: a\r\n\r\n') - 1
    for n in [60000, 65534, 65535, 65536, 65537, 65538, 70000, 200000, 262144, 300000, 600000, 2000000]:
        b = 'GET /a HTTP/1.1\r\nHost: h\r\nX-B: a\r\n\r\n'
        jobs.append((b, [(b.index('X-B: a') + 6, n - base)]))
        if n > 65600:
            jobs.append((b[:-4], [(b.index('X-B: a') + 6, n - base)]))      # never completed
            jobs.append((b[:-2] + 'a', [(b.index('X-B: a') + 6, n - base)]))
            jobs.append(('a', [(1, n)]))
            jobs.append(('GET /a', [(6, n)]))
    for n in [300, 5000, 66000]:
        b = 'GET /a HTTP/1.1\r\nHost: h\r\nX-A: ' + 'a\r\n\r\n'
        jobs.append((b, [(len(b) - 4, n)]))
    full = []
    for b, w in jobs:
        raw = b.encode('latin1')
        for i, n in w:
            raw = raw[:i - 1] + raw[i - 1:i] * n + raw[i:]
        sp = sorted(set(rng.randint(1, len(raw)) for _ in range(rng.choice([0, 0, 1, 2])))) if len(raw) > 1 else []
        full.append((raw, sp, {'b': [ord(x) for x in b], 'w': [{'i': i, 'n': n} for i, n in w]}))
    with vlib.Server(CONF) as srv:
        addr = (srv.ip, srv.port)

        def play(js, patience, n):
            obs = vlib.parallel(lambda j: observe(addr, j[0], j[1], patience), js, n)
            return [dict(j[2], **o) for j, o in zip(js, obs)]
        tr = play(full, .5, 24)
        c.log('%d heads played' % len(tr))
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
        rej, d, gg = vlib.validate('HttpHeadTrace', 'HttpHeadTrace.cfg', tr)
        c.cov['states'] += d
        c.cov['transitions'] += gg
        c.cov['traces_validated_against_impl'] += len(tr)
        for k in ('st',):
            h = {}
            for t in tr:
                h[t[k]] = h.get(t[k], 0) + 1
            c.note(statuses=h)
        c.sample({'head': full[0][0][:200].decode('latin1'), 'observed': tr[0]['st']})
        c.sample({'head': full[-40][0][:200].decode('latin1'), 'observed': tr[-40]['st']})
        if rej:
            idx = sorted(rej)[:60]
            c.log('%d rejected, repeating' % len(rej))
            tr2 = play([full[i] for i in idx], 3.0, 8)
            rej2, _, _ = vlib.validate('HttpHeadTrace', 'HttpHeadTrace.cfg', tr2)
            for x in sorted(rej2):
                o = dict(tr2[x])
                o.pop('b')
                c.violation('head', 'the server answers %s (closed=%s) to a head the specification judges differently' % (o['st'], o['closed']), {'head': full[idx[x]][0][:3000].decode('latin1'), 'len': len(full[idx[x]][0]), 'observed': o})
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])


vlib.main('C03', run)
