#!/usr/bin/env python3
"""C07: chunked transfer coding is decoded and encoded exactly (spec/Chunked.tla); the real filter and the real worker are driven"""
import itertools, sys, os, json, subprocess, re, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, stubs, http1


def run_scripts(binary, scripts):
    n = 8
    out = [None] * len(scripts)

    def one(k):
        idx = list(range(k, len(scripts), n))
        if not idx:
            return
        d = os.path.join(vlib.scratch(), 'ch-%d-%d' % (k, len(scripts)))
        os.makedirs(d, exist_ok=True)
        r = subprocess.run([binary, d], input=('\n'.join(scripts[i] for i in idx) + '\n').encode(), stdout=subprocess.PIPE, timeout=700)
        lines = r.stdout.decode('utf8', 'replace').split('\n')
        for j, i in enumerate(idx):
            l = lines[j] if j < len(lines) else ''
            try:
                out[i] = json.loads(l)
            except ValueError:
                out[i] = ('crash', l[-400:])
    vlib.parallel(one, range(n))
    return out


def cut(r, b, maxparts=None):
    """random segmentation"""
    x = r.random()
    if x < .2:
        return [b]
    if x < .4:
        return [b[i:i + 1] for i in range(len(b))] or [b'']
    pts = sorted(r.randint(0, len(b)) for _ in range(r.randint(1, maxparts or 6)))
    pts = [0] + pts + [len(b)]
    return [b[i:j] for i, j in zip(pts, pts[1:])]


def size(r, n):
    s = '%x' % n
    if r.random() < .3:
        s = s.upper()
    return ('0' * r.choice([0, 0, 0, 1, 3, 20]) + s).encode()


def body(r, big=40):
    b = b''
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        n = r.choice([1, 2, 9, 10, 15, 16, 17, r.randint(1, big)])
        b += size(r, n) + b'\r\n' + bytes(r.choice(b'abcdef0123\r\n x') for _ in range(n)) + b'\r\n'
    b += size(r, 0) + b'\r\n'
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        b += r.choice([b'X-T: 1', b'a', b': \t', b'0', b'Foo: bar; baz']) + b'\r\n'
    return b + b'\r\n'


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(b))
        x = r.random()
        if x < .3:
            del b[i]
            if not b:
                b = bytearray(b'0')
        elif x < .6:
            b.insert(i, r.choice(b'0a;\r\n x-+gG'))
        else:
            b[i] = r.choice(b'0fA;\r\n x-+gG\x00\xff')
    return bytes(b)


EDGE = [b'7fffffffffffffff\r\nabc', b'8000000000000000\r\nabc', b'ffffffffffffffff\r\nabc', b'10000000000000000\r\nabc', b'10000000000000003\r\nabc\r\n0\r\n\r\n', b'fffffffffffffffff\r\n',
        b'0000000000000000000000000003\r\nabc\r\n0\r\n\r\n', b'3;ext=1\r\nabc\r\n0\r\n\r\n', b'3 \r\nabc\r\n0\r\n\r\n', b' 3\r\nabc\r\n0\r\n\r\n', b'-3\r\nabc\r\n0\r\n\r\n', b'+3\r\nabc\r\n0\r\n\r\n', b'0x3\r\nabc\r\n0\r\n\r\n',
        b'\r\n', b'\n', b'3\nabc\r\n0\r\n\r\n', b'3\r\nabcd\r\n0\r\n\r\n', b'3\r\nab\r\n0\r\n\r\n', b'3\r\nabc\n0\r\n\r\n', b'3\r\nabc\r\n\r\n', b'g\r\n', b'100000003\r\nabc\r\n0\r\n\r\n', b'fffffffffffffffd\r\nabc\r\n0\r\n\r\n']


def echo(c):
    env, b = stubs.read_scgi(c)
    c.sendall(b'Status: 200\r\nX-B: ' + b.hex().encode() + b'\r\nContent-Type: text/plain\r\n\r\nok')


def request(addr, segs, complete):
    """send one chunked POST and a GET behind it; observe"""
    head = b'POST /a HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n'
    nxt = b'GET /next HTTP/1.1\r\nHost: x\r\n\r\n' if complete else b''
    st = http1.Stream(addr)
    res = []
    try:
        segs = [head + segs[0]] + segs[1:]
        segs[-1] = segs[-1] + nxt
        for i, s in enumerate(segs):
            if not st.send(s):
                break
            if i + 1 < len(segs):
                time.sleep(.0005)
        t0 = time.time()
        lim = 6 if complete else .25
        while len(res) < 2:
            r, n = http1.parse_response(st.buf, 'GET', st.eof)
            if r is not None:
                del st.buf[:n]
                res.append(r)
                if r['bad']:
                    break
                continue
            if st.eof or time.time() - t0 > lim:
                break
            st.wait(.05)
    finally:
        st.close()
    first = res[0] if res else None
    return {'op': 'req', 'st': (first.get('status') or 999) if first else 0,
            'out': list(bytes.fromhex(first['h'].get('x-b', [''])[0])) if first and first.get('h') else [],
            'next': 1 if len(res) > 1 and res[1].get('status') == 200 and res[1]['h'].get('x-b') == [''] else 0}


def main(c):
    r = c.rng
    c.model(vlib.tlc('ChunkedMC', 'ChunkedMC12.cfg' if c.thorough else 'ChunkedMC10.cfg', want_ok=True, timeout=3000, xmx='16g'), 'decoder automaton = declarative definition of a body')
    c.model(vlib.tlc('ChunkedMC', 'ChunkedEnc.cfg', want_ok=True), 'encoder then decoder is the identity')
    if vlib.tlc('ChunkedMC', 'ChunkedVac.cfg').ok:
        raise vlib.Broken('vacuity: no body is ever complete')
    g = vlib.tlc('ChunkedMC', 'ChunkedMC7.cfg', want_ok=True)
    scn = [bytes(x) for x in vlib.printed(g.out, 'SCN')]
    c.model(g, 'all strings up to 7 bytes')
    h = vlib.compile_harness('chunked')
    scripts = []

    def dec(b, eof):
        segs = cut(r, b)
        scripts.append(';'.join('d%s %s %d' % (r.choice('mmft'), s.hex(), 1 if eof and i == len(segs) - 1 else 0) for i, s in enumerate(segs)))
    for b in scn:
        dec(b, r.random() < .1)
    for n in range(1, 7):
        for x in itertools.product(b'a\r\n', repeat=n):
            dec(b'0\r\na' + bytes(x), r.random() < .1)
    for b in EDGE:
        for _ in range(6):
            dec(b, r.random() < .5)
    for _ in range(60000 if c.thorough else 5000):
        b = body(r)
        x = r.random()
        if x < .35:
            b += r.choice([b'', b'GET / HTTP/1.1\r\n', b'\r\n', b'0\r\n\r\n', b'x'])
        elif x < .8:
            b = mutate(r, b)
        else:
            b = b[:r.randint(0, len(b))]
        dec(b, r.random() < .3)
    for _ in range(10000 if c.thorough else 1500):
        ps = [bytes(r.choice(b'ab0\r\n') for _ in range(r.choice([0, 1, 2, 9, 10, 15, 16, 17, 31, 255, 256, 300]))) for _ in range(r.randint(1, 5))]
        eof = r.random() < .7
        scripts.append(';'.join('e%s %s %d' % (r.choice('mmft'), s.hex(), 1 if eof and i == len(ps) - 1 else 0) for i, s in enumerate(ps)))
    for n in [1, 9, 10, 15, 16, 17, 255, 256, 4095, 4096, 65535, 65536, 0xfffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000005, 0x123456789, 0xfffffffff]:
        scripts.append('lf %d' % n)
    c.log('%d scripts' % len(scripts))
    traces = run_scripts(h, scripts)
    for i, t in enumerate(traces):
        if not isinstance(t, list):
            c.violation('crash', 'the filter crashed on %s' % scripts[i], {'script': scripts[i], 'out': t})
    good = [i for i, t in enumerate(traces) if isinstance(t, list)]
    rej, ds, gn = vlib.validate('ChunkedTrace', 'ChunkedTrace.cfg', [traces[i] for i in good], batch=8000)
    for k in sorted(rej)[:10]:
        i = good[k]
        n = vlib.stuck('ChunkedTrace', 'ChunkedTrace.cfg', traces[i])
        c.violation('filter', 'event %d refused: %s' % (n, traces[i][n - 1] if n <= len(traces[i]) else None), {'script': scripts[i], 'observed': traces[i]})
    c.cov['states'] += ds
    c.cov['transitions'] += gn
    # ---- request bodies of the real worker
    stub = stubs.Stub(echo)
    with vlib.Server('buffer_request_body true;\nscgi "%s";' % stub.addr, ['mod_scgi'], setup='io.timeout 20;') as srv:
        addr = ('127.0.0.1', srv.port)
        jobs = []
        for b in EDGE:
            jobs.append((b, cut(r, b, 3)))
        for _ in range(6000 if c.thorough else 900):
            b = body(r)
            x = r.random()
            if x < .5:
                pass
            elif x < .9:
                b = mutate(r, b)
            else:
                b = b[:r.randint(0, len(b))]
            jobs.append((b, cut(r, b, 3)))

        def one(j):
            ok = bool(re.match(rb'(?s).*0\r\n(.*\r\n)*\r\n$', j[0]))
            e = request(addr, list(j[1]), ok)
            e['b'] = list(j[0])
            e['eof'] = 0
            return [e]
        obs = vlib.parallel(one, jobs, 12)
        rej, ds, gn = vlib.validate('ChunkedTrace', 'ChunkedTrace.cfg', obs)
        for k in sorted(rej)[:8]:
            again = one(jobs[k])
            if not vlib.validate('ChunkedTrace', 'ChunkedTrace.cfg', [again])[0]:
                continue
            c.violation('request-body', 'chunked request body %r cut as %r: %s' % (jobs[k][0], [len(x) for x in jobs[k][1]], {x: again[0][x] for x in ('st', 'out', 'next')}), {'body': jobs[k][0], 'segments': jobs[k][1], 'observed': again})
        if not srv.alive():
            c.violation('server-died', 'the worker crashed', {'log': srv.log()[-2000:]})
    c.cov['states'] += ds
    c.cov['transitions'] += gn
    c.cov['traces_validated_against_impl'] = len(good) + len(obs)
    c.note(decoder_and_encoder_scripts=len(scripts), request_bodies=len(obs), accepted_bodies=sum(o[0]['st'] == 200 for o in obs))
    c.sample({'script': scripts[-60], 'observed': traces[-60]})


vlib.main('C07', main)
