"""C05: byte ranges and conditional requests on static files."""
import os, sys, json, random, re, time
from email.utils import formatdate
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1

TOK = ['-', ',', '0', '3', '7', ' ', '20']
WILD = ['-', '-', ',', ',', '0', '1', '2', '3', '5', '9', '10', ' ', '\t', '99', '4096', '65535', '65536', '299999', '300000', '300001', '999999999999', '9223372036854775807', '922337203685477579', '9223372036854775799', '99999999999999999999', 'x', '=', 'q', '00', 'bytes', '-5', '0-', '1-2', '3-4,', '--', '-0', '5-2', '0-0', ',2-3', ',-3', ',1-', ',4-4,', ',9-']
SIZES = [0, 1, 5, 8, 4096, 300000]


def date(t):
    return formatdate(t, usegmt=True)


def parse_parts(r, data, size):
    """-> (parts, ok): the ranges the response claims, and whether its bytes are exactly those of the file"""
    st = r['status']
    if st == 206:
        cr = r['h'].get('content-range')
        ct = (r['h'].get('content-type') or [''])[0]
        if cr:
            m = re.match(r'^bytes (\d+)-(\d+)/(\d+)$', cr[0])
            if not m or len(cr) != 1 or int(m.group(3)) != size:
                return [], False
            a, b = int(m.group(1)), int(m.group(2))
            return [[a, b]], r['body'] == data[a:b + 1]
        m = re.match(r'^multipart/byteranges; ?boundary="?([^"]+)"?$', ct)
        if not m:
            return [], False
        bd = m.group(1).encode()
        body = r['body']
        parts, pos, ok = [], 0, True
        while True:
            if body[pos:pos + 2] == b'\r\n':
                pos += 2
            if not body.startswith(b'--' + bd, pos):
                return parts, False
            pos += 2 + len(bd)
            if body.startswith(b'--', pos):
                ok = ok and body[pos + 2:] in (b'\r\n', b'')
                return parts, ok
            e = body.find(b'\r\n\r\n', pos)
            hd = body[pos:e].decode('latin1')
            m = re.search(r'\r\nContent-Range: bytes (\d+)-(\d+)/(\d+)', hd, re.I)
            if e < 0 or not m or int(m.group(3)) != size:
                return parts, False
            a, b = int(m.group(1)), int(m.group(2))
            parts.append([a, b])
            pos = e + 4
            ok = ok and body[pos:pos + b - a + 1] == data[a:b + 1]
            pos += b - a + 1
    if st == 200:
        return [], r['body'] == data and not r['h'].get('content-range')
    return [], True


def run(c):
    rng = c.rng
    r = vlib.tlc('RangeMC', 'RangeMC6.cfg' if c.thorough else 'RangeMC5.cfg', want_ok=True)
    c.model(r, 'RangeMC: every Range header of <= %d tokens on 4 file sizes' % (6 if c.thorough else 5))
    if vlib.tlc('RangeMC', 'RangeVac.cfg').ok:
        raise vlib.Broken('RangeMC never selects two ranges')
    scn = ['bytes=' + ''.join(TOK[i - 1] for i in s) for s in vlib.printed(r.out, 'SCN')]
    c.log('%d range headers enumerated' % len(scn))
    rng.shuffle(scn)
    scn = scn[:40000 if c.thorough else 4000]
    for _ in range(20000 if c.thorough else 3500):
        pre = rng.choice(['bytes=', 'bytes=', 'bytes=', 'bytes=', ' bytes =', 'bytes= ', 'Bytes=', 'byte', 'bytes', 'items=', ''])
        scn.append(pre + ''.join(rng.choice(WILD) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7, 10]))))
    num = lambda: rng.choice(['0', '1', '2', '3', '4', '5', '7', '8', '9', '100', '4095', '4096', '65536', '299998', '299999', '300000', '00', '007'])
    for _ in range(15000 if c.thorough else 3500):
        sp = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 9])):
            sp.append(rng.choice([num() + '-' + num(), num() + '-', '-' + num(), num() + ' - ' + num(), '- ' + num(), '0-0', '1-1', '0-1']))
        scn.append('bytes=' + rng.choice(['', '', ' ', ',']) + rng.choice([',', ', ', ' ,', ',,']).join(sp) + rng.choice(['', '', '', ',', ' ', 'x', ',5']))
    data = {n: bytes((i * 7 + i // 256 * 13) & 255 for i in range(n)) for n in SIZES}
    conf = 'keepalive.timeout 60;\ndocroot "@DIR@/www";\nif req.host == "noetag" { etag.use [[]]; static; } else if req.host == "norange" { static.range_requests false; static; } else { static; }'
    srv = vlib.Server(conf, name='c05')
    os.makedirs(srv.dir + '/www')
    mtime = int(time.time()) - 100000
    for n, d in data.items():
        with open('%s/www/f%d' % (srv.dir, n), 'wb') as f:
            f.write(d)
        os.utime('%s/www/f%d' % (srv.dir, n), (mtime, mtime))
    with srv:
        addr = (srv.ip, srv.port)
        etag = {}
        for n in SIZES:
            x = http1.get(addr, '/f%d' % n)
            etag[n] = (x['h'].get('etag') or [''])[0]
            if x['status'] != 200 or not etag[n]:
                c.violation('plain', 'plain GET of a static file: %s' % x, {})
        if len(set(etag.values())) != len(SIZES):
            c.violation('etag', 'different files share an etag', etag)
        jobs = []
        for h in scn:
            n = rng.choice(SIZES)
            host = rng.choice(['h', 'h', 'h', 'h', 'h', 'noetag', 'norange'])
            inm = rng.choice(['none'] * 24 + ['match', 'weak', 'list', 'other'])
            ims = rng.choice(['none'] * 24 + ['same', 'newer', 'older', 'bad'])
            ifr = rng.choice(['none'] * 12 + ['etag', 'etag', 'date', 'date', 'other', 'weak'])
            hasr = rng.random() < .9
            meth = rng.choice(['GET'] * 9 + ['HEAD'])
            jobs.append((h, hasr, n, host, inm, ims, ifr, meth))

        def raw(j):
            h, hasr, n, host, inm, ims, ifr, meth = j
            e = etag[n]
            hd = []
            if hasr:
                hd.append('Range: ' + h)
            if inm != 'none':
                hd.append('If-None-Match: ' + {'match': e, 'weak': 'W/' + e, 'list': '"x", ' + e + ', "y"', 'other': '"nope"'}[inm])
            if ims != 'none':
                hd.append('If-Modified-Since: ' + {'same': date(mtime), 'newer': date(mtime + 3661), 'older': date(mtime - 3661), 'bad': 'yesterday'}[ims])
            if ifr != 'none':
                hd.append('If-Range: ' + {'etag': e, 'date': date(mtime), 'other': '"nope"', 'weak': 'W/' + e}[ifr])
            return ('%s /f%d HTTP/1.1\r\nHost: %s\r\n%s\r\n' % (meth, n, host, ''.join(x + '\r\n' for x in hd))).encode('latin1')

        play = http1.Player(addr, raw, lambda j: j[7])

        def obs(j, r):
            h, hasr, n, host, inm, ims, ifr, meth = j
            t = {'h': [ord(x) for x in h.strip(' ').lstrip('\t')], 'hasr': hasr, 'size': n, 'ranges': host != 'norange', 'inm': inm, 'ims': ims, 'ifr': ifr, 'etag': host != 'noetag', 'head': meth == 'HEAD', 'st': 0, 'parts': [], 'ok': False, 'cr416': False}
            if r is None or r['bad']:
                return t
            t['st'] = r['status']
            if meth == 'HEAD':
                t['ok'] = True
                t['parts'] = []
            else:
                t['parts'], t['ok'] = parse_parts(r, data[n], n)
            t['cr416'] = r['h'].get('content-range') == ['bytes */%d' % n]
            if r['status'] == 304 and host != 'noetag' and r['h'].get('etag') != [etag[n]]:
                t['ok'] = False
            return t
        size = 40
        parts = [jobs[i:i + size] for i in range(0, len(jobs), size)]
        rs = [x for p in vlib.parallel(play, parts, 12) for x in p]
        tr = [obs(j, x) for j, x in zip(jobs, rs)]
        c.log('%d requests played' % len(tr))
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
        rej, d, g = vlib.validate('RangeTrace', 'RangeTrace.cfg', tr, batch=20000)
        c.cov['states'] += d
        c.cov['transitions'] += g
        c.cov['traces_validated_against_impl'] += len(tr)
        st = {}
        for t in tr:
            k = '%d/%d' % (t['st'], min(2, len(t['parts'])))
            st[k] = st.get(k, 0) + 1
        c.note(statuses=st)
        for i in (0, -1):
            c.sample({'range': jobs[i][0], 'size': jobs[i][2], 'status': tr[i]['st'], 'parts': tr[i]['parts']})
        idx = sorted(rej)[:60]
        if idx:
            c.log('%d rejected, repeating' % len(rej))
        tr2 = [obs(jobs[i], play([jobs[i]])[0]) for i in idx]
        rej2, _, _ = vlib.validate('RangeTrace', 'RangeTrace.cfg', tr2) if tr2 else (set(), 0, 0)
        for x in sorted(rej2):
            c.violation('range', 'not an acceptable answer: %r -> %s %s ok=%s' % (jobs[idx[x]], tr2[x]['st'], tr2[x]['parts'], tr2[x]['ok']), {'request': raw(jobs[idx[x]]).decode('latin1'), 'observed': tr2[x]})
        if len(rej) > 3 and not rej2:
            c.violation('range-pipelined', '%d answers were wrong only when pipelined' % len(rej), {'request': raw(jobs[idx[0]]).decode('latin1'), 'observed': tr[idx[0]]})
        # history: an entity tag or date is never reused for other content (size or date changed)
        seen = {}
        p = srv.dir + '/www/mut'
        for k in range(40 if not c.thorough else 400):
            n = rng.choice([3, 4, 5, 300])
            t = mtime + rng.randint(0, 3)
            body = bytes([65 + k % 26]) * n if rng.random() < .5 else b'z' * n
            with open(p + '.new', 'wb') as f:
                f.write(body)
            os.utime(p + '.new', (t, t))
            os.rename(p + '.new', p)
            x = http1.get(addr, '/mut')
            e = (x['h'].get('etag') or [''])[0]
            y = http1.get(addr, '/mut', [('If-None-Match', e)])
            z = http1.get(addr, '/mut', [('If-None-Match', '"stale"'), ('Range', 'bytes=0-0'), ('If-Range', e)])
            if x['body'] != body or y['status'] != 304 or z['status'] != 206 or z['body'] != body[:1]:
                c.violation('etag-history', 'replaced file: GET %s, revalidation %s, range %s' % (x['status'], y['status'], z['status']), {'k': k})
            for (oe, ob) in seen.items():
                if oe == e and ob != (n, t):
                    c.violation('etag-reuse', 'etag %s of %s reused for %s' % (e, ob, (n, t)), {})
            for oe in list(seen)[-3:]:
                if oe != e:
                    w = http1.get(addr, '/mut', [('Range', 'bytes=1-1'), ('If-Range', oe)])
                    v = http1.get(addr, '/mut', [('If-None-Match', oe)])
                    if w['status'] != 200 or w['body'] != body or v['status'] != 200 or v['body'] != body:
                        c.violation('stale-validator', 'a validator of an earlier version is honoured: %s %s' % (w['status'], v['status']), {'old': oe, 'new': e})
            seen[e] = (n, t)


vlib.main('C05', run)
