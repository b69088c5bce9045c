"""C01: requests on one connection are answered in order, exactly once, from their own bytes."""
import os, sys, json, hashlib, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1, stubs, h1run

CONF = '''
header.add "X-Id" => "%{req.query}";
keepalive.timeout 60;
static.range_requests false;
if req.path =^ "/echo" { scgi "@STUB@"; }
else if req.path =^ "/resp" { respond 200 => "hello %{req.path}"; }
else if req.path =^ "/early" { respond 200 => "early %{req.path}"; }
else { docroot "@DIR@/www"; static; }
'''
BADS = [(b'GET /x\r\n\r\n', 400), (b'G\x01T / HTTP/1.1\r\nHost: a\r\n\r\n', 400), (b'GET / HTTP/1.1\r\n\r\n', 400),
        (b'GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n', 400), (b'GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 5\r\n\r\n', 400),
        (b'GET /a.txt HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n', 400),
        (b'HEAD /a.txt HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n', 400),
        (b'POST /echo HTTP/1.1\r\nHost: a\r\nContent-Length: 5x\r\n\r\n', 400),
        (b'POST /echo HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: gzip\r\n\r\n', 501), (b'GET / HTTP/1.1\r\nHost: a\r\nExpect: 200-ok\r\n\r\n', 417)]


def h(b):
    return hashlib.md5(b).hexdigest()[:10]


def concrete(rng, k, files, nid):
    """one concrete request for an abstract kind; returns dict(raw, method, rec, hl, bl)"""
    if k['bad']:
        raw, st = rng.choice(BADS)
        m = 'HEAD' if raw.startswith(b'HEAD') else 'GET'
        return {'raw': raw, 'method': m, 'hl': len(raw), 'bl': 0, 'id': '', 'want': '%d:*' % st}
    qid = 'r%d' % nid
    ver = b'HTTP/1.0' if k['ver'] == 10 else b'HTTP/1.1'
    hd = []
    if k['conn'] == 'close':
        hd.append(rng.choice([b'Connection: close', b'connection: Close', b'Connection:close']))
    elif k['conn'] == 'keep':
        hd.append(rng.choice([b'Connection: keep-alive', b'Connection: Keep-Alive']))
    if k['ver'] == 11 or rng.random() < .5:
        hd.append(b'Host: h%d.example' % rng.randint(0, 9))
    for i in range(rng.choice([0, 0, 0, 1, 3])):
        hd.append(b'X-Pad%d: %s' % (i, b'p' * rng.choice([1, 20, 300, 3000])))
    if k['expect']:
        hd.append(b'Expect: 100-continue')
    body = b''
    if k['bl']:
        n = rng.choice([1, 2, 3, 17, 100, 1000, 4096, 65536, 70000, 300000]) if rng.random() < .9 else rng.randint(1, 600000)
        content = bytes(rng.getrandbits(8) for _ in range(min(n, 997)))
        content = (content * (n // max(1, len(content)) + 1))[:n]
        # bodies that look like requests
        if rng.random() < .5:
            evil = b'GET /resp/evil?evil HTTP/1.1\r\nHost: evil\r\n\r\n'
            content = (evil * (n // len(evil) + 1))[:max(n, len(evil))]
        if rng.random() < .5:
            hd.append(b'Content-Length: %d' % len(content))
            body = content
        else:
            hd.append(rng.choice([b'Transfer-Encoding: chunked', b'transfer-encoding: Chunked']))
            p = 0
            while p < len(content):
                c = rng.choice([1, 5, 16, 255, 4096, 100000])
                if len(content) - p > 50000:
                    c = max(c, 20000)
                c = min(c, len(content) - p)
                body += rng.choice([b'%x', b'%X', b'00%x']) % c + b'\r\n' + content[p:p + c] + b'\r\n'
                p += c
            body += b'0\r\n' + (b'X-Trailer: 1\r\n' if rng.random() < .2 else b'') + b'\r\n'
        if k['needs']:
            path = b'/echo/%d' % rng.randint(0, 99)
            want = '200:' + h(b'echo %s?%s %d %s' % (path, qid.encode(), len(content), hashlib.md5(content).hexdigest()[:12].encode()))
        else:
            path = b'/early/%d' % rng.randint(0, 99)
            want = '200:' + h(b'early ' + path)
        meth = rng.choice([b'POST', b'PUT']) if k['needs'] else b'POST'
    else:
        c = 2 if k['unk'] else rng.random()
        meth = b'GET'
        if c < .3:
            f = rng.choice(sorted(files))
            path, want = b'/' + f.encode(), '200:' + h(files[f])
        elif c < .45:
            f = rng.choice(sorted(files))
            path, want, meth = b'/' + f.encode(), '200:' + h(b''), b'HEAD'
        elif c < .7:
            path = b'/resp/%d' % rng.randint(0, 999)
            want = '200:' + h(b'hello ' + path)
        elif c < .8:
            path, want = b'/miss/%d' % rng.randint(0, 99), '404:*'
        elif c < 1:
            path, want, meth = b'/miss/%d' % rng.randint(0, 99), '404:*', b'HEAD'
        else:
            path = b'/echo/%d' % rng.randint(0, 99)
            want = '200:' + h(b'echo %s?%s 0 %s' % (path, qid.encode(), hashlib.md5(b'').hexdigest()[:12].encode()))
    rng.shuffle(hd)
    head = meth + b' ' + path + b'?' + qid.encode() + b' ' + ver + b'\r\n' + b''.join(x + b'\r\n' for x in hd) + b'\r\n'
    if rng.random() < .1:
        head = b'\r\n' + head   # leading empty line is allowed before a request
    return {'raw': head + body, 'method': meth.decode(), 'hl': len(head), 'bl': len(body), 'id': qid, 'want': want}


def build_scenario(rng, scn, files):
    kinds = [dict(k) for k in scn['reqs']]
    probe = {'hl': 2, 'bl': 0, 'needs': False, 'ver': 11, 'conn': 'close', 'bad': False, 'expect': False, 'unk': False}
    reqs, recs = [], []
    for i, k in enumerate(kinds + [probe]):
        c = concrete(rng, k, files, i + 1)
        reqs.append(c)
        recs.append({'hl': c['hl'], 'bl': c['bl'], 'needs': k['needs'], 'ver': k['ver'], 'conn': k['conn'], 'bad': k['bad'],
                     'expect': k['expect'], 'unk': k['unk'], 'id': c['id'], 'want': c['want']})
    # map abstract units to byte positions
    cuts = [0]
    for k, c in zip(kinds, reqs):
        base = cuts[-1]
        for n, total in ((k['hl'], c['hl']), (k['bl'], c['bl'])):
            if n:
                inner = sorted(rng.randint(0, total) for _ in range(n - 1)) if rng.random() < .7 else sorted(rng.choice([1, 2, total - 1, total - 2, total - 3]) for _ in range(n - 1))
                cuts += [base + max(0, min(total, x)) for x in inner] + [base + total]
                base += total
    ops, u = [], 0
    for x in scn['hist']:
        if x == 0:
            ops.append(0)
        else:
            n = cuts[min(u + x, len(cuts) - 1)] - cuts[u]
            u = min(u + x, len(cuts) - 1)
            if n:
                ops.append(n)
    return reqs, recs, ops


def gen(c, n, seed):
    r = vlib.tlc('HttpConnGen', 'HttpConnGen.cfg', extra=['-simulate', 'num=%d' % (n * 3), '-seed', str(seed), '-depth', '60'], workers=1)
    seen, out = set(), []
    for s in vlib.printed(r.out, 'SCN'):
        key = json.dumps(s, sort_keys=True)
        if key not in seen:
            seen.add(key)
            out.append(s)
    out.sort(key=lambda s: -len([x for x in s['hist'] if x == 0]))
    keep = out[:n]
    c.rng.shuffle(keep)
    return keep


def run(c):
    c.model(vlib.tlc('HttpConnMC', 'HttpConnMC.cfg', want_ok=True), 'HttpConnMC (3 requests, all segmentations)')
    if c.thorough:
        c.model(vlib.tlc('HttpConnMC', 'HttpConnLive.cfg', want_ok=True), 'HttpConnMC liveness')
    b = vlib.tlc('HttpConnMC', 'HttpConnBug.cfg')
    if b.ok:
        raise vlib.Broken('HttpConnBug.cfg no longer violates its invariant: the model is vacuous')
    n = 12000 if c.thorough else 1500
    scns = gen(c, n, c.seed)
    c.log('%d schedules from TLC' % len(scns))
    stub = stubs.Stub(stubs.echo_scgi, unix=os.path.join(vlib.scratch(), 'echo.sock'))
    rng = c.rng
    files = {'a.txt': b'A' * 10, 'empty.txt': b'', 'b.bin': bytes(range(256)) * 16, 'big.bin': bytes(rng.getrandbits(8) for _ in range(5000)) * 60}
    with vlib.Server(CONF.replace('@STUB@', stub.addr), modules=['mod_scgi']) as srv:
        os.makedirs(srv.dir + '/www')
        for f, d in files.items():
            with open(srv.dir + '/www/' + f, 'wb') as fh:
                fh.write(d)
        addr = (srv.ip, srv.port)
        wild = {400, 404, 501, 417, 505, 413, 414}
        jobs = []
        for s in scns:
            sr = random.Random(rng.getrandbits(64))
            reqs, recs, ops = build_scenario(sr, s, files)
            jobs.append((reqs, recs, ops, sr.choice([0, 0, 0.001, 0.004]), s))

        def one(j):
            return h1run.play(addr, j[0], j[2], gap=j[3], wild=wild)
        evs = vlib.parallel(one, jobs, 12)
        c.log('played')
        traces = [{'reqs': j[1], 'ev': e} for j, e in zip(jobs, evs)]
        rej, d, g = vlib.validate('HttpConnTrace', 'HttpConnTrace.cfg', traces)
        c.cov['states'] += d
        c.cov['transitions'] += g
        c.cov['traces_validated_against_impl'] += len(traces)
        for i in range(2):
            c.sample({'schedule': jobs[i][4], 'events': evs[i][:12]})
        if rej:
            c.log('%d rejected, repeating' % len(rej))
            idx = sorted(rej)[:40]
            evs2 = vlib.parallel(one, [jobs[i] for i in idx], 4)
            rej2, d, g = vlib.validate('HttpConnTrace', 'HttpConnTrace.cfg', [{'reqs': jobs[i][1], 'ev': e} for i, e in zip(idx, evs2)])
            for x in sorted(rej2):
                j = jobs[idx[x]]
                c.violation('history', 'no behaviour of HttpConn explains this connection history', {
                    'reqs': [r['raw'][:400].decode('latin1') for r in j[0]], 'ops': j[2], 'layout': j[1], 'events': evs2[x]})
            if len(rej) > 5 and not rej2:
                c.violation('history-flaky', '%d histories were rejected on the first run only' % len(rej), {'reqs': [r['raw'][:400].decode('latin1') for r in jobs[idx[0]][0]], 'events': evs[idx[0]]})
        if not srv.alive():
            raise vlib.ServerDied('worker died during C01: ' + srv.log()[-2000:])
    stub.stop()
    c.assumptions += ['client and server on loopback, one worker', 'the exhaustive model abstracts heads to 2 units and bodies to <= 3 units',
                      'a connection reset after unread input may swallow responses']


vlib.main('C01', run)
