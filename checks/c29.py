"""C29: address prefixes: tables, text forms, access.check and =/ conditions decide by the most precise network (spec/Access.tla)"""
import os, sys, json, socket, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1


def hexkey(bits):
    if not bits:
        return '-'
    b = bits + [0] * (-len(bits) % 8)
    return ''.join('%02x' % int(''.join(map(str, b[i:i + 8])), 2) for i in range(0, len(b), 8))


def stretch(k, seg):
    out = []
    for x, s in zip(k, seg):
        out += s[x]
    return out


def table_scripts(c, hist):
    r = c.rng
    res = []
    W = 3

    def seg_for(lens):
        segs = []
        for n in lens:
            base = [r.randint(0, 1) for _ in range(n)]
            d = r.choice([0, n - 1, r.randrange(n)])
            o = list(base)
            o[d] ^= 1
            for j in range(d + 1, n):
                o[j] = r.randint(0, 1)
            segs.append((base, o))
        return segs
    for h in hist:
        lens = r.choice([(1, 1, 1), (32, 32, 32), (31, 1, 1), (16, 16, 1), (16, 15, 2), (30, 2, 32), (32, 1, 31), (33, 31, 32), (1, 31, 1), (64, 32, 32), (8, 8, 16), (96, 31, 1), (20, 20, 20), (1, 63, 64)])
        seg = seg_for(lens)
        ops = []
        keys = []
        for n, (o, k) in enumerate(h):
            k = stretch(k, seg)
            keys.append(k)
            ops.append({'op': o, 'k': k, 'v': n + 1})
        allk = [stretch([int(x) for x in ('{:0%db}' % n).format(i)] if n else [], seg) for n in range(W + 1) for i in range(2 ** n)]
        for k in allk:
            ops.append({'op': 'E', 'k': k, 'v': 0})
            ops.append({'op': 'L', 'k': k, 'v': 0})
        ops.append({'op': 'F', 'k': [], 'v': 0})
        res.append(ops)
    # long random histories over related keys
    for _ in range(300 if not c.thorough else 5000):
        base = [[r.randint(0, 1) for _ in range(160)] for _ in range(2)]
        pool = []
        for _ in range(r.randint(3, 10)):
            b = list(r.choice(base))
            n = r.choice([0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, r.randint(0, 128)])
            if n and r.random() < .5:
                b[r.choice([n - 1, r.randrange(n), 31 if n > 31 else 0, 32 if n > 32 else 0])] ^= 1
            pool.append(b[:n])
        ops = []
        for v in range(r.randint(5, 60)):
            k = r.choice(pool)
            o = r.choice('IIIRRELL')
            if o == 'L' and r.random() < .5:
                k = k + [r.randint(0, 1) for _ in range(r.choice([1, 5, 32]))]
            ops.append({'op': o, 'k': k, 'v': v + 1})
        ops.append({'op': 'F', 'k': [], 'v': 0})
        res.append(ops)
    return res


def quad(r, bad=.1):
    p = [str(r.choice([0, 1, 9, 10, 99, 127, 128, 192, 254, 255, r.randint(0, 255)])) for _ in range(4)]
    if r.random() < bad:
        p[r.randrange(4)] = r.choice(['256', '300', '1000', '4294967296', '4294967297', '18446744073709551617', '', 'a', '-1', '+1', '0x1', ' 1'[1:] + '.', '01', '007', '00000000000000000000012', '2147483648', '99999999999'])
    if r.random() < bad / 2:
        p = r.choice([p[:3], p + ['1'], p[:1]])
    return '.'.join(p)


def v6(r, bad=.1):
    def g():
        x = r.random()
        if x < bad / 2:
            return r.choice(['12345', 'g', '', '-1', '0x1', '10000', '00000'])
        return r.choice(['0', '1', 'a', 'F', 'ff', 'fFfF', '0001', 'fe80', '8000', '7fff', '%x' % r.randint(0, 65535)])
    n = r.choice([8, 8, 8, r.randint(0, 9)]) if r.random() < .5 else r.randint(0, 7)
    gs = [g() for _ in range(n)]
    tail4 = r.random() < .25
    if tail4:
        gs = gs[:-2] + [quad(r, bad / 2)] if len(gs) >= 2 else [quad(r, bad / 2)]
    n = len(gs)
    x = r.random()
    full = (n == 8 and not tail4) or (n == 7 and tail4)
    if full and x < .7:
        s = ':'.join(gs)
    else:
        i = r.randint(0, n)
        s = ':'.join(gs[:i]) + '::' + ':'.join(gs[i:])
    if r.random() < bad:
        s = r.choice([s + ':', ':' + s, s.replace('::', ':', 1), s.replace(':', '::', 1), s + ':1', s.replace(':', '.', 1), s + '.1', '', s[:-1], s + 'x', s.replace(':', ':::', 1)])
    return s


def netsuffix(r, top):
    x = r.random()
    if x < .5:
        return '/%d' % r.randint(0, top)
    if x < .7:
        return '/' + r.choice(['0', '1', '31', '32', '33', '8', '24', '64', '127', '128', '129', '256', '4294967296', '4294967304', '008', '', '-1', 'x', '1x', '8/8'])
    return ''


def text4(r):
    s = quad(r) + netsuffix(r, 32)
    if r.random() < .2:
        s += ':' + r.choice(['80', '0', '65535', '65536', '4294967376', '', 'x', '080'])
    return s


def text6(r):
    a = v6(r)
    n = netsuffix(r, 128)
    x = r.random()
    if x < .5:
        return a + n
    s = r.choice(['[' + a + ']' + n, '[' + a + n + ']', '[' + a + n, a + n + ']', '[' + a + ']', '[' + a + n + ']' + netsuffix(r, 128)])
    if r.random() < .4:
        s += ':' + r.choice(['80', '0', '65535', '65536', '4294967376', '', 'x'])
    return s


def codes(s):
    return [ord(x) for x in s]


def run(c):
    r = c.rng
    c.model(vlib.tlc('AccessMC', 'AccessMC.cfg', want_ok=True), 'Access (tables, 4 operations)')
    g = vlib.tlc('AccessMC', 'AccessMC3.cfg', want_ok=True)
    c.model(g, 'Access (3 bit keys, 3 operations)')
    if vlib.tlc('AccessMC', 'AccessVac.cfg').ok:
        raise vlib.Broken('vacuity: a table without fallback to shorter prefixes is not refused')
    hist = vlib.printed(g.out, 'SCN')
    if not c.thorough:
        hist = r.sample(hist, min(len(hist), 2500))
    binary = vlib.compile_harness('ip')
    lines, recs = [], []
    for ops in table_scripts(c, hist):
        lines.append(';'.join('F' if o['op'] == 'F' else '%s %s %d%s' % (o['op'], hexkey(o['k']), len(o['k']), ' %d' % o['v'] if o['op'] == 'I' else '') for o in ops))
        recs.append({'kind': 'table', 'ops': ops})
    for _ in range(4000 if not c.thorough else 60000):
        k = r.choice(['p4', 'p6', 'p6', 'p6'])
        s = (text4 if (k == 'p4') == (r.random() < .97) else text6)(r)
        m = r.randrange(4)
        lines.append('%s %d %s' % (k[1], m, s.encode().hex() or '00'))
        recs.append({'kind': k, 'text': codes(s), 'net': bool(m & 1), 'port': bool(m & 2)})
    for _ in range(1500 if not c.thorough else 20000):
        fa, fm = r.choice([4, 16]), r.choice([4, 16])
        if fa == 16:
            a = [0] * 10 + [255, 255] + [r.randint(0, 255) for _ in range(4)] if r.random() < .5 or fm == 4 else [r.randint(0, 255) for _ in range(16)]
            if r.random() < .1:
                a[r.randrange(12)] ^= 1 << r.randrange(8)
        else:
            a = [r.randint(0, 255) for _ in range(4)]
        top = 32 if fm == 4 else 128
        src = a if fa == fm else a[-4:] if fm == 4 else [0] * 10 + [255, 255] + a
        m = list(src)
        n = r.randint(0, top)
        if r.random() < .8:
            b = r.choice([n, n - 1, n + 1, r.randrange(top)])
            if 0 <= b < top:
                m[b // 8] ^= 128 >> (b % 8)
        lines.append('N %d %s %s %d' % ({(4, 4): 44, (4, 16): 46, (16, 4): 64, (16, 16): 66}[fa, fm], bytes(a).hex(), bytes(m).hex(), n))
        recs.append({'kind': 'in', 'a': a, 'm': m, 'n': n})
    out = vlib.run_harness(binary, lines, 'ip')
    good, gi = [], []
    for i, (t, o) in enumerate(zip(recs, out)):
        if not isinstance(o, list):
            c.violation('crash', 'library aborted on %s' % lines[i][:300], {'script': lines[i]})
            continue
        if t['kind'] == 'table':
            t['ops'] = [dict(x, r=y) for x, y in zip(t['ops'], o)]
        else:
            t['r'] = o[0]
        good.append(t)
        gi.append(i)
    c.log('%d library scripts' % len(good))
    rej, d, n = vlib.validate('AccessTrace', 'AccessTrace.cfg', good, batch=10000)
    c.cov['states'] += d
    c.cov['transitions'] += n
    c.cov['traces_validated_against_impl'] += len(good)
    for k in sorted(rej)[:10]:
        t = good[k]
        if t['kind'] == 'table':
            n = vlib.stuck('AccessTrace', 'AccessTrace.cfg', t)
            c.violation('table', 'prefix table: operation %d refused: %s' % (n, {a: b if a != 'k' else ''.join(map(str, b)) for a, b in t['ops'][n - 1].items()}), {'script': lines[gi[k]]})
        else:
            c.violation(t['kind'], 'wrong result: %s' % ({a: ''.join(map(chr, b)) if a == 'text' else b for a, b in t.items()}), {'script': lines[gi[k]]})
    real(c)


# ---------------------------------------------------------------- the server
def rule_texts(r, v6on):
    if v6on and r.random() < .4:
        n = r.randint(0, 128)
        a = [0] * 15 + [1]
        b = r.choice([n, n - 1, 127, r.randrange(128)])
        if r.random() < .5 and 0 <= b < 128:
            a[b // 8] ^= 128 >> (b % 8)
        g = ['%x' % (a[i] * 256 + a[i + 1]) for i in range(0, 16, 2)]
        s = ':'.join(g) if r.random() < .5 else socket.inet_ntop(socket.AF_INET6, bytes(a))
        return s + r.choice(['', '/%d' % n, '/%d' % n])
    a = [127, r.choice([0, 0, 1, 128]), r.choice([0, 0, 1, 200]), r.choice([1, 2, 3, 129, 200])]
    n = r.choice([32, 32, 31, 30, 25, 24, 23, 17, 16, 9, 8, 7, 1, 0])
    if r.random() < .15:
        a[0] = r.choice([126, 0, 255, 10])
    return '.'.join(map(str, a)) + r.choice(['', '/%d' % n, '/%d' % n, '/%d' % n])


def ruleset(r, v6on):
    rules = []
    groups = []
    for _ in range(r.choice([1, 2, 2])):
        al = r.random() < .5
        ts = [r.choice(['all'] + [rule_texts(r, v6on)] * 6) for _ in range(r.randint(1, 4))]
        if groups and r.random() < .4:
            ts[0] = r.choice(groups[0][1])
        if r.random() < .015:
            ts[-1] = r.choice(['256.0.0.1', '127.0.0.1/33', '1.2.3', '::1/129', 'x', '127.0.0.1/4294967296', '1:2:3:4:5:6:7', '::1:', 'All', '127.0.0.1:80', ''])
        groups.append((al, ts))
        rules += [{'allow': al, 'text': codes(t)} for t in ts]
    text = 'access.check ( %s );' % ', '.join('"%s" => %s%s%s' % ('allow' if a else 'deny', '[' if q else '(', ', '.join('"%s"' % t for t in ts), ']' if q else ')') for a, ts in groups for q in [r.random() < .3])
    return rules, text


def load_ok(text, d, k):
    p = os.path.join(d, 't%d.conf' % k)
    open(p, 'w').write('setup { module_load "mod_access"; }\n' + text)
    q = subprocess.run([vlib.worker_bin(), '-t', '-m', vlib.mod_dir(), '-c', p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    if q.returncode not in (0, 1):
        return None
    return q.returncode == 0


def real(c):
    r = c.rng
    try:
        s = socket.socket(socket.AF_INET6)
        s.bind(('::1', 0))
        s.close()
        v6on = True
    except OSError:
        v6on = False
    c.note(ipv6=v6on)
    items = []
    for k in range(400 if not c.thorough else 4000):
        if r.random() < .75:
            rules, text = ruleset(r, v6on)
            items.append(({'kind': 'rules', 'rules': rules}, text))
        else:
            t = rule_texts(r, v6on) if r.random() < .97 else r.choice(['256.0.0.1', '127.0.0.1/33', '::1/129', 'x', '127.0.0.1/4294967296', '1:2:3:4:5:6:7'])
            items.append(({'kind': 'cond', 'text': codes(t)}, r.choice(['if req.remoteip !/ "%s" { access.deny; }', 'if !(req.remoteip =/ "%s") { access.deny; }', 'if req.remoteip =/ "%s" { } else { access.deny; }']) % t))
    d = os.path.join(vlib.scratch(), 'conf')
    os.makedirs(d, exist_ok=True)
    loaded = vlib.parallel(lambda ki: load_ok(ki[1][1], d, ki[0]), list(enumerate(items)), 8)
    recs, live = [], []
    for (t, text), ok in zip(items, loaded):
        if ok is None:
            c.violation('loader', 'the loader crashed on ' + text, {'config': text})
            continue
        t['loaded'] = ok
        t['obs'] = []
        recs.append((t, text))
        if ok:
            live.append((t, text))
    conf = ''.join('if req.path == "/r%d" {\n%s\nrespond "ok";\n}\n' % (i, text) for i, (t, text) in enumerate(live))
    srv = vlib.Server(conf + 'respond 404 => "none";\n', ['mod_access'])
    if v6on:
        p6 = vlib.free_port('127.0.0.1')
        srv.conf = srv.conf.replace('setup {\n', 'setup {\nlisten "[::1]:%d";\n' % p6, 1)
    addrs = [[127, 0, 0, 1], [127, 0, 0, 2], [127, 0, 0, 3], [127, 0, 0, 129], [127, 0, 1, 1], [127, 0, 200, 200], [127, 1, 0, 1], [127, 128, 0, 1], [127, 128, 1, 3]]
    with srv:
        def one(a):
            if len(a) == 4:
                pl = http1.Player((srv.ip, srv.port), lambda i: ('GET /r%d HTTP/1.1\r\nHost: x\r\n\r\n' % i).encode(), src=lambda j: '.'.join(map(str, a)))
            else:
                pl = http1.Player(('::1', p6), lambda i: ('GET /r%d HTTP/1.1\r\nHost: x\r\n\r\n' % i).encode())
            res = []
            for b in range(0, len(live), 40):
                res += pl(list(range(b, min(b + 40, len(live)))))
            return res
        al = addrs + ([[0] * 15 + [1]] if v6on else [])
        for a, res in zip(al, vlib.parallel(one, al, 10)):
            for (t, text), x in zip(live, res):
                st = 0 if x is None or x['bad'] else x['status']
                if st not in (200, 403):
                    c.violation('answer', 'answer %s to a request from %s under %s' % (st, a, text), {'config': text})
                t['obs'].append({'a': a, 'ok': st == 200})
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
    rej, dd, n = vlib.validate('AccessTrace', 'AccessTrace.cfg', [t for t, _ in recs])
    c.cov['states'] += dd
    c.cov['transitions'] += n
    c.cov['traces_validated_against_impl'] += len(recs)
    c.note(configurations=len(items), loaded=len(live), decisions=sum(len(t['obs']) for t, _ in recs))
    c.sample({'config': recs[-1][1], 'decisions': recs[-1][0]['obs'][:3]})
    for k in sorted(rej)[:8]:
        t, text = recs[k]
        c.violation(t['kind'], 'wrong decision: %s loaded=%s %s' % (text, t['loaded'], [('.'.join(map(str, o['a'])), o['ok']) for o in t['obs']]), {'config': text, 'observed': t['obs']})


vlib.main('C29', run)
