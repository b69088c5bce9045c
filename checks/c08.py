#!/usr/bin/env python3
"""C08: requests and responses pass through backend modules unchanged, and failures of backends never look like success (spec/Relay.tla, spec/Forward.tla, spec/Tunnel.tla)"""
import sys, os, json, socket, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, relay, c02, http1


def faulty(r):
    sc = c02.scenario(r, 0)
    while sc['proto'] == 'direct':
        sc = c02.scenario(r, 0)
    x = r.random()
    proto = sc['proto']
    if not 200 <= sc['status'] <= 999:
        sc['status'] = 200
    if x < .2:
        sc['head'] = 'bad'
        sc['term'] = 'eof'
    elif x < .4:
        sc['head'] = 'none'
        sc['term'] = r.choice(['eof', 'eof', 'rst'])
    elif x < .9:
        n = sum(sc['p'])
        if proto == 'fcgi':
            sc['term'] = r.choice(['eof', 'rst', 'proto'] + (['end'] if sc['te'] else []))
            if sc['cl'] >= 0:
                sc['cl'] = n
        elif sc['te']:
            sc['term'] = r.choice(['eof', 'rst', 'proto'])
        elif proto == 'proxy':
            sc['cl'] = n + r.choice([1, 2, 1000, 70000])
            sc['term'] = r.choice(['eof', 'eof', 'rst'])
        else:
            sc['cl'] = -1
            sc['term'] = 'rst'
    elif proto == 'proxy' and not sc['te'] and sc['cl'] < 0:
        sc['v10ka'] = True
    return sc


# ---- what backends are told
NAMES = [b'X-A', b'x-a', b'X_A', b'X-B', b'X-Set', b'Cookie', b'Accept', b'User-Agent', b'Content-Type', b'content-type', b'X-Forwarded-For', b'x-forwarded-proto', b'TE', b'Proxy-Connection', b'Foo', b'Http-Host', b'Content_Length', b'Authorization', b"X!#$%&'*+-.^`|~9", b'Range']


def request(r, k):
    proto = r.choice(['proxy', 'scgi', 'fcgi'])
    q = {'proto': proto, 'meth': r.choice(['GET', 'GET', 'HEAD', 'POST', 'POST', 'PUT', 'DELETE', 'PATCH', 'PURGE', 'OPTIONS']), 'ver': r.choice([10, 11, 11]), 'upgrade': False}
    q['query'] = r.choice(['', '', 'a=b', 'x', '%41%2f?=&', 'q=%20%00', 'a//b/../c'])
    path = '/%s/%d' % (proto, k)
    tail, dec = r.choice([('', ''), ('/x', '/x'), ('/%41%42', '/AB'), ('/a//b', '/a/b'), ('/~u', '/~u'), ('/+', '/+')])
    q['path'] = path + dec
    q['target'] = path + tail + ('?' + q['query'] if q['query'] else '')
    hs = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        n = r.choice(NAMES)
        v = r.choice([b'1', b'2', b'evil', b'a b', b'6.6.6.6', b'https', b'x' * r.choice([126, 127, 128, 129, 255, 256, 1000]), b'\xc3\xa4', b'a,b;c=d'])
        if n == b'Range':
            v = b'bytes=0-1'
        hs.append((n, v))
    hs.insert(r.randint(0, len(hs)), (b'Host', b'h.example'))
    if q['meth'] in ('POST', 'PUT', 'PATCH', 'DELETE', 'PURGE', 'OPTIONS'):
        body = relay.payload(k, r.choice([0, 1, 2, 7, 8, 9, 100, 1000, 65535, 65536, 70000]))
        enc = 'cl'
        if q['ver'] == 11 and r.random() < .4:
            enc = 'chunked'
    else:
        body, enc = b'', r.choice(['none', 'none', 'cl'])
    return q, hs, body, enc


def wire(r, q, hs, body, enc):
    hs = list(hs)
    if enc == 'cl':
        hs.insert(r.randint(0, len(hs)), (b'Content-Length', b'%d' % len(body)))
    if enc == 'chunked':
        hs.insert(r.randint(0, len(hs)), (b'Transfer-Encoding', b'chunked'))
    hs.insert(r.randint(0, len(hs)), (b'Connection', r.choice([b'close', b'Close', b'CLOSE'])))
    b = q['meth'].encode() + b' ' + q['target'].encode() + b' HTTP/1.%d\r\n' % (q['ver'] - 10) + b''.join(b'%s: %s\r\n' % kv for kv in hs) + b'\r\n'
    if enc == 'chunked':
        o = 0
        while o < len(body):
            n = min(len(body) - o, r.choice([1, 5, 16, 1000, 40000]))
            b += b'%x\r\n' % n + body[o:o + n] + b'\r\n'
            o += n
        b += b'0\r\n\r\n'
    else:
        b += body
    return b, hs


def lat(b):
    return b.decode('latin1')


def forwarding(c):
    r = c.rng
    n = 8000 if c.thorough else 1200
    be = relay.Scripted()
    conf = '''
docroot "/nonexistent-root";
env.set "HTTP_X_SET" => "fixed";
env.set "FOO" => "bar";
server.tag "tagged";
if req.path =^ "/proxy/" { proxy "%s"; }
else if req.path =^ "/scgi/" { scgi "%s"; }
else if req.path =^ "/fcgi/" { fastcgi "%s"; }
''' % (be.proxy.addr, be.scgi.addr, be.fcgi.addr)
    jobs = []
    for k in range(n):
        q, hs, body, enc = request(r, k)
        w, hs = wire(r, q, hs, body, enc)
        be.scripts[k] = [('send', b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n' if q['proto'] == 'proxy' else b'Status: 200\r\n\r\n' if q['proto'] == 'scgi' else relay.rec(6, b'Status: 200\r\n\r\n') + relay.rec(6, b'') + relay.rec(3, b'\0' * 8))]
        cuts = sorted(r.sample(range(len(w)), min(len(w) - 1, r.choice([0, 0, 1, 3]))))
        jobs.append((k, q, hs, body, [w[a:b] for a, b in zip([0] + cuts, cuts + [len(w)])]))
    with vlib.Server(conf, ['mod_proxy', 'mod_scgi', 'mod_fastcgi'], name='fwd') as srv:
        def one(j):
            k, q, hs, body, segs = j
            be.seen.pop(k, None)
            s = socket.create_connection(('127.0.0.1', srv.port), timeout=10)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            rp = s.getsockname()[1]
            got = b''
            try:
                for x in segs:
                    s.sendall(x)
                    if len(segs) > 1:
                        time.sleep(.002)
                while True:
                    x = s.recv(65536)
                    if not x:
                        break
                    got += x
            except OSError:
                pass
            s.close()
            seen = be.seen.get(k, [])
            d = dict(q, hs=[{'n': lat(a), 'k': lat(a).lower(), 'v': lat(b)} for a, b in hs], body=len(body), port=str(srv.port), rport=str(rp), host='h.example', tag='tagged', file='/nonexistent-root' + q['path'], root='/nonexistent-root')
            if len(seen) != 1 or b' 200 ' not in got[:16]:
                return {'r': d, 's': {'line': '%d requests reached the backend, answer %r' % (len(seen), got[:60]), 'hs': [], 'env': [], 'body': -1, 'same': False}}
            z = seen[0]
            o = {'body': len(z['body']), 'same': z['body'] == body, 'line': '', 'hs': [], 'env': []}
            if 'line' in z:
                o['line'] = lat(z['line'])
                o['hs'] = [{'n': lat(a), 'k': lat(a).lower(), 'v': lat(b)} for a, b in z['hs']]
            else:
                o['env'] = [{'n': lat(a), 'v': lat(b)} for a, b in z['env']]
            return {'r': d, 's': o}
        obs = vlib.parallel(one, jobs, 12)
        rej, ds, gn = vlib.validate('ForwardTrace', 'ForwardTrace.cfg', obs)
        for i in sorted(rej)[:6]:
            again = one(jobs[i])
            if not vlib.validate('ForwardTrace', 'ForwardTrace.cfg', [again])[0]:
                c.log('not reproduced: %s' % obs[i])
                continue
            c.violation('request', 'the backend was told something else than the client asked', {'request': again['r'], 'seen': again['s'], 'wire': repr(b''.join(jobs[i][4])[:3000])})
        for e in be.errors[:3]:
            c.violation('backend-protocol', 'a backend received a malformed request: %s' % (e,), {'error': e})
    be.stop()
    c.cov['states'] += ds
    c.cov['transitions'] += gn
    c.cov['traces_validated_against_impl'] += len(obs)
    c.note(requests_forwarded=len(obs))


# ---- upgraded connections
def tunnels(c):
    r = c.rng
    n = 400 if c.thorough else 80
    plans = {}

    def handler(s):
        line, hs, body = relay.read_http(s)
        k = int(line.split(b' ')[1].rsplit(b'/', 1)[1])
        p = plans[k]
        h = {a.lower(): b for a, b in hs}
        p['asked'] = h.get(b'upgrade') == b'foo'
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        head = b'HTTP/1.1 101 Switching Protocols\r\nUpgrade: foo\r\nConnection: Upgrade\r\nX-A: b\r\n\r\n'
        end(p, s, 'b', head)

    def ev(p, e, n=0):
        p['ev'].append({'e': e, 'n': n})

    def end(p, s, me, head=b''):
        """one end of the tunnel: send p[me], receive the other's, end"""
        other = 'b' if me == 'c' else 'c'
        want = b''.join(p['data'][other])
        got = p['pre'].pop(me, b'')
        s.settimeout(10)

        def sender():
            first = head
            try:
                for x in p['data'][me]:
                    with p['lk']:
                        ev(p, me + 's', len(x))
                    s.sendall(first + x)
                    first = b''
                    time.sleep(p['r'].choice([0, 0, .001, .004]))
                if first:
                    s.sendall(first)
            except OSError:
                pass
            p['sent'][me].set()
        t = threading.Thread(target=sender, daemon=True)
        t.start()
        if got:
            with p['lk']:
                ev(p, me + 'r', len(got))
        try:
            while True:
                if p['first'] == me and len(got) >= len(want) and p['sent'][me].is_set() and 'closed' not in p:
                    p['closed'] = True
                    # everything of the other side arrived; now end
                    with p['lk']:
                        ev(p, me + 'fin')
                    s.shutdown(socket.SHUT_WR)
                s.settimeout(.05 if p['first'] == me and 'closed' not in p else 10)
                try:
                    x = s.recv(65536)
                except socket.timeout:
                    if p['first'] == me and 'closed' not in p:
                        if time.time() - p['t0'] > 10:
                            break
                        continue
                    break
                with p['lk']:
                    ev(p, me + 'r' if x else me + 'eof', len(x))
                if not x:
                    break
                got += x
        except OSError as e:
            with p['lk']:
                ev(p, 'error %s' % e)
        if want[:len(got)] != got:
            with p['lk']:
                ev(p, 'corrupted')
        t.join(10)
        if p['first'] != me:
            with p['lk']:
                ev(p, me + 'fin')
        s.close()
        p['done'][me].set()
    stub = relay.stubs.Stub(handler)

    def play(k):
        p = plans[k]
        p.update(ev=[], lk=threading.Lock(), pre={}, sent={'b': threading.Event(), 'c': threading.Event()}, done={'b': threading.Event(), 'c': threading.Event()}, t0=time.time(), r=p['r'])
        p.pop('closed', None)
        s = socket.create_connection(('127.0.0.1', srv.port), timeout=10)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.sendall(b'GET /u/%d HTTP/1.1\r\nHost: x\r\nConnection: %s\r\nUpgrade: foo\r\n\r\n' % (k, p['conn']))
        b = b''
        try:
            while b'\r\n\r\n' not in b:
                x = s.recv(65536)
                if not x:
                    break
                b += x
        except OSError:
            pass
        head, _, rest = b.partition(b'\r\n\r\n')
        low = head.lower()
        if not low.startswith(b'http/1.1 101 ') or b'upgrade: foo' not in low or b'connection: upgrade' not in low or b'content-length' in low or b'transfer-encoding' in low:
            s.close()
            return [{'e': 'no upgrade: %r' % head[:200], 'n': 0}]
        p['pre']['c'] = rest
        end(p, s, 'c')
        p['done']['b'].wait(12)
        with p['lk']:
            return list(p['ev'])
    for k in range(n):
        d = {}
        for side in 'cb':
            d[side] = [relay.payload(k + ord(side), r.choice([1, 2, 10, 1000, 30000, 200000])) for _ in range(r.choice([0, 1, 2, 5]))]
        plans[k] = {'data': d, 'first': r.choice('cb'), 'r': __import__('random').Random(r.random()), 'conn': r.choice([b'Upgrade', b'upgrade', b'keep-alive, Upgrade'])}
    with vlib.Server('proxy "%s";' % stub.addr, ['mod_proxy'], name='tun') as srv:
        obs = vlib.parallel(play, range(n), 12)
        rej, ds, gn = vlib.validate('TunnelTrace', 'TunnelTrace.cfg', obs)
        for i in sorted(rej)[:5]:
            again = play(i)
            if not vlib.validate('TunnelTrace', 'TunnelTrace.cfg', [again])[0]:
                c.log('not reproduced: %s' % obs[i][-6:])
                continue
            c.violation('tunnel', 'an upgraded connection lost, changed or reordered bytes or an end', {'plan': {x: [len(y) for y in v] for x, v in plans[i]['data'].items()}, 'first': plans[i]['first'], 'events': again[-60:], 'refused': vlib.stuck('TunnelTrace', 'TunnelTrace.cfg', again)})
    stub.stop()
    c.cov['states'] += ds
    c.cov['transitions'] += gn
    c.cov['traces_validated_against_impl'] += n
    c.note(upgraded_connections=n)


def main(c):
    r = c.rng
    c.model(vlib.tlc('RelayMC', 'RelayMC.cfg', want_ok=True), 'Relay: all scenarios')
    c.model(vlib.tlc('ForwardMC', 'ForwardMC4.cfg' if c.thorough else 'ForwardMC.cfg', want_ok=True), 'Forward: all header lists')
    c.model(vlib.tlc('TunnelMC', 'TunnelMC.cfg', want_ok=True), 'Tunnel')
    for m, cf in (('RelayMC', 'RelayBug.cfg'), ('ForwardMC', 'ForwardVac.cfg'), ('TunnelMC', 'TunnelVac.cfg')):
        if vlib.tlc(m, cf).ok:
            raise vlib.Broken('vacuity ' + cf)
    forwarding(c)
    tunnels(c)
    scs = [faulty(r) for _ in range(12000 if c.thorough else 2000)]
    obs, jobs, be = c02.run_set(c, scs, name='fault')
    res = {}
    for o in obs:
        k = '%s %s' % (o['sc']['proto'], 'truncated' if o['obs']['trunc'] else o['obs']['st'] // 100)
        res[k] = res.get(k, 0) + 1
    c.note(faulty_responses=len(obs), outcomes=res)
    c.sample(obs[0])


if __name__ == '__main__':
    vlib.main('C08', main)
