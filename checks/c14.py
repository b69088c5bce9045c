"""C14: connection and request limits (spec/Limit.tla)"""
import os, sys, time, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, hold

OK = b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok'


def program(r, timed):
    n = r.choice([1, 1, 2, 2, 3])
    p = []
    for i in range(n):
        t = r.choice(['req', 'req_ip']) if timed and (i == 0 or r.random() < .5) else r.choice(['con', 'con_ip'])
        if p and r.random() < .12:
            p.append(dict(r.choice(p)))
            continue
        p.append({'t': t, 'lim': r.choice([1, 1, 2, 2, 3, 4]), 'act': r.choice(['none', 'none', 'resp', 'pass']), 'ctx': i + 1})
    return p


def conf_of(k, p, backend):
    """the same ctx: one action value used twice"""
    defs, use = [], []
    seen = set()
    for i, st in enumerate(p):
        a = {'none': '', 'resp': ' => { respond 418 => "%d"; }' % st['ctx'], 'pass': ' => { header.add "X-Limit" => "%d"; req_header.add "X-Limit" => "%d"; }' % (st['ctx'], st['ctx'])}[st['act']]
        if sum(x['ctx'] == st['ctx'] for x in p) > 1:
            if st['ctx'] not in seen:
                defs.append('l%d_%d = { limit.%s %d%s; };' % (k, st['ctx'], st['t'], st['lim'], a))
                seen.add(st['ctx'])
            use.append('l%d_%d;' % (k, st['ctx']))
        else:
            use.append('limit.%s %d%s;' % (st['t'], st['lim'], a))
    return '\n'.join(defs), 'if req.path =^ "/p%d/" {\n%s\n}\n' % (k, '\n'.join(use))


class Scenario:
    def __init__(self, r, k, timed, ips, n):
        self.k = k
        self.prog = program(r, timed)
        self.timed = timed
        self.ops = []
        for _ in range(n):
            x = r.random()
            if x < (.85 if timed else .45):
                m = 1 if r.random() < .6 else r.randint(2, 5)
                self.ops.append(('start', [r.choice(ips) for _ in range(m)], r.random() < .4))
            elif x < (.9 if timed else .97):
                self.ops.append(('end', r.random(), r.choice(['ok', 'ok', 'ok', 'abort', 'abort', 'close', 'rst'])))
            if timed:
                self.ops.append(('sleep', r.choice([0, 0, 0, .05, .2, .45, 1.7, 1.7])))
        # everything ends; then the limits are free again
        self.ops.append(('endall',))
        self.ops.append(('start', [ips[0]] * 3, False))


def play(sc, addrs, back, tag, slow=1):
    """returns the trace"""
    cl = {}
    free = {}
    ev = []
    ctr = 0
    t00 = time.time()

    def end(r, how):
        c, ip = cl.pop(r)
        if how == 'abort':
            c.abort()
            hold.until(lambda: back.gone(r), 5)
        else:
            back.act(r, {'ok': OK}.get(how, how))
            hold.until(lambda: c.poll() or c.st.eof, 8)
            if (how == 'ok' or not c.st.eof) and (c.resp is None or (how == 'ok' and c.resp.get('status') != 200)):
                ev.append({'op': 'bad', 'what': 'answer %s' % c.resp})
            if how == 'ok' and not c.st.eof:
                free.setdefault(ip, []).append(c)
            else:
                c.st.close()
        time.sleep(.03 * slow)
        ev.append({'op': 'end', 'r': r})
    for op in sc.ops:
        if op[0] == 'sleep':
            time.sleep(op[1])
        elif op[0] == 'start':
            qs = []
            for ip in op[1]:
                r = '%s-%d' % (tag, ctr)
                ctr += 1
                c = free[ip].pop() if op[2] and free.get(ip) else hold.Client(addrs[ip], None if ip == 'six' else ip)
                qs.append((r, ip, c))
            lo = int((time.time() - t00) * 1000) - 2
            th = [threading.Thread(target=c.send, args=('/p%d/%s' % (sc.k, r),)) for r, ip, c in qs]
            for x in th:
                x.start()
            for x in th:
                x.join()
            rs = []
            for r, ip, c in qs:
                hold.until(lambda: back.arrived(r) or c.poll(), 10)
                q = {'r': r, 'ip': ip, 'res': 'lost', 'at': 0, 'marks': []}
                if back.arrived(r):
                    q['res'] = 'backend'
                    cl[r] = (c, ip)
                    q['marks'] = marks([v.decode('latin1') for n, v in back.reqs[r][0]['hs'] if n.lower() == b'x-limit'])
                elif c.resp is not None and c.resp.get('status') in (503, 418):
                    q['res'] = '503' if c.resp['status'] == 503 else 'resp'
                    q['marks'] = marks(c.resp['h'].get('x-limit') or [])
                    if q['res'] == 'resp':
                        q['at'] = int(c.resp['body'])
                    if not c.st.eof:
                        free.setdefault(ip, []).append(c)
                elif c.resp is not None:
                    q['res'] = 'status %s' % c.resp.get('status')
                rs.append(q)
            ev.append({'op': 'start', 'reqs': rs, 'lo': lo, 'hi': int((time.time() - t00) * 1000) + 2})
            time.sleep(.02 * slow)
        elif op[0] == 'end' and cl:
            end(sorted(cl)[int(op[1] * len(cl))], op[2])
        elif op[0] == 'endall':
            for r in sorted(cl):
                end(r, 'ok')
    for r in sorted(cl):
        end(r, 'ok')
    for l in free.values():
        for c in l:
            c.st.close()
    return ev


def marks(vs):
    return [int(x) for v in vs for x in v.split(',')]


def run(c):
    r = c.rng
    for n in range(1, 8):
        c.model(vlib.tlc('LimitMC', 'LimitMC%d.cfg' % n, want_ok=True), 'Limit (program %d)' % n)
    for cfg in ('LimitBug.cfg', 'LimitVac.cfg'):
        if vlib.tlc('LimitMC', cfg).ok:
            raise vlib.Broken('vacuity: ' + cfg)
    back = hold.Hold()
    six = ipv6()
    ips = ['127.0.0.1', '127.0.0.2', '127.0.7.1'] + (['six'] if six else [])
    total = []
    for workers, n, nt in ((1, 24, 24), (3, 24, 16)) if not c.thorough else ((1, 200, 200), (3, 200, 100), (8, 100, 50)):
        scs = [Scenario(r, k, k >= n, ips, r.randint(6, 22) if k < n else r.randint(6, 14)) for k in range(n + nt)]
        confs = [conf_of(s.k, s.prog, back) for s in scs]
        srv = vlib.Server('keepalive.timeout 300;\n' + '\n'.join(x[0] for x in confs) + '\n' + '\n'.join(x[1] for x in confs) + 'proxy "%s";\n' % back.addr, ['mod_limit', 'mod_proxy'], workers=workers)
        p6 = vlib.free_port()
        if six:
            srv.conf = srv.conf.replace('setup {\n', 'setup {\nlisten "[::1]:%d";\n' % p6, 1)
        with srv:
            addrs = {ip: (srv.ip, srv.port) for ip in ips}
            addrs['six'] = ('::1', p6)
            evs = vlib.parallel(lambda s: play(s, addrs, back, 'w%dk%d' % (workers, s.k)), scs, 24)
            if not srv.alive():
                raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
            tr = [{'prog': s.prog, 'ev': e} for s, e in zip(scs, evs)]
            rej, d, g = vlib.validate('LimitTrace', 'LimitTrace.cfg', tr)
            c.cov['states'] += d
            c.cov['transitions'] += g
            c.cov['traces_validated_against_impl'] += len(tr)
            total += tr
            if rej:
                c.log('%d rejected, repeating' % len(rej))
            bad = []
            for j in range(2):
                idx = sorted(rej)[:12] if j == 0 else bad
                if not idx:
                    break
                # another program number is not available: the limits are free again after each scenario, timed ones after two seconds
                time.sleep(2)
                evs2 = vlib.parallel(lambda i: play(scs[i], addrs, back, 'w%dk%dr%d' % (workers, scs[i].k, j), 4), idx, 12)
                tr2 = [{'prog': scs[i].prog, 'ev': e} for i, e in zip(idx, evs2)]
                rej2, _, _ = vlib.validate('LimitTrace', 'LimitTrace.cfg', tr2)
                bad = [idx[x] for x in sorted(rej2)]
                keep = {idx[x]: tr2[x] for x in rej2}
            for i in bad[:6]:
                n_ = vlib.stuck('LimitTrace', 'LimitTrace.cfg', keep[i])
                c.violation('limit', 'history refused near step %d: %s %s' % (n_, confs[scs[i].k], keep[i]['ev']), {'config': confs[scs[i].k], 'history': keep[i]})
            if not srv.alive():
                raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
    c.note(requests=sum(len(e.get('reqs', [])) for t in total for e in t['ev']), scenarios=len(total),
           refused=sum(q['res'] in ('503', 'resp') for t in total for e in t['ev'] for q in e.get('reqs', [])))
    c.sample(total[0])
    back.stop()


def ipv6():
    import socket
    try:
        s = socket.socket(socket.AF_INET6)
        s.bind(('::1', 0))
        s.close()
        return True
    except OSError:
        return False


vlib.main('C14', run)
