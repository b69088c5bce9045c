#!/usr/bin/env python3
"""C02: every response is framed so that its end is certain (spec/Relay.tla)"""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, relay

STATUS = [200, 200, 200, 201, 203, 204, 205, 206, 299, 300, 301, 304, 307, 400, 403, 404, 410, 418, 500, 501, 503, 599, 600, 999]
ODD = [1, 42, 99, 100, 101, 102, 103, 199, 1000]


def scenario(r, i):
    proto = r.choice(['direct', 'direct', 'proxy', 'scgi', 'fcgi'])
    sc = {'meth': r.choice(['GET', 'GET', 'GET', 'HEAD']), 'ver': r.choice([10, 11, 11]), 'ka': r.random() < .65, 'proto': proto, 'head': 'ok', 'te': '', 'cl': -1, 'v10ka': False, 'term': 'eof'}
    sc['status'] = r.choice(STATUS)
    sc['p'] = [r.choice([1, 2, 3, 10, 16, 100, 1000, 40000]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    n = sum(sc['p'])
    if proto == 'direct':
        sc['p'] = r.choice([[], [5], [5]])
        return sc
    if r.random() < .06 and proto != 'proxy':
        sc['status'] = r.choice(ODD)
    if r.random() < .25:
        sc['te'] = 'chunked'
        sc['term'] = 'last'
        if proto == 'fcgi':
            sc['term'] = 'lastend'
    else:
        if proto == 'fcgi':
            sc['term'] = 'end'
        if r.random() < .5:
            sc['cl'] = n
            if proto == 'proxy' and r.random() < .3:
                sc['term'] = 'open'
            if proto != 'proxy' and sc['ver'] == 11 and sc['ka'] and r.random() < .4:      # a Content-Length the backend does not keep
                sc['cl'] = max(0, n + r.choice([-1, 1, 100]))
        elif proto == 'proxy' and sc['ver'] and r.random() < .2:
            sc['v10'] = True
    return sc


def headers(r):
    return [(r.choice([b'X-A', b'X-B', b'x-c', b'X-Long-Name']), bytes(r.choice(b'abcXYZ019 ,;=/()<>') for _ in range(r.randint(1, 20))).strip() or b'v') for _ in range(r.choice([0, 1, 2, 4]))]


def expect_hs(hs):
    return ['%s: %s' % (k.decode().lower(), v.decode()) for k, v in hs]


def direct_conf():
    out = ''
    for s in sorted(set(STATUS)):
        out += 'if req.path == "/d/%de" { respond %d => ""; }\nif req.path == "/d/%dt" { header.add "X-D" => "1"; respond %d => "hello"; }\n' % (s, s, s, s)
    return out


def run_set(c, scs, conf_extra='', name='s', modules=('mod_proxy', 'mod_scgi', 'mod_fastcgi')):
    r = c.rng
    be = relay.Scripted()
    jobs = []
    for k, sc in enumerate(scs):
        hs = headers(r)
        if sc['proto'] == 'direct':
            t = 'e' if not sc['p'] else 't'
            jobs.append((k, sc, [(b'X-D', b'1')] if t == 't' else [], b'/d/%d%s' % (sc['status'], t.encode()), b'hello'))
            continue
        scr, total = relay.script(r, k, sc, hs)
        be.scripts[k] = scr
        jobs.append((k, sc, hs, b'/%s/%d' % (sc['proto'].encode(), k), total))
    conf = direct_conf() + '''
if req.path == "/next" { respond 200 => "next"; }
if req.path =^ "/proxy/" { proxy "%s"; }
else if req.path =^ "/scgi/" { scgi "%s"; }
else if req.path =^ "/fcgi/" { fastcgi "%s"; }
''' % (be.proxy.addr, be.scgi.addr, be.fcgi.addr) + conf_extra
    with vlib.Server(conf, list(modules), name=name) as srv:
        addr = ('127.0.0.1', srv.port)
        budget = [8]

        def one(j):
            k, sc, hs, path, total = j
            if budget[0] <= 0:
                return None
            o = relay.fetch(addr, sc, path, total)
            if o['next'] in ('open', 'silent'):
                budget[0] -= 1
            s = {x: y for x, y in sc.items() if x != 'v10'}
            return {'sc': s, 'hs': expect_hs(hs), 'obs': o}
        obs = vlib.parallel(one, jobs, 16)
        idx = [i for i, o in enumerate(obs) if o]
        rej, ds, gn = vlib.validate('RelayTrace', 'RelayTrace.cfg', [obs[i] for i in idx], batch=6000)
        for n in sorted(rej)[:12]:
            i = idx[n]
            budget[0] = 5
            again = one(jobs[i])
            if not vlib.validate('RelayTrace', 'RelayTrace.cfg', [again])[0]:
                c.log('not reproduced: %s' % obs[i])
                continue
            key = 'response'
            c.violation(key, '%s -> %s' % (again['sc'], again['obs']), {'scenario': again['sc'], 'headers': again['hs'], 'observed': again['obs'], 'script': [(a, repr(b)[:600]) for a, b in be.scripts.get(jobs[i][0], [])]})
        if not srv.alive():
            c.violation('server-died', 'the worker crashed', {'log': srv.log()[-2000:]})
        for e in be.errors[:3]:
            c.violation('backend-protocol', 'a backend received a malformed request: %s' % (e,), {'error': e})
    be.stop()
    c.cov['states'] += ds
    c.cov['transitions'] += gn
    c.cov['traces_validated_against_impl'] += len(idx)
    return [obs[i] for i in idx], jobs, be


def main(c):
    r = c.rng
    c.model(vlib.tlc('RelayMC', 'RelayMC.cfg', want_ok=True), 'Relay: all scenarios')
    if vlib.tlc('RelayMC', 'RelayBug.cfg').ok or vlib.tlc('RelayMC', 'RelayVac.cfg').ok:
        raise vlib.Broken('vacuity')
    scs = [scenario(r, i) for i in range(20000 if c.thorough else 2500)]
    for s in sorted(set(STATUS)):
        for m in ('GET', 'HEAD'):
            for ver in (10, 11):
                for ka in (True, False):
                    for proto, p in (('direct', []), ('direct', [5]), ('scgi', []), ('scgi', [7]), ('proxy', [7])):
                        scs.append({'meth': m, 'ver': ver, 'ka': ka, 'proto': proto, 'head': 'ok', 'te': '', 'cl': -1, 'v10ka': False, 'term': 'eof', 'status': s, 'p': p})
    obs, jobs, be = run_set(c, scs)
    fr = {}
    for o in obs:
        fr[o['obs']['fr']] = fr.get(o['obs']['fr'], 0) + 1
    c.note(responses=len(obs), framings=fr)
    c.sample(obs[0])


if __name__ == '__main__':
    vlib.main('C02', main)
