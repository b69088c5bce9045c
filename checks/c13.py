"""C13: authentication (spec/Auth.tla)"""
import os, sys, time, base64, hashlib, subprocess, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib, http1
warnings.simplefilter('ignore')
import crypt

USERS = ['a', 'bob', 'alice', 'bo', 'user name', 'b\xfcb', 'Bob', 'x.y@z', 'a' * 70]
PWS = ['', 'p', 'secret', 'pa:ss', 'longer-than-sixteen-characters', '12345678', '123456789', '\xe4\xf6', 'exactly16bytes!!', 'Secret', 'x' * 200, ' p', ':', 'a$b']
REALMS = ['R', 'members only', 'members', 'x-y', 'memb']


def o(s):
    return list(s.encode())


def to64(v, n):
    s = ''
    for _ in range(n):
        s += './0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'[v & 63]
        v >>= 6
    return s


def apr1(pw, salt):
    p, s = pw.encode(), salt[:8].split('$')[0].encode()
    m = hashlib.md5
    f = m(p + s + p).digest()
    c = p + b'$apr1$' + s + (f * (len(p) // 16 + 1))[:len(p)]
    i = len(p)
    while i:
        c += b'\0' if i & 1 else p[:1]
        i >>= 1
    f = m(c).digest()
    for i in range(1000):
        c = p if i & 1 else f
        if i % 3:
            c += s
        if i % 7:
            c += p
        c += f if i & 1 else p
        f = m(c).digest()
    g = lambda a, b, d: to64(f[a] << 16 | f[b] << 8 | f[d], 4)
    return '$apr1$%s$' % s.decode() + g(0, 6, 12) + g(1, 7, 13) + g(2, 8, 14) + g(3, 9, 15) + g(4, 10, 5) + to64(f[11], 2)


def sha(pw):
    return '{SHA}' + base64.b64encode(hashlib.sha1(pw.encode()).digest()).decode()


VC = {}


def verify(h, p):
    k = (h, p)
    if k not in VC:
        if h.startswith('$apr1$'):
            r = apr1(p, h[6:]) == h
        elif h.startswith('{SHA}'):
            r = sha(p) == h
        else:
            try:
                r = crypt.crypt(p, h) == h
            except OSError:
                r = False
        VC[k] = r
    return VC[k]


def mkhash(r, pw):
    salt = ''.join(r.choice('abcdefgh01234./') for _ in range(8))
    k = r.choice(['des', 'md5', 'sha256', 'sha512', 'apr1', 'apr1', 'sha', 'sha', 'junk'])
    if k == 'des':
        return crypt.crypt(pw, salt[:2])
    if k == 'md5':
        return crypt.crypt(pw, '$1$%s$' % salt)
    if k == 'sha256':
        return crypt.crypt(pw, '$5$rounds=1000$%s$' % salt)
    if k == 'sha512':
        return crypt.crypt(pw, '$6$rounds=1000$%s$' % salt)
    if k == 'apr1':
        return apr1(pw, salt[:r.choice([1, 3, 8, 8])])
    if k == 'sha':
        return sha(pw)
    return r.choice(['', 'x', '*', '$apr1$', '{SHA}', '$1$', pw, '$apr1$' + salt, '*0', '!', sha(pw)[:-1], sha(pw) + ' '])


def md5d(u, realm, p):
    return hashlib.md5(('%s:%s:%s' % (u, realm, p)).encode()).hexdigest()


class File:
    """random password file; self.text, self.creds (user, password) interesting to try"""

    def __init__(self, r, kind, realm, users=None):
        self.creds = []
        ls = []
        for u in users or r.sample(USERS, r.randint(0, 4)):
            p = r.choice(PWS)
            self.creds.append((u, p))
            if kind == 'plain':
                ls.append('%s:%s' % (u, p))
            elif kind == 'htpasswd':
                ls.append('%s:%s' % (u, mkhash(r, p)))
            else:
                fr = realm if r.random() < .7 else r.choice(REALMS + ['', realm + ' ', realm + 'x'])
                hr = r.choice([realm, realm, fr])
                ls.append('%s:%s:%s' % (u, fr, md5d(u, hr, p) if r.random() < .9 else r.choice(['', p, md5d(u, hr, p).upper(), md5d(u, hr, p)[:-1]])))
        nl = r.choice(['\n', '\n', '\r\n', '\n\n'])
        self.text = nl.join(ls) + (nl if ls and r.random() < .7 else '')


def worlds_static(r, n):
    out = []
    for _ in range(n):
        acts, files, creds = [], [], [('', ''), ('a', 'p')]
        for i in range(r.choice([1, 1, 2, 3])):
            kind = r.choice(['plain', 'htpasswd', 'htpasswd', 'htdigest'])
            realm = r.choice(REALMS)
            f = File(r, kind, realm, users=r.sample([c[0] for c in creds if c[0]], 1) if i and r.random() < .4 else None)
            acts.append({'kind': kind, 'realm': realm, 'ttl': r.choice([0, 10, 10]), 'file': i + 1})
            files.append([f.text])
            creds += f.creds
        progs = []
        for _ in range(r.choice([1, 2, 3])):
            p = []
            for _ in range(r.randint(1, 3)):
                x = r.random()
                if x < .6 or not p:
                    p.append({'k': 'auth', 'n': r.randint(1, len(acts))})
                elif x < .85:
                    p.append({'k': 'only', 'us': r.sample([c[0] for c in creds] + ['zz'], r.randint(1, 2))})
                elif x < .92:
                    p.append({'k': 'deny'})
                else:
                    p.append({'k': 'answer', 'n': r.randint(2, 9)})
            progs.append(p + [{'k': 'answer', 'n': 1}])
        out.append({'acts': acts, 'files': files, 'creds': creds, 'progs': progs})
    return out


def header(r, creds):
    """Authorization value (or None) and what it means"""
    no = {'ok': False, 'u': '', 'p': ''}
    x = r.random()
    if x < .06:
        return None, no
    if x < .14:
        return r.choice(['Basic', 'Basic ', 'Bearer abc', 'Digest username="a"', 'Basic !!!!', 'Basic ' + base64.b64encode(b'nocolon').decode(), 'Basi c', 'Basicx', 'Basic %%%', 'NTLM TlRM', 'a:p']), no
    u, p = r.choice(creds)
    y = r.random()
    if y < .5:
        pass
    elif y < .65:
        p = r.choice(PWS)
    elif y < .75:
        u = r.choice(USERS + ['', 'nobody'])
    elif y < .95:
        p = r.choice([p + 'x', p[:-1], p.upper(), p + ':', ':' + p, p + ' ', p[:8], p[:8] + 'zz', p + p])
    else:
        u = r.choice([u + 'x', u[:-1], u.upper()])
    if ':' in u:
        u = u.replace(':', '')
    return 'Basic ' + base64.b64encode(('%s:%s' % (u, p)).encode()).decode(), {'ok': True, 'u': u, 'p': p}


def cfg_str(s):
    return '"' + ''.join('\\x%02x' % b if b < 32 or b > 126 else '\\' + chr(b) if b in b'"\\' else chr(b) for b in s.encode()) + '"'


def conf_world(k, w, d):
    out = []
    for j, p in enumerate(w['progs']):
        b = ''
        for x in p:
            if x['k'] == 'auth':
                a = w['acts'][x['n'] - 1]
                b += 'a%d_%d;' % (k, x['n'])
            elif x['k'] == 'deny':
                b += ' auth.deny;'
            elif x['k'] == 'only':
                b += ' if %s { auth.deny; }' % ' and '.join('req.env["REMOTE_USER"] != %s' % cfg_str(u) for u in x['us'])
            else:
                b += ' respond 200 => "R%d";' % x['n']
        out.append('"%d.%d" => { %s }' % (k, j, b))
    pre = ''.join('a%d_%d = { auth.%s ["method" => "basic", "realm" => %s, "file" => "%s/f%d_%d"%s]; };\n' % (k, i + 1, a['kind'], cfg_str(a['realm']), d, k, a['file'], ', "ttl" => %d' % a['ttl'] if a['ttl'] != 10 else '') for i, a in enumerate(w['acts']))
    return pre, out


def enc(w, ver):
    return {'acts': [dict(a, realm=o(a['realm'])) for a in w['acts']], 'files': [[{'f': o(v[0]), 'lo': v[1], 'hi': v[2]} for v in f] for f in w['vers']], 'ver': ver}


def encp(p):
    return [dict(x, us=[o(u) for u in x['us']]) if x['k'] == 'only' else x for x in p]


def facts(w, creds):
    """the hash facts between the entries of the files and the passwords tried"""
    pw, dg = [], []
    us = {(c['u'], c['p']) for c in creds if c['ok']}
    for a in w['acts']:
        for v in w['vers'][a['file'] - 1]:
            for line in v[0].replace('\r', '\n').split('\n'):
                if ':' not in line:
                    continue
                u, e = line.split(':', 1)
                for cu, cp in us:
                    if cu != u:
                        continue
                    if a['kind'] == 'htpasswd' and e and verify(e, cp):
                        pw.append({'h': o(e), 'p': o(cp)})
                    if a['kind'] == 'htdigest':
                        dg.append({'u': o(cu), 'r': o(a['realm']), 'p': o(cp), 'h': o(md5d(cu, a['realm'], cp))})
    f = lambda l: [dict(zip(l[0].keys(), map(list, t))) for t in sorted({tuple(tuple(x) for x in y.values()) for y in l})] if l else []
    return {'pw': f(pw), 'dg': f(dg)}


def raw(j):
    return ('GET / HTTP/1.1\r\nHost: x\r\nX-P: %d.%d\r\n' % (j['w'], j['p']) + ('Authorization: %s\r\n' % j['h'] if j['h'] is not None else '') + '\r\n').encode()


def observe(j, x, lo=0, hi=0):
    e = {'cred': {'ok': j['c']['ok'], 'u': o(j['c']['u']), 'p': o(j['c']['p'])}, 'lo': lo, 'hi': hi, 'st': 0, 'user': [], 'type': False, 'realm': [], 'by': 0}
    if x is None or x['bad']:
        return e
    g = lambda k: (x['h'].get(k) or ['[]'])[0][1:-1]
    b = x['body']
    e.update(st=x['status'], user=list(g('x-user').encode('latin1')), type=g('x-type') == 'Basic', realm=[list(v.encode('latin1')) for v in x['h'].get('www-authenticate', [])], by=int(b[1:]) if b[:1] == b'R' and b[1:].isdigit() else 0)
    return e


TAIL = 'header.add "X-User" => "[%{req.env[REMOTE_USER]}]"; header.add "X-Type" => "[%{req.env[AUTH_TYPE]}]";\n'


def static(c, rng):
    ws = worlds_static(rng, 400 if c.thorough else 110)
    srv = vlib.Server('', modules=['mod_auth'], name='c13', workers=3)
    srv.conf += 'keepalive.timeout 60;\n'
    os.makedirs(srv.dir, exist_ok=True)
    pre, maps, jobs = '', [], []
    for k, w in enumerate(ws, 1):
        w['vers'] = [[(t, 0, 0) for t in f] for f in w['files']]
        for i, f in enumerate(w['files']):
            with open('%s/f%d_%d' % (srv.dir, k, i + 1), 'wb') as fh:
                fh.write(f[0].encode())
        a, b = conf_world(k, w, srv.dir)
        pre += a
        maps += b
        for _ in range(60 if c.thorough else 40):
            h, cr = header(rng, w['creds'])
            jobs.append({'w': k, 'p': rng.randrange(len(w['progs'])), 'h': h, 'c': cr})
    srv.conf += pre + 'map "%{req.header[x-p]}" => [\n' + ',\n'.join(maps) + '];\n' + TAIL
    wp = os.path.join(vlib.scratch(), 'authw.ndjson')
    vlib.write_ndjson(wp, [enc(w, facts(w, [j['c'] for j in jobs if j['w'] == k])) for k, w in enumerate(ws, 1)])
    rng.shuffle(jobs)
    with srv:
        play = http1.Player((srv.ip, srv.port), raw, lambda j: 'GET')
        parts = [jobs[i:i + 25] for i in range(0, len(jobs), 25)]
        res = [x for p in vlib.parallel(lambda p: play(p), parts, 16) for x in p]
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
        tr = [{'w': j['w'], 'prog': encp(ws[j['w'] - 1]['progs'][j['p']]), 'ev': [observe(j, x)]} for j, x in zip(jobs, res)]
        c.log('%d requests on %d static worlds' % (len(jobs), len(ws)))
        rej, d, g = vlib.validate('AuthTrace', 'AuthTrace.cfg', tr, batch=20000, env={'WORLDS': wp})
        c.cov['states'] += d
        c.cov['transitions'] += g
        c.cov['traces_validated_against_impl'] += len(tr)
        st = {}
        for t in tr:
            st[t['ev'][0]['st']] = st.get(t['ev'][0]['st'], 0) + 1
        c.note(static_statuses=st)
        idx = sorted(rej)[:40]
        if idx:
            c.log('%d rejected, repeating' % len(rej))
            tr2 = [{'w': jobs[i]['w'], 'prog': tr[i]['prog'], 'ev': [observe(jobs[i], play([jobs[i]])[0])]} for i in idx]
            rej2, _, _ = vlib.validate('AuthTrace', 'AuthTrace.cfg', tr2, env={'WORLDS': wp})
            for x in sorted(rej2)[:8]:
                j = jobs[idx[x]]
                w = ws[j['w'] - 1]
                c.violation('auth', 'program %s with %s and files %r: credentials %r give %s' % (w['progs'][j['p']], [(a['kind'], a['realm']) for a in w['acts']], w['files'], j['c'], {k: v if k != 'user' else bytes(v) for k, v in tr2[x]['ev'][0].items() if k not in ('cred', 'realm')}), {'world': {k: w[k] for k in ('acts', 'files', 'progs')}, 'request': raw(j).decode(), 'observed': tr2[x]['ev'][0]})
            if len(rej) > 2 and not rej2:
                j = jobs[idx[0]]
                c.violation('auth-concurrent', '%d decisions wrong only under concurrent load, e.g. %r -> %s' % (len(rej), j['c'], tr[idx[0]]['ev'][0]['st']), {'request': raw(j).decode(), 'observed': tr[idx[0]]['ev'][0]})
        c.sample({'files': ws[0]['files'], 'acts': ws[0]['acts'], 'request': raw(jobs[0]).decode(), 'status': tr[0]['ev'][0]['st']})


def put(path, text):
    t = path + '.new'
    with open(t, 'wb') as f:
        f.write(text.encode())
    os.rename(t, path)


def dynamic(c, rng, only=None):
    """files change while requests come in"""
    n = 40 if c.thorough else 16
    ws, plans = [], []
    for _ in range(n):
        kind = rng.choice(['plain', 'plain', 'htpasswd', 'htdigest'])
        realm = rng.choice(REALMS)
        ttl = rng.choice([0, 1, 1, 2])
        us = rng.sample(USERS[:5], 2)
        vs = []
        for i in range(6):
            f = File(rng, kind, realm, users=us[:rng.choice([1, 2, 2])] if rng.random() < .8 else us[1:])
            vs.append((f.text if f.text.strip() and (i == 0 or rng.random() < .85) else f.text + 'junk-without-delimiter\n' if i else f.text, f.creds))
        ws.append({'acts': [{'kind': kind, 'realm': realm, 'ttl': ttl, 'file': 1}], 'progs': [[{'k': 'auth', 'n': 1}, {'k': 'answer', 'n': 1}]], 'vers': [], 'files': [[vs[0][0]]]})
        plan = []
        known = [x for v in vs for x in v[1]]
        i = 1
        for _ in range(26):
            x = rng.random()
            if x < .25 and i < len(vs):
                plan.append(('write', vs[i][0]))
                i += 1
            elif x < .45:
                plan.append(('sleep', rng.choice([.1, .3, .7, 1.1, 1.6, 2.4])))
            else:
                u, p = rng.choice(known)
                plan.append(('req', 'Basic ' + base64.b64encode(('%s:%s' % (u, p)).encode()).decode(), {'ok': True, 'u': u, 'p': p}))
        plan += [('sleep', 2.5)] + [('req', 'Basic ' + base64.b64encode(('%s:%s' % (u, p)).encode()).decode(), {'ok': True, 'u': u, 'p': p}) for u, p in known[:6]]
        plans.append(plan)
    srv = vlib.Server('', modules=['mod_auth'], name='c13d', workers=2)
    srv.conf += 'keepalive.timeout 60;\n'
    os.makedirs(srv.dir, exist_ok=True)
    pre, maps = '', []
    for k, w in enumerate(ws, 1):
        put('%s/f%d_1' % (srv.dir, k), w['files'][0][0])
        a, b = conf_world(k, w, srv.dir)
        pre += a
        maps += b
    srv.conf += pre + 'map "%{req.header[x-p]}" => [\n' + ',\n'.join(maps) + '];\n' + TAIL
    t0 = time.time()
    now = lambda: int((time.time() - t0) * 1000)
    with srv:
        def go(k):
            w = ws[k - 1]
            vers = [(w['files'][0][0], 0, 0)]
            ev = []
            for op in plans[k - 1]:
                if op[0] == 'sleep':
                    time.sleep(op[1])
                elif op[0] == 'write':
                    lo = now() - 5
                    put('%s/f%d_1' % (srv.dir, k), op[1])
                    vers.append((op[1], lo, now() + 5))
                else:
                    j = {'w': k, 'p': 0, 'h': op[1], 'c': op[2]}
                    lo = now() - 5
                    pl = http1.Player((srv.ip, srv.port), raw, lambda j: 'GET')
                    x = pl([j])[0]
                    ev.append(observe(j, x, lo, now() + 5))
            w['vers'] = [vers]
            return {'w': k, 'prog': encp(w['progs'][0]), 'ev': ev}
        tr = vlib.parallel(go, list(range(1, n + 1)), n)
        if not srv.alive():
            raise vlib.ServerDied('worker died: ' + srv.log()[-2000:])
    wp = os.path.join(vlib.scratch(), 'authd.ndjson')
    vlib.write_ndjson(wp, [enc(w, facts(w, [{'ok': True, 'u': bytes(e['cred']['u']).decode(), 'p': bytes(e['cred']['p']).decode()} for e in t['ev']])) for w, t in zip(ws, tr)])
    rej, d, g = vlib.validate('AuthTrace', 'AuthTrace.cfg', tr, env={'WORLDS': wp})
    c.cov['states'] += d
    c.cov['transitions'] += g
    c.cov['traces_validated_against_impl'] += len(tr)
    c.note(dynamic_worlds=n, dynamic_requests=sum(len(t['ev']) for t in tr), versions=sum(len(w['vers'][0]) for w in ws))
    out = []
    for x in sorted(rej):
        k = vlib.stuck('AuthTrace', 'AuthTrace.cfg', tr[x], env={'WORLDS': wp})
        e = tr[x]['ev'][k - 1] if 0 < k <= len(tr[x]['ev']) else {}
        out.append((ws[x], tr[x], k, e))
    return out


def malformed(c, rng):
    """unreadable files and unsupported parameters are refused when the configuration is loaded"""
    d = vlib.scratch()
    p = os.path.join(d, 'pf')
    n = 0
    for kind in ('plain', 'htpasswd', 'htdigest'):
        for text, ok in (('a:b\n', kind != 'htdigest'), ('a:R:b\n', True), ('a\n', False), ('a:R:b\nbc\n', False), ('', True), (None, False), ('a:R:b\n\nc:R:d', True), ('bob\n:x:y\n', False), ('a:R:b\nbc\n:x:y\nz:z:z\n', False)):
            if text is None:
                if os.path.exists(p):
                    os.unlink(p)
            else:
                with open(p, 'w') as f:
                    f.write(text)
            for par, pok in (('"method" => "basic", "realm" => "R", "file" => "%s"' % p, True), ('"method" => "digest", "realm" => "R", "file" => "%s"' % p, False), ('"method" => "basic", "realm" => "R"', False), ('"method" => "basic", "realm" => "R", "file" => "%s", "ttl" => -1' % p, False)):
                cp = os.path.join(d, 'auth.conf')
                with open(cp, 'w') as f:
                    f.write('setup { module_load "mod_auth"; listen "127.0.0.1:1"; }\nauth.%s [%s];\n' % (kind, par))
                q = subprocess.run([vlib.worker_bin(), '-t', '-m', vlib.mod_dir(), '-c', cp], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                n += 1
                if q.returncode not in (0, 1) or (q.returncode == 0) != (ok and pok):
                    c.violation('auth-config', 'auth.%s [%s] with file %r is %s' % (kind, par, text, 'accepted' if q.returncode == 0 else 'refused (%d)' % q.returncode), {'config': open(cp).read(), 'file': text, 'out': q.stdout.decode('latin1')[-1500:]})
    c.note(configurations=n)


def run(c):
    rng = c.rng
    for f in (0, 1, 2):
        r = vlib.tlc('AuthMC', 'AuthMC%d.cfg' % f, want_ok=True)
        c.model(r, 'AuthMC: reloading with ttl %d against the freshness guarantee, all schedules of 2 changes in 6 ticks' % f)
    if vlib.tlc('AuthMC', 'AuthBug.cfg').ok or vlib.tlc('AuthMC', 'AuthVac.cfg').ok:
        raise vlib.Broken('AuthMC cannot tell a stale password file')
    malformed(c, rng)
    static(c, rng)
    bad = dynamic(c, rng)
    if bad:
        c.log('%d rejected histories, repeating' % len(bad))
        again = dynamic(c, rng)
        for w, t, k, e in again[:6]:
            c.violation('auth-reload', 'event %d: %r on %s gives %s; versions %r' % (k, bytes(e.get('cred', {}).get('u', [])), w['acts'][0], {x: e.get(x) for x in ('lo', 'hi', 'st')}, w['vers'][0]), {'world': {x: w[x] for x in ('acts', 'vers')}, 'trace': t})


vlib.main('C13', run)
