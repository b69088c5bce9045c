#!/usr/bin/env python3
"""C19: responses kept on disk by entity tag (DiskCache) - see DESIGN.md"""
import sys, os, time, random, threading, re, shutil, tempfile, hashlib, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, http1, codec

TEMP = re.compile(r'-[A-Za-z0-9]{6}$')


def models(c):
    c.model(vlib.tlc('DiskCache', 'DiskCache.cfg', want_ok=True), 'DiskCache')
    for b in ('DiskCacheBug1', 'DiskCacheBug2', 'DiskCacheBug3', 'DiskCacheBug4', 'DiskCacheVac'):
        if vlib.tlc('DiskCache', b + '.cfg').ok:
            raise vlib.Broken(b + ' not refuted')


class World:
    """a server (that can be killed and started again) with a cache directory, and the origin"""

    def __init__(self, name, ttl=0):
        self.ttl = ttl
        self.o = codec.Origin()
        self.cache = tempfile.mkdtemp(prefix='cache-', dir=vlib.scratch())
        self.root = tempfile.mkdtemp(prefix='root-', dir=vlib.scratch())
        os.chmod(self.root, 0o755)
        self.name = name
        self.srv = None
        self.start()

    def start(self):
        conf = 'etag.use ["inode", "size", "mtime"];\n'
        conf += 'if req.path =~ "^/./f/" { docroot "%s"; static; } else { proxy "%s"; }\n' % (self.root, self.o.addr)
        conf += 'if request.is_handled {\n if req.path =~ "^/[zd]/" { deflate; }\n'
        conf += ' if req.path =^ "/n/" { cache.disk.etag "%s/file/x"; } else { cache.disk.etag "%s/c"; }\n' % (self.cache, self.cache)
        conf += ' if req.path =^ "/d/" { deflate; }\n}\n'
        open(self.cache + '/file', 'w').write('not a directory')
        self.srv = vlib.Server(conf, ['mod_proxy', 'mod_deflate', 'mod_cache_disk_etag'], name=self.name, setup='stat_cache.ttl %d;\nio.timeout 60;\n' % self.ttl).start()
        self.addr = ('127.0.0.1', self.srv.port)

    def kill(self):
        self.srv.stop(signal.SIGKILL)

    def stop(self):
        self.srv.stop()
        self.o.stop()
        shutil.rmtree(self.cache, True)
        shutil.rmtree(self.root, True)


def body(r, n):
    x = r.randbytes(min(n, 5000))
    return (x * (n // max(1, len(x)) + 1))[:n]


class Hist:
    def __init__(self, w, num, seed):
        self.w, self.num, self.r = w, num, random.Random(seed)
        self.seed = seed
        self.ev = []
        self.bodies = {}        # (res, ver) -> origin's body
        self.k = num * 1000
        self.lock = threading.Lock()
        self.pre = self.r.choice('ccczzdn')
        self.ress = []
        for i in range(self.r.randrange(1, 6)):
            p = '/%s/h%d/%s' % (self.pre, num, self.r.choice(['a', 'a', 'b', 'a-ImEi', 'd/a', 'd/']))
            q = self.r.choice(['', '', '?x=0', '?x=1', '?x=2', '?../../e', '?x=1&y=%2f'])
            self.ress.append((self.r.choice(['x', 'x', 'y.example']), p, q))
        self.ress = list(dict.fromkeys(self.ress))
        self.ver = {x: 1 for x in self.ress}
        self.style = self.r.choice(['"%d"', 'W/"%d"', '"rev/%d+a"', '"\xe9%d"', '"' + 'long' * self.r.randrange(1, 30) + '%d"'])

    def content(self, res, ver):
        if (res, ver) not in self.bodies:
            self.bodies[res, ver] = body(self.r, self.r.choice([0, 1, 100, 5000, 65536, 65537, 200000, 1000000]))
        return self.bodies[res, ver]

    def get(self, res, mode, par=False, gz=None, drop=False):
        """one request; mode: closed, cut, held, err, dup, none (no tag)"""
        with self.lock:
            self.k += 1
            k = self.k
            r = random.Random('%s %d' % (self.seed, k))
            ver = self.ver[res]
            b = self.content(res, ver)
        host, path, q = res
        gz = gz if gz is not None else ''
        if gz and self.pre == 'z':
            key = repr(res) + gz
        else:
            key = repr(res)
        tag = self.style % ver
        fr = r.choice(['length', 'chunked', 'eof']) if mode != 'cut' else r.choice(['length', 'chunked'])
        status = 200
        ex = [('ETag', tag)]
        if mode == 'err':
            status = r.choice([404, 203, 500])
        if mode in ('err', 'dup', 'none'):
            b2 = b'something else ' + str(k).encode() * r.randrange(1, 500)
        if mode == 'dup':
            ex.append(('ETag', '"q"'))
        if mode == 'none':
            ex = []
        data = b2 if mode in ('err', 'dup', 'none') else b
        n = r.randrange(1, 5)
        cuts = sorted(r.randrange(len(data) + 1) for _ in range(n - 1))
        segs = [data[x:y] for x, y in zip([0] + cuts, cuts + [len(data)]) if y > x]
        sent = data
        if mode == 'cut':
            sent = data[:r.randrange(len(data) + 1)]
            segs = [sent] if sent else []
        wire = [b'%x\r\n' % len(s) + s + b'\r\n' for s in segs] if fr == 'chunked' else segs
        if fr == 'chunked' and mode not in ('cut', 'held'):
            wire = wire + [b'0\r\n\r\n']
        if mode == 'cut' and len(sent) == len(data) and fr == 'length':
            n2 = len(data) + 10
        else:
            n2 = len(data)
        self.w.o.add(k, codec.origin_head(fr, n2, ex, status), wire, r.choice(['fin', 'rst']) if mode == 'cut' else 'fin', step=mode == 'held')
        st = http1.Stream(self.w.addr, rcvbuf=4096 if drop else None)
        st.send(('GET %s%s HTTP/1.1\r\nHost: %s\r\nX-K: %d\r\n%s\r\n' % (path, q, host, k, 'Accept-Encoding: %s\r\n' % gz if gz else '')).encode('latin1'))
        rd = codec.Reader(st)
        if drop:                        # the client leaves
            rd.run(lambda x: len(x.dec) >= len(data) // 2, 5)
            st.close()
            self.ev.append(dict(o='leave', res=key, ver=ver))
            return
        rd.run(lambda x: False, 2 if mode == 'held' else 8)
        if mode == 'held' and not data and fr == 'length':
            mode = 'closed'
        if mode == 'held':
            if not rd.complete:         # let it go on
                for _ in range(len(wire) + 2):
                    self.w.o.allow(k)
                rd.run(lambda x: False, 8)
                mode = 'closed'
                if fr == 'chunked':
                    mode = 'cut'
            else:
                for _ in range(len(wire) + 2):
                    self.w.o.allow(k)
        dst = 'bad: ' + rd.bad if rd.bad else 'done' if rd.complete else 'cut' if st.eof else 'hang'
        if mode == 'cut' and (rd.head is None or rd.status >= 500):
            dst = 'cut'
            same = True
        else:
            same = rd.head is not None and data.startswith(bytes(rd.dec))
        full = rd.head is not None and bytes(rd.dec) == data and (not rd.enc or rd.d.finished())
        with self.lock:
            if mode in ('err', 'dup', 'none'):
                self.ev.append(dict(o='err', same=bool(same and full and dst == 'done')))
            else:
                self.ev.append(dict(o='get', res=key, ver=ver, src=mode, dst=dst, full=bool(full), same=bool(same), par=par))
        st.close()

    def files(self):
        """every file kept for this history is one complete body"""
        time.sleep(.05)
        want = set()
        for b in self.bodies.values():
            want.add(b)
        for t in range(40):
            whole, temps, bad = True, 0, []
            d = '%s/c/%s/h%d' % (self.w.cache, self.pre, self.num)
            for p, ds, fs in os.walk(d):
                for f in fs:
                    try:
                        x = open(p + '/' + f, 'rb').read()
                    except OSError:
                        continue
                    if TEMP.search(f):
                        temps += 1
                        continue
                    ok = x in want
                    for e in ('gzip', 'bzip2', 'deflate'):
                        if not ok:
                            try:
                                dd = codec.decoder(e)
                                ok = dd.feed(x) in want and dd.finished() and not dd.rest()
                            except Exception:
                                pass
                    if not ok:
                        whole = False
                        bad.append((f, len(x)))
            if temps <= self.lost:
                break
            time.sleep(.1)
        self.ev.append(dict(o='files', whole=whole, temps=temps))
        self.bad = bad

    lost = 0
    bad = []

    def play(self, killer=False):
        r = self.r
        gzs = ['', 'gzip', 'bzip2'] if self.pre in 'zd' else ['']
        for _ in range(r.randrange(4, 14)):
            res = r.choice(self.ress)
            gz = r.choice(gzs)
            x = r.random()
            if x < .3:
                self.get(res, 'closed', gz=gz)
            elif x < .4:
                self.get(res, 'cut', gz=gz)
            elif x < .5:
                self.get(res, r.choice(['err', 'dup', 'none']), gz=gz)
            elif x < .65 and self.pre != 'n':
                time.sleep(1.3 * self.w.ttl)         # older than the stat cache
                self.get(res, 'held', gz=gz)
            elif x < .75:
                self.ver[res] += 1
            elif x < .8:
                self.content(res, self.ver[res])
                self.get(res, 'closed', gz=gz, drop=True)
                time.sleep(.02)
            else:
                self.content(res, self.ver[res])
                n = r.randrange(2, 5)
                ms = [r.choice(['closed', 'closed', 'closed', 'cut']) for _ in range(n)]
                gs = [r.choice(gzs) for _ in range(n)]
                ts = [threading.Thread(target=self.get, args=(res, m, True, g)) for m, g in zip(ms, gs)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
        if killer:
            n = r.randrange(1, 4)
            sts = []
            for i in range(n):
                res = r.choice(self.ress)
                self.k += 1
                b = self.content(res, self.ver[res])
                cut = r.randrange(len(b) + 1)
                self.w.o.add(self.k, codec.origin_head('length', len(b), [('ETag', self.style % self.ver[res])]), [b[:cut], b[cut:]], 'fin', step=True)
                self.w.o.allow(self.k)
                st = http1.Stream(self.w.addr)
                st.send(('GET %s%s HTTP/1.1\r\nHost: %s\r\nX-K: %d\r\n\r\n' % (res[1], res[2], res[0], self.k)).encode())
                sts.append(st)
            time.sleep(r.choice([0, .005, .05]))
            self.w.kill()
            for st in sts:
                st.close()
            self.w.start()
            self.ev.append(dict(o='kill', n=n))
            self.lost += n
            for res in self.ress:
                self.get(res, 'closed')
                self.get(res, 'closed')
        self.files()
        return dict(ev=self.ev)


def static(w, num, seed):
    """files as the origin, replaced while they are read"""
    r = random.Random(seed)
    pre = r.choice('cz')
    d = '%s/%s/f/%d' % (w.root, pre, num)
    os.makedirs(d)
    ev = []
    lock = threading.Lock()
    stop = []

    def put(n):
        x = ('%d %d ' % (num, n)).encode() + body(r, r.choice([10, 3000, 100000, 300000]) + 7 * n)
        open(d + '/new', 'wb').write(x)
        os.rename(d + '/new', d + '/a')

    def fetch():
        while not stop:
            gz = r.choice(['', 'gzip'])
            st = http1.Stream(w.addr)
            st.send(('GET /%s/f/%d/a HTTP/1.1\r\nHost: x\r\n%s\r\n' % (pre, num, 'Accept-Encoding: gzip\r\n' if gz else '')).encode())
            rd = codec.Reader(st)
            rd.run(lambda x: False, 5)
            with lock:
                if rd.complete and not rd.bad and rd.status == 200 and (not rd.enc or rd.d.finished()):
                    ev.append(dict(o='free', res='%s %s' % (pre, rd.enc), tag=','.join(rd.h('etag')), body=hashlib.md5(bytes(rd.dec)).hexdigest()))
                else:
                    ev.append(dict(o='err', same=False))
            st.close()
    put(0)
    ts = [threading.Thread(target=fetch) for _ in range(3)]
    for t in ts:
        t.start()
    for n in range(1, 12):
        time.sleep(r.choice([0, .005, .05, .15]))
        put(n)
    time.sleep(.1)
    stop.append(1)
    for t in ts:
        t.join()
    return dict(ev=ev)


def run(c):
    vlib.build()
    models(c)
    R = c.rng
    recs, ctxs = [], []
    ws = [World('c19'), World('c19s', 1)]
    n = 1500 if c.thorough else 240
    jobs = [(i + 1, R.random()) for i in range(n)]
    lock = threading.Lock()
    errs = []

    def one(j):
        w = ws[j[0] % 2]
        if not w.srv.alive():
            return
        try:
            if j[0] % 9 == 0:
                rec, h = static(w, *j), None
            else:
                h = Hist(w, *j)
                rec = h.play()
        except Exception as e:
            with lock:
                errs.append('%s: %s' % (type(e).__name__, e))
            return
        with lock:
            recs.append(rec)
            ctxs.append(dict(seed=j[1], kind=h.pre if h else 'static', ress=[repr(x) for x in h.ress] if h else [], bad=h.bad if h else []))
    vlib.parallel(one, jobs, n=12)
    for w in ws:
        if not w.srv.alive():
            c.violation('server', 'the server died (rc %s)' % w.srv.proc.returncode, dict(log=w.srv.log()[-3000:]))
        w.stop()
    if errs:
        c.violation('driver', 'requests failed: %s' % errs[:3], dict(errs=errs))
    c.log('histories')

    def kills(j):
        w = World('c19k')
        try:
            h = Hist(w, j[0], j[1])
            if h.pre == 'n':
                h.pre = 'c'
                h.ress = [(a, b.replace('/n/', '/c/'), q) for a, b, q in h.ress]
                h.ver = {x: 1 for x in h.ress}
            rec = h.play(killer=True)
            with lock:
                recs.append(rec)
                ctxs.append(dict(seed=j[1], kind='kill ' + h.pre, ress=[repr(x) for x in h.ress], bad=h.bad))
        finally:
            w.stop()
    vlib.parallel(kills, [(5000 + i, R.random()) for i in range(64 if c.thorough else 16)], n=8)
    c.log('kills')
    rej, d, g = vlib.validate('DiskCacheTrace', 'DiskCacheTrace.cfg', recs)
    for i in sorted(rej):
        m = vlib.stuck('DiskCacheTrace', 'DiskCacheTrace.cfg', recs[i])
        e = recs[i]['ev'][m - 1] if 0 < m <= len(recs[i]['ev']) else None
        c.violation('cache', 'disk cache: %s not allowed (%s)' % (e, ctxs[i]), dict(ctx=ctxs[i], rec=recs[i], at=m))
    c.cov['histories'] = len(recs)
    c.cov['traces_validated_against_impl'] = len(recs)
    c.cov['states'] += d
    c.cov['transitions'] += g
    ev = [e for x in recs for e in x['ev']]
    c.cov['requests'] = sum(1 for e in ev if e['o'] in ('get', 'free'))
    c.cov['from the cache, the origin silent'] = sum(1 for e in ev if e['o'] == 'get' and e['src'] == 'held' and e['dst'] == 'done')
    c.cov['broken off'] = sum(1 for e in ev if e['o'] == 'get' and e['src'] == 'cut')
    c.cov['kills'] = sum(1 for e in ev if e['o'] == 'kill')
    c.sample(recs[:3])


vlib.main('C19', run)
