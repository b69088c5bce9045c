#!/usr/bin/env python3
"""C20: compressed responses (Deflate, Coding) - see DESIGN.md"""
import sys, os, time, random, threading, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, http1, codec

ALL = ['gzip', 'x-gzip', 'deflate', 'bzip2', 'x-bzip2']
NOBODY = (100, 101, 204, 205, 206, 304)


def models(c):
    c.model(vlib.tlc('Deflate', 'Deflate.cfg', want_ok=True), 'Deflate')
    c.model(vlib.tlc('Coding', 'Coding.cfg', want_ok=True), 'Coding')
    for b in ('DeflateBug1', 'DeflateBug2', 'DeflateBug3', 'DeflateVacBoth', 'DeflateVacCut'):
        if vlib.tlc('Deflate', b + '.cfg').ok:
            raise vlib.Broken(b + ' not refuted')
    for b in ('CodingBug1', 'CodingBug2', 'CodingBug3', 'CodingVac'):
        if vlib.tlc('Coding', b + '.cfg').ok:
            raise vlib.Broken(b + ' not refuted')


def blob(r, n):
    k = r.randrange(4)
    if k == 0:
        return r.randbytes(n)
    if k == 1:
        return bytes([r.randrange(256)]) * n
    if k == 2:
        w = [r.randbytes(r.randrange(1, 9)) for _ in range(16)]
        out = b''.join(r.choice(w) for _ in range(n // 3 + 1))
        return (out * (n // max(1, len(out)) + 1))[:n]
    x = r.randbytes(min(n, 3000))
    return (x * (n // max(1, len(x)) + 1))[:n]


def offer(r):
    """(header lines, set of (name, zero))"""
    ent = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4])):
        n = r.choice(ALL + ['gzip', 'deflate', 'identity', '*', 'br', 'gzipx', 'xgzip', 'compress', 'x-deflate', 'bzip', 'bzip22'])
        q = r.choice(['', '', '', '', ';q=0', ';q=0.0', '; q=0.000', ';q=1', ';q=0.5', ';q=0.001', '; q=1.0', ' ; q=0', ';Q=0'])
        ent.append((n, q))
    seen = {}
    ent = [(n, q) for n, q in ent if seen.setdefault(n, q) == q]
    ae = sorted({(n, q != '' and float(q.split('=')[1]) == 0) for n, q in ent})
    if not ent:
        return ([], [])if r.random() < .7 else (['Accept-Encoding: '], [])
    if r.random() < .2 and len(ent) > 1:
        return ['Accept-Encoding: ' + n + q for n, q in ent], ae
    sep = r.choice([', ', ',', ' , ', ',  '])
    return [r.choice(['Accept-Encoding', 'accept-encoding']) + ': ' + sep.join(n + q for n, q in ent)], ae


def run(c):
    vlib.build()
    models(c)
    R = c.rng
    o = codec.Origin()
    confs = []
    for enc, ob, bs, lv in [(None, None, None, None), ('gzip', None, None, None), ('deflate', 64, None, 9), ('bzip2', None, None, None), ('gzip,deflate', 16, 1, 1),
                            ('gzip', 5, 100, 6), ('deflate,x-gzip', 1, 3, 1), ('bzip2,gzip', 200, 50, 9), ('deflate', 100000, 100000, 5)]:
        a = [x for x in ('"encodings" => "%s"' % enc if enc else '', '"output-buffer" => %d' % ob if ob else '', '"blocksize" => %d' % bs if bs else '', '"compression-level" => %d' % lv if lv else '') if x]
        confs.append((enc.split(',') if enc else ALL, 'deflate%s;' % (' [%s]' % ', '.join(a) if a else ''), bs or 16384))
    conf = 'etag.use ["inode", "size", "mtime"];\n'
    for j in range(len(confs)):
        conf += 'if req.path =^ "/k%d/f" { docroot "@DIR@/root"; static; } else if req.path =^ "/k%d/" { proxy "%s"; }\n' % (j, j, o.addr)
    for j, (e, a, b) in enumerate(confs):
        conf += 'if req.path =^ "/k%d/" { if request.is_handled { %s } }\n' % (j, a)
    conf += 'if req.path == "/next" { respond 200 => "next"; }\n'
    srv = vlib.Server(conf, ['mod_proxy', 'mod_deflate'], name='c20', setup='io.timeout 60;\n')
    files = {}
    for j in range(len(confs)):
        os.makedirs('%s/root/k%d' % (srv.dir, j))
    os.chmod(srv.dir, 0o755)
    for n, size in enumerate([0, 1, 9, 100, 4096, 16384, 65537, 300000, 2000000]):
        files[n] = blob(random.Random(R.random()), size)
        for j in range(len(confs)):
            p = '%s/root/k%d/f%d' % (srv.dir, j, n)
            if j == 0:
                open(p, 'wb').write(files[n])
            else:
                os.link('%s/root/k0/f%d' % (srv.dir, n), p)
    srv.start()
    addr = ('127.0.0.1', srv.port)
    recs, ctxs = [], []
    lock = threading.Lock()
    ids = iter(range(1, 1 << 30))

    def one(seed):
        r = random.Random(seed)
        j = r.randrange(len(confs))
        allowed, act, bs = confs[j]
        hl, ae = offer(r)
        meth = r.choice(['GET'] * 6 + ['HEAD'])
        ver = r.choice(['1.1', '1.1', '1.1', '1.0'])
        rec = dict(k='resp', ae=[list(x) for x in ae], allowed=allowed, status=200, coded=False, enc='', tags=0, ev=[])
        ctx = dict(seed=seed, conf=act, req=hl, meth=meth, ver=ver)
        step = False
        src = 'closed'
        if r.random() < .2:
            n = r.choice([x for x in files if len(files[x]) <= 40 * bs * (4 if bs > 50 else 20)])
            full = files[n]
            path = '/k%d/f%d' % (j, n)
            rec['tags'] = 1
            if r.random() < .25 and meth == 'GET' and len(full) > 9:
                a = r.randrange(len(full) - 1)
                b = r.randrange(a, len(full))
                hl = hl + ['Range: bytes=%d-%d' % (a, b)]
                full = full[a:b + 1]
                rec['status'] = 206
            segs = None
            ctx['file'] = len(full)
        else:
            k = next(ids)
            path = '/k%d/o%d' % (j, k)
            step = meth == 'GET' and r.random() < .5
            top = 40 * bs * (4 if bs > 50 else 20)
            segs = [blob(r, min(top, r.choice([1, 2, 7, 100, 1000, 4095, 4097, 9000, 16384, 20000, 66000, 150000, 400000]))) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            full = b''.join(segs)
            fr = r.choice(['length', 'length', 'chunked', 'eof'])
            rec['status'] = r.choice([200] * 8 + [203, 404, 500, 206, 204, 304, 410])
            if rec['status'] >= 400 and (not full or meth == 'HEAD'):
                rec['status'] = 200         # the server puts an error page of its own there
            extra = [('X-A', 'b')]
            if r.random() < .15:
                rec['coded'] = True
                rec['enc'] = r.choice(['gzip', 'br', 'x-y', 'deflate'])
                extra.append(('Content-Encoding', rec['enc']))
            rec['tags'] = r.choice([0, 0, 1, 1, 2])
            extra += [('ETag', '"t%d-%d"' % (k, x)) for x in range(rec['tags'])]
            if r.random() < .3:
                extra.append(('Vary', r.choice(['Cookie', 'accept-language'])))
            end = 'fin'
            if rec['status'] in (204, 304):
                segs, full, fr = [], b'', 'length' if rec['status'] == 304 and r.random() < .5 else 'none'
            elif meth == 'GET' and r.random() < .25 and fr != 'eof':
                src = 'cut'
                end = r.choice(['fin', 'rst'])
            if fr == 'chunked':
                wire = [b'%x\r\n' % len(s) + s + b'\r\n' for s in segs]
                if src == 'closed':
                    wire.append(b'0\r\n\r\n')
            else:
                wire = list(segs)
            o.add(k, codec.origin_head(fr, len(full) + (r.choice([1, 1000, 100000]) if src == 'cut' else 0), extra, rec['status']), wire, end, step)
            ctx.update(segs=[len(s) for s in segs], framing=fr, end=end, src=src, step=step)
        st = http1.Stream(addr, rcvbuf=r.choice([None, None, 4096]) if not step else None)
        req = '%s %s HTTP/%s\r\nHost: x\r\n' % (meth, path, ver) + ''.join(x + '\r\n' for x in hl) + '\r\n'
        pipe = ver == '1.1' and src == 'closed'
        st.send((req + ('GET /next HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n' if pipe else '')).encode())
        rd = codec.Reader(st, meth)
        rd.plain = rec['coded']
        ev = rec['ev']
        done = [False]

        def headed():
            if rd.head is not None and not done[0]:
                done[0] = True
                vary = ','.join(rd.h('vary')).lower().replace(' ', '').split(',')
                ev.append(dict(o='head', status=rd.status, enc=','.join(rd.h('content-encoding')), vary='accept-encoding' in vary))
        if step:
            tot = 0
            for s in segs:
                o.allow(k)
                tot += len(s)
                rd.run(lambda x: x.head is not None and len(x.dec) >= tot, 3 if not (rd.head is not None and 'bzip2' in rd.enc) else .02)
                headed()
                if rd.head is None and 'bzip2' not in ' '.join(hl) or rd.head is not None:
                    ev.append(dict(o='data', n=tot, got=len(rd.dec), same=full.startswith(bytes(rd.dec))))
            if src == 'closed' and fr == 'chunked':
                o.allow(k)
            o.allow(k)
        elif r.random() < .2:
            time.sleep(.05)
        rd.run(lambda x: False, 8)
        headed()
        same = full.startswith(bytes(rd.dec)) or (src == 'cut' and rd.head is not None and rd.status >= 500 and rd.complete and not rd.h('x-a'))
        if rd.complete and not rd.bad:
            dst = 'closed'
        elif rd.bad:
            dst = 'bad: ' + rd.bad
        elif st.eof:
            dst = 'cut'
        else:
            dst = 'hang'
        if src == 'cut' and rd.head is not None and not rd.h('x-a') and rd.status >= 500:       # the server's own error page instead of the response
            ev.clear()
            dst = 'cut'
            same = True
        if rd.head is None:
            fine = False
        elif meth == 'HEAD' or rec['status'] in (204, 304):
            fine = not rd.dec
        elif dst == 'closed' and rd.framing == 'eof' and src == 'cut' and (rec['coded'] or not (rd.enc and rd.d.finished())):
            dst = 'cut'                 # HTTP/1.0: the end of the connection is all there is; a coded body has an end of its own
            fine = True
        else:
            fine = bytes(rd.dec) == full and (rd.d.finished() or not rd.enc) and not rd.d.rest()
        ev.append(dict(o='end', src=src, dst=dst, full=fine, same=same))
        if pipe and dst == 'closed' and rd.framing != 'eof':
            r2 = codec.Reader(st)
            r2.run(lambda x: False, 5)
            kept = 'close' not in ','.join(rd.h('connection')).lower()
            ok = (bytes(r2.dec) == b'next') if kept else (not st.buf and st.eof and r2.head is None)
            ev.append(dict(o='next', ok=bool(ok)))
        st.close()
        ctx['got'] = dict(status=rd.head and rd.status, enc=rd.head and rd.enc, n=len(rd.dec), complete=rd.complete, eof=st.eof, err=str(st.err))
        with lock:
            recs.append(rec)
            ctxs.append(ctx)

    def tags(seed):
        """entity tags of the codings of one resource, and conditional requests"""
        r = random.Random(seed)
        j = r.randrange(len(confs))
        ev = []
        known = {}
        ents = []
        for e in range(3):
            k = next(ids)
            t = r.choice(['"%s"', 'W/"%s"']) % ''.join(r.choice('abc-+/123') for _ in range(r.randrange(0, 12)))
            while t in [x[1] for x in ents]:
                t = '"z%d"' % k
            body = blob(r, r.randrange(1, 3000))
            o.add(k, codec.origin_head('length', len(body), [('ETag', t)]), [body], 'fin')
            ents.append((k, t, '/k%d/o%d' % (j, k)))
        n = r.choice([x for x in files if 0 < len(files[x]) <= 800 * confs[j][2]])
        if r.random() < .5:
            ents[0] = (ents[0][0], None, '/k%d/f%d' % (j, n))
        enc_of = {}
        aes = [None] + r.sample(ALL, 3)
        for e, (k, t, path) in enumerate(ents):
            for ae in aes:
                h = [('Accept-Encoding', ae)] if ae else []
                x = http1.get(addr, path, h)
                if not x or x.bad:
                    raise ValueError('no answer to %s %s: %s' % (path, h, x))
                enc = ','.join(x.h.get('content-encoding', []))
                tag = ','.join(x.h.get('etag', []))
                ev.append(dict(o='tag', ent=e, enc=enc, tag=tag))
                known[e, enc] = tag
                enc_of[e, ae] = enc
        for _ in range(12):
            e = r.randrange(3)
            k, t, path = ents[e]
            ae = r.choice(aes)
            inm = [r.choice(sorted(known.values()))for _ in range(r.randrange(1, 3))]
            if r.random() < .4:
                inm[r.randrange(len(inm))] = known[e, enc_of[e, ae]]
            if r.random() < .1:
                inm = ['"nothing"']
            h = [('Accept-Encoding', ae)] if ae else []
            meth = r.choice(['GET', 'GET', 'HEAD'])
            x = http1.get(addr, path, h + [('If-None-Match', ', '.join(inm))], meth)
            if not enc_of[e, ae] and t is not None:
                continue                # an uncoded response of the backend is the backend's business
            ev.append(dict(o='cond', ent=e, enc=enc_of[e, ae], inm=inm, status=x.status if x and not x.bad else -1))
        with lock:
            recs.append(dict(k='tags', ae=[], allowed=[], status=200, coded=False, enc='', tags=0, ev=ev))
            ctxs.append(dict(seed=seed, conf=confs[j][1], ents=[(a, str(b), p) for a, b, p in ents]))

    n = 6000 if c.thorough else 900
    todo = [(one, R.random()) for _ in range(n)] + [(tags, R.random()) for _ in range(n // 15)]
    errs = []

    def guard(x):
        if not srv.alive():
            return
        try:
            x[0](x[1])
        except Exception as e:
            with lock:
                errs.append('%s: %s' % (type(e).__name__, e))
    vlib.parallel(guard, todo, n=16)
    if not srv.alive():
        c.violation('server', 'the server died (rc %s)' % srv.proc.returncode, dict(log=srv.log()[-3000:], last=ctxs[-3:]))
    elif errs:
        c.violation('driver', 'requests failed: %s' % errs[:3], dict(errs=errs))
    srv.stop()
    o.stop()
    rej, d, g = vlib.validate('DeflateTrace', 'DeflateTrace.cfg', recs)
    for i in sorted(rej):
        m = vlib.stuck('DeflateTrace', 'DeflateTrace.cfg', recs[i])
        e = recs[i]['ev'][m - 1] if 0 < m <= len(recs[i]['ev']) else None
        c.violation('body' if recs[i]['k'] == 'resp' else 'tag', 'compressed response: %s not allowed (%s)' % (e, ctxs[i]), dict(ctx=ctxs[i], rec=recs[i]))
    c.cov['histories'] = len(recs)
    c.cov['traces_validated_against_impl'] = len(recs)
    c.cov['states'] += d
    c.cov['transitions'] += g
    heads = [e for x in recs for e in x['ev'] if e['o'] == 'head']
    c.cov['coded responses'] = sum(1 for e in heads if e['enc'])
    c.cov['pauses'] = sum(1 for x in recs for e in x['ev'] if e['o'] == 'data')
    c.cov['broken off'] = sum(1 for x in recs for e in x['ev'] if e['o'] == 'end' and e['src'] == 'cut')
    c.cov['conditional'] = sum(1 for x in recs for e in x['ev'] if e['o'] == 'cond')
    c.sample(recs[:3])


vlib.main('C20', run)
