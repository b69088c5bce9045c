"""Client-side recorder for HttpConn histories: plays a schedule of byte segments / waits on one connection of the
real server and returns the event list HttpConnTrace validates."""
import time, hashlib
from http1 import Stream, parse_response


def advertised(r):
    """what the response head says about the connection"""
    c = [x.strip() for x in r['conn'].split(',')]
    if 'close' in c:
        return 'close'
    if r['ver'] == 10:
        return 'keep' if 'keep-alive' in c else 'close'
    if r['framing'] == 'eof':
        return 'close'
    return 'keep'


def token(r, known):
    """status:body token; error pages are identified by their status only"""
    if r['status'] in known:
        return '%d:*' % r['status']
    return '%d:%s%s' % (r['status'], hashlib.md5(r['body']).hexdigest()[:10], ':trunc' if r.get('trunc') else '')


def play(addr, reqs, ops, patience=6.0, gap=0.0, wild=(), idhdr='x-id', mk=Stream):
    """reqs: list of dicts with 'raw' (bytes), 'method'; ops: list of ints, n>0 send n bytes, 0 wait for one more response.
    After the schedule: send what is left, then read until EOF or patience."""
    data = b''.join(r['raw'] for r in reqs)
    st = mk(addr)
    ev = []
    state = {'final': 0, 'dead': False}

    def collect():
        got = False
        while True:
            i = state['final']
            method = reqs[i]['method'] if i < len(reqs) else 'GET'
            r, n = parse_response(st.buf, method, st.eof)
            if r is None:
                break
            del st.buf[:n]
            got = True
            if r['bad']:
                ev.append({'t': 'resp', 'id': 'BAD', 'interim': False, 'adv': 'keep', 'body': r['bad']})
                state['final'] += 1
                continue
            if 100 <= r['status'] < 200:
                ev.append({'t': 'resp', 'id': '', 'interim': True, 'adv': 'keep', 'body': str(r['status'])})
                continue
            ev.append({'t': 'resp', 'id': (r['h'].get(idhdr) or [''])[0], 'interim': False, 'adv': advertised(r), 'body': token(r, wild)})
            state['final'] += 1
        if st.eof and not state['dead']:
            ev.append({'t': 'eof', 'rst': bool(st.err)})
            state['dead'] = True
        return got

    pos = 0
    want = 0
    for op in ops:
        if op:
            n = min(op, len(data) - pos)
            if n <= 0:
                continue
            st.drain()
            collect()
            if st.eof:
                break
            ev.append({'t': 'send', 'n': n})
            st.send(data[pos:pos + n])
            pos += n
            if gap:
                time.sleep(gap)
        else:
            t0 = time.time()
            want += 1
            timeout = True
            while True:
                collect()
                if st.eof or len([e for e in ev if e['t'] == 'resp']) >= want:
                    timeout = False
                    break
                left = patience - (time.time() - t0)
                if left <= 0:
                    break
                st.wait(left)
            if timeout:
                ev.append({'t': 'end'})
                st.close()
                return ev
    collect()
    if not st.eof and pos < len(data):
        ev.append({'t': 'send', 'n': len(data) - pos})
        st.send(data[pos:])
    t0 = time.time()
    while True:
        collect()
        if st.eof:
            break
        left = patience - (time.time() - t0)
        if left <= 0:
            break
        st.wait(left)
    if not state['dead']:
        ev.append({'t': 'end'})
    st.close()
    return ev
