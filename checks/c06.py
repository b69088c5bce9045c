#!/usr/bin/env python3
"""C06: chunk queues are exact byte FIFOs (spec/ChunkQueue.tla); scripts generated by TLC are run by harness/cq.c on the real library"""
import sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib


def run_scripts(binary, scripts, tag):
    """scripts: list of (U, [[op,a,b,c],...]) -> list of traces (None: the run ended abnormally)"""
    n = 8
    parts = [list(range(i, len(scripts), n)) for i in range(n)]
    out = [None] * len(scripts)

    def one(idx):
        if not idx:
            return
        d = os.path.join(vlib.scratch(), 'cq-%s-%d' % (tag, idx[0]))
        os.makedirs(d, exist_ok=True)
        inp = ''.join('%d;%s\n' % (scripts[i][0], ';'.join(' '.join(map(str, o)) for o in scripts[i][1])) for i in idx)
        try:
            r = subprocess.run([binary, d], input=inp.encode(), stdout=subprocess.PIPE, timeout=700)
        except subprocess.TimeoutExpired:
            raise vlib.Broken('cq harness timed out')
        lines = r.stdout.decode('utf8', 'replace').split('\n')
        for k, i in enumerate(idx):
            l = lines[k] if k < len(lines) else ''
            try:
                out[i] = json.loads(l)
            except ValueError:
                out[i] = ('crash', l[-400:])
    vlib.parallel(one, parts)
    return out


def main(c):
    c.model(vlib.tlc('ChunkQueueMC', 'ChunkQueueMC.cfg', want_ok=True), 'ChunkQueue (exhaustive)')
    if vlib.tlc('ChunkQueueMC', 'ChunkQueueBug.cfg').ok:
        raise vlib.Broken('vacuity: a lossy steal is not refused by the model')
    b = vlib.compile_harness('cq')
    scripts = []
    g = vlib.tlc('ChunkQueueMC', 'ChunkQueueGen2.cfg', want_ok=True)
    c.model(g, 'ChunkQueue (all pairs of calls)')
    pairs = vlib.printed(g.out, 'SCN')
    # every pair of calls on queues that already hold something
    pre = [['am', 1, 2, 0], ['ft', 1, 2, 0], ['au', 1, 2, 0], ['as', 2, 2, 0], ['sk', 1, 1, 0]]
    if not c.thorough:
        pairs = c.rng.sample(pairs, min(5000, len(pairs)))
    for p in pairs:
        scripts.append((1, pre + p))
    for cfg, num, depth, U in (('ChunkQueueSim.cfg', 1500 if not c.thorough else 20000, 30, 1), ('ChunkQueueSim9.cfg', 1500 if not c.thorough else 20000, 9, 1),
                               ('ChunkQueueSim.cfg', 250 if not c.thorough else 3000, 30, 4096)):
        r = vlib.tlc('ChunkQueueMC', cfg, workers=1, extra=['-simulate', 'num=%d' % num, '-depth', str(depth + 2), '-seed', str(c.seed * 7 + U)], want_ok=True)
        for p in vlib.printed(r.out, 'SCN'):
            scripts.append((U, p))
    c.log('%d scripts' % len(scripts))
    traces = run_scripts(b, scripts, 'a')
    good = [i for i, t in enumerate(traces) if isinstance(t, list)]
    for i, t in enumerate(traces):
        if not isinstance(t, list):
            c.violation('crash', 'library aborted: ' + str(t[1]), {'script': scripts[i]})
    rej, dist, gen = vlib.validate('ChunkQueueTrace', 'ChunkQueueTrace.cfg', [traces[i] for i in good], batch=8000)
    c.cov['states'] += dist
    c.cov['transitions'] += gen
    for k in sorted(rej)[:10]:
        i = good[k]
        again = run_scripts(b, [scripts[i]], 'r%d' % k)[0]
        if isinstance(again, list) and not vlib.validate('ChunkQueueTrace', 'ChunkQueueTrace.cfg', [again])[0]:
            continue
        n = vlib.stuck('ChunkQueueTrace', 'ChunkQueueTrace.cfg', traces[i])
        c.violation('script', 'call %d: observation refused by the specification: %s' % (n, traces[i][n - 1] if n <= len(traces[i]) else None), {'script': scripts[i], 'observed': traces[i]})
    c.cov['traces_validated_against_impl'] = len(good)
    c.note(calls=sum(len(t) for t in traces if isinstance(t, list)))
    c.sample({'script': scripts[-1]})


vlib.main('C06', main)
