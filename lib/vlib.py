"""Shared machinery: build the tree, run TLC, run the worker, write evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, socket, re, threading, signal, fcntl, random, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build', 'tree'))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CMJARS = [p for p in ['/opt/veriftools/tla/CommunityModules-deps.jar', '/opt/veriftools/tla/CommunityModules.jar'] if os.path.exists(p)]

_scratch = None


def scratch():
    """private scratch directory, removed at exit"""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-', dir=os.environ.get('TMPDIR', '/tmp'))
        os.chmod(_scratch, 0o755)
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        else:
            print('scratch:', _scratch)
    return _scratch


class ServerDied(Exception):
    """the server under test did not come up, or crashed, on a configuration it has to accept"""


class Broken(Exception):
    """the machinery itself could not run (exit 2, never a verdict)"""


def build():
    """(re)build the current working tree of REPO into BUILD"""
    os.makedirs(os.path.dirname(BUILD), exist_ok=True)
    env = dict(os.environ, CC='gcc', CXX='g++', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8')
    with open(BUILD + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(BUILD, 'build.ninja')):
            shutil.rmtree(BUILD, ignore_errors=True)
            r = subprocess.run(['meson', 'setup', BUILD, REPO, '--buildtype=debugoptimized', '--wrap-mode=nodownload', '-Dwerror=false'],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise Broken('meson setup failed:\n' + r.stdout.decode('utf8', 'replace')[-3000:])
        r = subprocess.run(['ninja', '-C', BUILD], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Broken('build failed:\n' + r.stdout.decode('utf8', 'replace')[-3000:])


def worker_bin():
    return os.path.join(BUILD, 'src/main/lighttpd2-worker')


def angel_bin():
    return os.path.join(BUILD, 'src/angel/lighttpd2')


def mod_dir():
    return os.path.join(BUILD, 'src/modules')


def compile_harness(name, sources=None, extra=()):
    """compile harness/<name>.c against the built libraries' public headers"""
    out = os.path.join(scratch(), name)
    srcs = sources or [os.path.join(VERIF, 'harness', name + '.c')]
    pc = subprocess.run(['pkg-config', '--cflags', '--libs', 'glib-2.0', 'gthread-2.0', 'gmodule-2.0'], stdout=subprocess.PIPE, check=True).stdout.decode().split()
    libs = []
    for d, pre in (('src/common', 'liblighttpd2-common'), ('src/main', 'liblighttpd2-shared')):
        p = os.path.join(BUILD, d)
        for f in sorted(os.listdir(p)):
            if f.startswith(pre) and f.endswith('.so'):
                libs += [os.path.join(p, f), '-Wl,-rpath,' + p]
    lua = subprocess.run(['pkg-config', '--cflags', 'lua5.1'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    luaf = lua.stdout.decode().split() if lua.returncode == 0 else []
    cmd = ['gcc', '-g', '-O1', '-w', '-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-I' + os.path.join(REPO, 'include'), '-I' + BUILD,
           '-I' + os.path.join(BUILD, 'include'), '-I' + os.path.join(BUILD, 'include/lighttpd'), '-I' + VERIF + '/harness'] + luaf + list(extra) + srcs + ['-o', out] + libs + pc + ['-lev', '-lpthread', '-lm']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Broken('harness %s does not compile:\n%s' % (name, r.stdout.decode('utf8', 'replace')[-3000:]))
    return out


def run_harness(binary, lines, tag='h', n=8, timeout=700, args=()):
    """one script per input line, one JSON value per output line; ('crash', text) where the run ended abnormally"""
    parts = [list(range(i, len(lines), n)) for i in range(n)]
    out = [None] * len(lines)

    def one(idx):
        if not idx:
            return
        d = os.path.join(scratch(), '%s-%d' % (tag, idx[0]))
        os.makedirs(d, exist_ok=True)
        try:
            r = subprocess.run([binary, d] + list(args), input=''.join(lines[i] + '\n' for i in idx).encode(), stdout=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken('harness timed out')
        res = r.stdout.decode('utf8', 'replace').split('\n')
        for k, i in enumerate(idx):
            l = res[k] if k < len(res) else ''
            try:
                out[i] = json.loads(l)
            except ValueError:
                out[i] = ('crash', l[-400:])
    parallel(one, parts)
    return out


# ---------------------------------------------------------------- TLC

class TlcResult:
    pass


def tlc(module, cfg, env=None, workers='auto', extra=(), timeout=800, xmx='6g', want_ok=False, deadlock=False):
    """run TLC on spec/<module>.tla with spec/<cfg>; returns TlcResult"""
    wd = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cp = ':'.join([JAR] + CMJARS)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss64m', '-Djava.io.tmpdir=' + wd, '-cp', cp, 'tlc2.TLC', '-workers', str(workers), '-metadir', wd,
           '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)]
    if not deadlock:
        cmd.append('-deadlock')
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise Broken('TLC timed out on %s/%s: %s' % (module, cfg, (ex.stdout or b'')[-1500:].decode('utf8', 'replace')))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    res = TlcResult()
    res.out = r.stdout.decode('utf8', 'replace')
    res.rc = r.returncode
    res.wall = time.time() - t0
    m = None
    for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct states found', res.out):
        pass
    res.generated = int(m.group(1).replace(',', '')) if m else 0
    res.distinct = int(m.group(2).replace(',', '')) if m else 0
    m = re.search(r'The depth of the complete state graph search is (\d+)', res.out)
    res.depth = int(m.group(1)) if m else 0
    if not m and '-simulate' in cmd:
        m2 = None
        for m2 in re.finditer(r'([\d,]+) states checked', res.out):
            pass
        if m2:
            res.generated = int(m2.group(1).replace(',', ''))
    res.invviol = re.findall(r'Error: (?:Invariant|Action property|Temporal properties|Property) ?(\S*)', res.out)
    res.ok = r.returncode == 0
    # any failure that is not a property verdict is a machinery failure
    if r.returncode not in (0, 10, 11, 12, 13):
        raise Broken('TLC failed (rc %d) on %s/%s:\n%s' % (r.returncode, module, cfg, res.out[-4000:]))
    if want_ok and not res.ok:
        raise Broken('model %s/%s does not satisfy its own properties:\n%s' % (module, cfg, res.out[-4000:]))
    return res


def printed(out, tag):
    """values printed by PrintT(<<tag, ToJson(x)>>) / PrintT(<<tag, n>>)"""
    vals = []
    for m in re.finditer(r'^<<"%s", (.*)>>$' % re.escape(tag), out, re.M):
        v = m.group(1)
        try:
            x = json.loads(v)
            if isinstance(x, str):
                try:
                    x = json.loads(x)
                except ValueError:
                    pass
            vals.append(x)
        except ValueError:
            vals.append(v)
    return vals


def write_ndjson(path, recs):
    with open(path, 'w') as f:
        for r in recs:
            f.write(json.dumps(r, separators=(',', ':')) + '\n')


def validate(module, cfg, recs, tag='ACC', timeout=800, workers='auto', batch=4000, env=None, xmx='6g'):
    """give recs (list of traces, one JSON value each) to the trace spec; returns (set of rejected indexes (0-based), distinct states, generated)"""
    rejected, dist, gen = set(), 0, 0
    for base in range(0, len(recs), batch):
        part = recs[base:base + batch]
        p = os.path.join(scratch(), 'tr-%d-%d.ndjson' % (os.getpid(), random.getrandbits(40)))
        write_ndjson(p, part)
        e = {'TRACE': p}
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout, workers=workers, xmx=xmx)
        if not r.ok:
            raise Broken('trace spec %s/%s failed:\n%s' % (module, cfg, r.out[-4000:]))
        acc = set(int(x) for x in printed(r.out, tag))
        rejected |= set(base + i for i in range(len(part)) if (i + 1) not in acc)
        dist += r.distinct
        gen += r.generated
        if not os.environ.get('VERIF_KEEP'):
            os.unlink(p)
    return rejected, dist, gen


def stuck(module, cfg, rec, env=None):
    """number of the first event of one rejected trace that the specification refuses (1-based)"""
    p = os.path.join(scratch(), 'st-%d-%d.ndjson' % (os.getpid(), random.getrandbits(40)))
    write_ndjson(p, [rec])
    e = {'TRACE': p}
    e.update(env or {})
    return tlc(module, cfg, env=e, workers=1).depth


# ---------------------------------------------------------------- the server

def free_port(ip='127.0.0.1'):
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind((ip, 0))
    p = s.getsockname()[1]
    s.close()
    return p


ALL_SERVERS = []


def _guard():
    """a server never outlives its check and cannot fill the disk with its log"""
    import ctypes, resource
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    resource.setrlimit(resource.RLIMIT_FSIZE, (3 << 30, 3 << 30))


class Server:
    """one real lighttpd2-worker on loopback, in its own scratch directory"""

    def __init__(self, conf, modules=(), name='srv', setup='', workers=1, env=None, ip='127.0.0.1', listens=None):
        self.dir = tempfile.mkdtemp(prefix=name + '-', dir=scratch())
        self.port = free_port(ip)
        self.ip = ip
        self.errlog = os.path.join(self.dir, 'error.log')
        mods = ''.join('module_load "%s";\n' % m for m in modules)
        l = 'listen "%s:%d";' % (ip, self.port)
        if listens:
            l = listens
        self.conf = 'setup {\n%s\n%sworkers %d;\n%s\n}\n%s\n' % (l, mods, workers, setup, conf)
        self.conf = self.conf.replace('@DIR@', self.dir).replace('@PORT@', str(self.port))
        self.confpath = os.path.join(self.dir, 'lighttpd.conf')
        self.proc = None
        self.env = env

    def start(self, wait=True):
        with open(self.confpath, 'w') as f:
            f.write(self.conf)
        self.errf = open(self.errlog, 'ab')
        ALL_SERVERS.append(self)
        self.stopped = False
        e = dict(os.environ)
        e.update(self.env or {})
        self.proc = subprocess.Popen([worker_bin(), '-m', mod_dir(), '-c', self.confpath], stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf, cwd=self.dir, env=e, preexec_fn=_guard)
        if wait:
            t0 = time.time()
            while time.time() - t0 < 20:
                if self.proc.poll() is not None:
                    raise ServerDied('server did not start (rc %s):\n%s\n%s' % (self.proc.returncode, self.log()[-3000:], self.conf[:3000]))
                try:
                    s = socket.create_connection((self.ip, self.port), timeout=1)
                    s.close()
                    return self
                except OSError:
                    time.sleep(0.02)
            raise ServerDied('server did not listen:\n' + self.log()[-3000:])
        return self

    def log(self):
        try:
            with open(self.errlog, 'rb') as f:
                return f.read().decode('utf8', 'replace')
        except OSError:
            return ''

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def tempfiles(self):
        """buffer files the worker keeps open (named in /var/tmp, so a killed worker would leave them behind)"""
        out = []
        try:
            d = '/proc/%d/fd' % self.proc.pid
            for f in os.listdir(d):
                try:
                    t = os.readlink(d + '/' + f)
                except OSError:
                    continue
                if re.match(r'^/var/tmp/lighttpd-buffer-\w+$', t):
                    out.append(t)
        except OSError:
            pass
        return out

    def stop(self, sig=signal.SIGTERM, timeout=5):
        if self.proc is None:
            return None
        self.stopped = True
        self.crashed = self.proc.poll() is not None
        tmp = []
        if self.proc.poll() is None:
            tmp = self.tempfiles()
            try:
                self.proc.send_signal(sig)
                self.proc.wait(timeout)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        for t in tmp:
            try:
                os.unlink(t)
            except OSError:
                pass
        self.errf.close()
        return self.proc.returncode

    def __enter__(self):
        return self.start()

    def __exit__(self, *a):
        self.stop(signal.SIGKILL)


def parallel(fn, items, n=8):
    """ordered parallel map with threads"""
    items = list(items)
    out = [None] * len(items)
    err = []
    it = iter(range(len(items)))
    lk = threading.Lock()

    def run():
        while not err:
            with lk:
                i = next(it, None)
            if i is None:
                return
            try:
                out[i] = fn(items[i])
            except BaseException as e:
                err.append(e)
                return
    ts = [threading.Thread(target=run, daemon=True) for _ in range(min(n, max(1, len(items))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return out


# ---------------------------------------------------------------- check driver

class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.tier = 'thorough' if ('--thorough' in sys.argv or (os.environ.get('VERIF_TIER') == 'thorough')) else 'quick'
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.level = level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.only = None

    def note(self, **kw):
        self.cov.update(kw)

    def model(self, r, name=None):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        if name:
            self.cov.setdefault('models', []).append({'model': name, 'distinct': r.distinct, 'generated': r.generated, 'depth': r.depth})

    def sample(self, x):
        if len(self.cov['samples']) < 4:
            self.cov['samples'].append(x if isinstance(x, (dict, list)) else str(x))

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def violation(self, key, what, replay):
        """key identifies the failing input/history; known findings are matched on it"""
        for k in known_findings():
            if k.get('status') == 'known' and k['property'] == self.prop and k['key'] == key:
                if key not in [x[0] for x in self.known]:
                    self.known.append((key, k['what']))
                return
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'key': key, 'what': what, 'replay': replay, 'seed': self.seed, 'tier': self.tier}, f, indent=1, default=str)
        self.violations.append((key, what, p))

    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, w in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        for k, w, p in self.violations[:10]:
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            print('   ', str(w)[:600])
        return 1 if self.violations else 0


def known_findings():
    """known-findings.txt: 'known: property=<id> key=<key> <what>' / 'fixed: property=<id> <commit> <what>' (fixed lines suppress nothing)"""
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
                if m:
                    out.append({'status': 'known', 'property': m.group(1), 'key': m.group(2), 'what': m.group(3)})
    return out


def main(prop, fn, level='model_checking'):
    c = Check(prop, level)
    for f in os.listdir(os.path.join(VERIF, 'replay')) if os.path.isdir(os.path.join(VERIF, 'replay')) else []:
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(VERIF, 'replay', f))
    try:
        build()
        c.log('tree built')
        fn(c)
    except ServerDied as e:
        c.violation('server-died', 'the server under test did not come up or crashed: ' + str(e)[:1500], {'log': str(e)})
    except Broken as e:
        print('BROKEN:', e)
        sys.exit(2)
    except ConnectionError as e:
        dead = [s for s in ALL_SERVERS if getattr(s, 'crashed', False) or (not s.stopped and s.proc.poll() is not None)]
        if not dead:
            raise
        c.violation('server-died', 'the server under test crashed: rc %s' % dead[0].proc.returncode, {'log': dead[0].log()[-3000:], 'conf': dead[0].conf[:20000], 'rc': dead[0].proc.returncode})
    c.log('done')
    rc = c.finish()
    sys.stdout.flush()
    sys.exit(rc)
