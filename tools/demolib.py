"""starts the worker built in the current directory's _build on a scratch configuration; used by demos only"""
import os, socket, subprocess, tempfile, time, shutil, atexit, sys, threading
D = tempfile.mkdtemp(prefix='demo-'); os.chmod(D, 0o755)
_p = []
def _clean():
    for p in _p:
        try: p.kill(); p.wait()
        except Exception: pass
    shutil.rmtree(D, ignore_errors=True)
atexit.register(_clean)
def free_port():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p
def server(conf, modules=(), setup=''):
    port = free_port()
    c = 'setup {\nlisten "127.0.0.1:%d";\n%sworkers 1;\n%s\n}\n%s\n' % (port, ''.join('module_load "%s";\n' % m for m in modules), setup, conf.replace('@DIR@', D))
    f = os.path.join(D, 'l.conf'); open(f, 'w').write(c)
    b = os.path.join(os.getcwd(), '_build/src')
    p = subprocess.Popen([b + '/main/lighttpd2-worker', '-m', b + '/modules', '-c', f], stdin=subprocess.DEVNULL, stdout=open(D + '/log', 'ab'), stderr=subprocess.STDOUT, cwd=D)
    _p.append(p)
    for _ in range(400):
        if p.poll() is not None: print(open(D + '/log').read()); sys.exit(3)
        try: socket.create_connection(('127.0.0.1', port)).close(); break
        except OSError: time.sleep(.02)
    p.port = port
    return p
def talk(port, data, wait=1.0, shut=False):
    """send bytes (or a list of segments), return everything received until close or `wait` seconds of silence"""
    s = socket.create_connection(('127.0.0.1', port)); s.settimeout(wait)
    out = b''
    try:
        for i, seg in enumerate(data if isinstance(data, list) else [data]):
            if i: time.sleep(.05)
            s.sendall(seg)
        if shut: s.shutdown(socket.SHUT_WR)
        while 1:
            b = s.recv(65536)
            if not b: break
            out += b
    except OSError: pass
    s.close()
    return out
def check(cond, msg):
    if not cond:
        print('FAIL: ' + msg); sys.exit(1)
