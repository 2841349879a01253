"""P20: downloads and archive extraction under faulty servers, hostile archives, crashes at every file-system event and concurrent callers.
Everything happens in a scratch directory; hostile archive names can climb at most three levels, and the destination lies five levels below the scratch root."""
import sys, os, io, json, hashlib, zipfile, threading, http.server, socketserver, tempfile, shutil, importlib.util, contextlib, time, stat, signal, socket, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymon import Mon, REPO
M = Mon(sys.argv)
def load():
    spec = importlib.util.spec_from_file_location('siren_download_under_test', os.path.join(REPO, 'python', 'download.py'))
    m = importlib.util.module_from_spec(spec); sys.modules[spec.name] = m; spec.loader.exec_module(m); return m
sys.dont_write_bytecode = True
dl = load()
ROOT = tempfile.mkdtemp(prefix='p20_')

# ------------------------------------------------------------------ a single-threaded helper process that forks the callers to be crashed, started before any thread
import pickle
EVENTS = ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile')
def _caller(job, wr):
    """one caller of the real code; at the at-th file-system event below d: exit (crash) or raise ENOSPC"""
    sys.stdout = open(os.devnull, 'w'); sys.stderr = sys.stdout; cnt = [0]; rp = os.path.realpath(job['d']); at, how = job.get('at', -1), job.get('how')
    def hook(ev, args):
        if ev in EVENTS and args and isinstance(args[0], (str, bytes)) and os.fsdecode(args[0]).startswith(rp):
            if ev == 'open' and isinstance(args[2], int) and not (args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)): return
            cnt[0] += 1
            if cnt[0] == at:
                if how == 'crash': os.write(wr, b'%d crash %s' % (cnt[0], ev.encode())); os._exit(9)
                raise OSError(28, 'injected')
    sys.addaudithook(hook); time.sleep(job.get('delay', 0))
    try:
        if job['what'] == 'file': dl.download_file(job['url'], job['dest'], sha256=job.get('sha', ''), show_progress=False)
        else: dl.zenodo_file_url = lambda *a, **k: job['url']; dl.ensure_zenodo_archive('1', 'z.zip', job['d'], prefix=job['pfx'])
        res = 'done'
    except Exception as e: res = 'error %r' % (e,)
    os.write(wr, ('%d %s' % (cnt[0], res)).encode()[:4000])
def _zygote(fi, fo):
    live = {}
    while True:
        try: job = pickle.load(fi)
        except EOFError: os._exit(0)
        if job['op'] == 'start':
            rd, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(rd)
                try: _caller(job, wr)
                finally: os._exit(0)
            os.close(wr); live[pid] = rd; rep = pid
        else:
            rd = live.pop(job['pid']); b = b''
            while True:
                c = os.read(rd, 4096)
                if not c: break
                b += c
            os.close(rd); os.waitpid(job['pid'], 0); rep = b.decode()
        pickle.dump(rep, fo); fo.flush()
_a, _b = os.pipe(), os.pipe()
if os.fork() == 0:
    os.close(_a[1]); os.close(_b[0]); _zygote(os.fdopen(_a[0], 'rb'), os.fdopen(_b[1], 'wb'))
os.close(_a[0]); os.close(_b[1]); ZI, ZO = os.fdopen(_a[1], 'wb'), os.fdopen(_b[0], 'rb')
def zy(**job): pickle.dump(job, ZI); ZI.flush(); return pickle.load(ZO)
def child(**job): n, _, out = zy(op='wait', pid=zy(op='start', **job)).partition(' '); return int(n or 0), out

# ------------------------------------------------------------------ scripted server
RES, HITS, LOCK = {}, [], threading.Lock()
class H(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'
    def log_message(self, *a): pass
    def do_GET(self):
        with LOCK: HITS.append((self.path, self.headers.get('Accept')))
        key = self.path.split('?')[0]; r = RES.get(key)
        self.close_connection = True
        try:
            if r is None: self.send_error(404); return
            mode, body, k = r
            if mode == 'status': self.send_response(k); self.send_header('Content-Length', str(len(body))); self.end_headers(); self.wfile.write(body); return
            if mode == 'redirect': self.send_response(302); self.send_header('Location', k); self.send_header('Content-Length', '0'); self.end_headers(); return
            self.send_response(200)
            if mode in ('chunked', 'chunkcut'):
                self.send_header('Transfer-Encoding', 'chunked'); self.end_headers(); pos = 0; n = len(body) if mode == 'chunked' else k
                while pos < n:
                    c = body[pos:min(n, pos + 30000)]; self.wfile.write(b'%x\r\n' % len(c) + c + b'\r\n'); pos += len(c)
                if mode == 'chunked': self.wfile.write(b'0\r\n\r\n')
                return
            if mode == 'close': self.send_header('Connection', 'close'); self.end_headers(); self.wfile.write(body); return
            self.send_header('Content-Length', str(len(body))); self.end_headers()
            if mode == 'ok': self.wfile.write(body)
            elif mode == 'cut': self.wfile.write(body[:k])
            elif mode == 'reset':
                self.wfile.write(body[:k]); self.wfile.flush(); self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); self.connection.close()
            elif mode == 'stall': self.wfile.write(body[:k]); self.wfile.flush(); time.sleep(1.2)
            elif mode == 'slow':
                n = max(1, len(body) // 12)
                for i in range(0, len(body), n): self.wfile.write(body[i:i + n]); self.wfile.flush(); time.sleep(k)
        except OSError: pass
class S(socketserver.ThreadingMixIn, http.server.HTTPServer): daemon_threads = True; request_queue_size = 64
    
srv = S(('127.0.0.1', 0), H); URL = 'http://127.0.0.1:%d' % srv.server_address[1]; threading.Thread(target=srv.serve_forever, daemon=True).start()
_n = [0]
def serve(mode, body=b'', k=None, ext='.dat'):
    _n[0] += 1; key = '/r%d_%d%s' % (os.getpid(), _n[0], ext); RES[key] = (mode, body, k); return URL + key
def blob(r, n=None): n = n if n is not None else r.choice([0, 1, 17, 65535, 65536, 65537, 131072, r.randrange(1, 400000)]); return r.randbytes(n)
def scratch():
    _n[0] += 1; d = os.path.join(ROOT, 's%d' % _n[0]); os.makedirs(d); return d
@contextlib.contextmanager
def quiet():
    old = sys.stdout; sys.stdout = io.StringIO()
    try: yield
    finally: sys.stdout = old
def attempt(f, *a, **k):
    try:
        with quiet(): return None, f(*a, **k)
    except Exception as e: return e, None
def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs: q = os.path.join(p, f); out[os.path.relpath(q, d)] = open(q, 'rb').read()
        for x in ds: out[os.path.relpath(os.path.join(p, x), d) + '/'] = None
    return out
def files(d): return {k: v for k, v in tree(d).items() if v is not None}

# ------------------------------------------------------------------ one file
def one_file(m, r):
    d = scratch(); dest = os.path.join(d, *r.choice([['a.bin'], ['x', 'y', 'a.bin'], ['name with blank.bin']])); body = blob(r); old = None
    if r.random() < .3: os.makedirs(os.path.dirname(dest), exist_ok=True); old = blob(r, 50); open(dest, 'wb').write(old)
    bystander = os.path.join(d, 'keep.bin'); open(bystander, 'wb').write(b'keep')
    mode = r.choice(['ok', 'ok', 'chunked', 'close', 'redirect', 'cut', 'cut', 'chunkcut', 'reset', 'stall', 'status', 'refused']); hashm = r.choice(['none', 'none', 'right', 'wrong', 'upper'] if mode in ('ok', 'chunked', 'close', 'redirect') else ['none', 'none', 'right'])
    if mode in ('cut', 'chunkcut', 'reset', 'stall') and len(body) < 2: body = blob(r, 1000)
    k = r.choice([0, 1, len(body) // 2, len(body) - 1, 65536 if len(body) > 65536 else 1]); good = mode in ('ok', 'chunked', 'close', 'redirect')
    if mode == 'redirect': url = serve('redirect', b'', serve('ok', body))
    elif mode == 'status': url = serve('status', b'<html>error</html>', r.choice([400, 403, 404, 410, 500, 503]))
    elif mode == 'refused': url = 'http://127.0.0.1:1/x'
    else: url = serve(mode, body, k)
    sha = hashlib.sha256(body).hexdigest(); want = {'none': '', 'right': sha, 'upper': sha, 'wrong': hashlib.sha256(body + b'!').hexdigest()}[hashm]
    kw = dict(sha256=want, show_progress=r.random() < .5)
    if mode == 'stall': kw['timeout'] = .25
    via = r.choice(['direct', 'direct', 'ensure']) if mode != 'stall' and old is None else 'direct'
    e, _ = attempt(dl.download_file, url, dest, **kw) if via == 'direct' else attempt(dl.ensure_files, [dict(path=dest, url=url, sha256=want)])
    got = open(dest, 'rb').read() if os.path.isfile(dest) else None; tag = '%s hash=%s size=%d cut=%s old=%s via=%s' % (mode, hashm, len(body), k, old is not None, via)
    if good and hashm != 'wrong':
        m.check('complete-transfer-installed', e is None and got == body, lambda: '%s: %r, file %s' % (tag, e, 'absent' if got is None else '%d bytes' % len(got)))
    elif good: m.check('wrong-digest-refused', e is not None and got == old, lambda: '%s: %r, file %s' % (tag, e, 'absent' if got is None else '%d bytes' % len(got)))
    else:
        m.check('failed-transfer-reported', e is not None, lambda: '%s: no error' % tag); m.check('failed-transfer-leaves-target', got == old, lambda: '%s: target now %s' % (tag, 'absent' if got is None else '%d bytes' % len(got)))
    left = sorted(set(files(d)) - {os.path.relpath(dest, d), 'keep.bin'}); m.check('no-leftovers', not left and open(bystander, 'rb').read() == b'keep', lambda: '%s: left behind %s' % (tag, left))
    m.seen('%s|%s|%s|%s' % (mode, hashm, old is not None, min(4, len(body) // 65536))); shutil.rmtree(d)

# ------------------------------------------------------------------ lists of files
def file_list(m, r):
    d = scratch(); specs, exp, missing = [], {}, []
    for i in range(r.randrange(1, 7)):
        p = os.path.join(d, r.choice(['', 'sub', 'sub/deep']), 'f%d.bin' % i); body = blob(r, r.randrange(0, 5000)); kind = r.choice(['have', 'have-nourl', 'get', 'get', 'get-sha', 'nourl', 'emptyurl'])
        s = dict(path=p)
        if kind.startswith('have'):
            os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'wb').write(b'local%d' % i); exp[p] = b'local%d' % i
            if kind == 'have': s['url'] = 'http://127.0.0.1:1/never'
        elif kind.startswith('get'): s['url'] = serve('ok', body); exp[p] = body; s.update(sha256=hashlib.sha256(body).hexdigest()) if kind == 'get-sha' else None
        else: missing.append(p); s.update(url='') if kind == 'emptyurl' else None
        specs.append(s); m.seen(kind)
    e, _ = attempt(dl.ensure_files, specs)
    for p, b in exp.items(): m.check('listed-file-present', os.path.isfile(p) and open(p, 'rb').read() == b, lambda: '%s: %r' % (p, e))
    if missing: m.check('missing-without-url-reported', isinstance(e, FileNotFoundError) and all(q in str(e) for q in missing), lambda: 'missing %s: %r' % (missing, e))
    else: m.check('satisfied-list-accepted', e is None, lambda: repr(e))
    m.check('nothing-invented', set(files(d)) == {os.path.relpath(p, d) for p in exp}, lambda: str(sorted(files(d)))); shutil.rmtree(d)

# ------------------------------------------------------------------ record listings
real_open = dl.urllib.request.urlopen
def redirected(api):
    def f(req, *a, **k):
        u = req.full_url if hasattr(req, 'full_url') else req
        if u.startswith('https://'):
            api.append(u); t = [x for x in RES if x == '/api' + u.split('zenodo.org', 1)[1].split('?')[0]]
            req = dl.urllib.request.Request(URL + '/api' + u.split('zenodo.org', 1)[1])
        return real_open(req, *a, **k)
    return f
def zenodo(m, r):
    d = scratch(); rec = str(r.randrange(10**5, 10**7)); names = ['f%d.txt' % i for i in range(r.randrange(1, 5))]; bodies = {n: blob(r, r.randrange(1, 3000)) for n in names}
    def entry(n):
        u = serve('ok', bodies[n]); bad = serve('ok', b'the wrong link'); k = r.randrange(3)
        return dict(key=n, links=dict(content=u, self=bad) if k == 0 else dict(self=u) if k == 1 else dict(content='', self=u))
    ents = [entry(n) for n in names] + [dict(key='x' + names[0], links=dict(self=serve('ok', b'decoy'))), dict(key='nolink.txt', links={}), dict(key='nolinks')]; r.shuffle(ents)
    RES['/api/api/records/%s/files' % rec] = ('ok', json.dumps(ents if r.random() < .34 else dict(entries=ents) if r.random() < .5 else dict(files=ents)).encode(), None)
    api = []; dl.urllib.request.urlopen = redirected(api); token = r.choice(['', 'tok%d' % r.randrange(100)])
    try:
        want = [n for n in names if r.random() < .8]; fs = []; exp = {}
        for n in want:
            f = dict(name=n); p = n
            if r.random() < .5: p = 'sub/' + n; f['path'] = p
            if r.random() < .3: os.makedirs(os.path.join(d, os.path.dirname(p)), exist_ok=True); open(os.path.join(d, p), 'wb').write(b'mine'); exp[p] = b'mine'
            else: exp[p] = bodies[n]; f.update(sha256=hashlib.sha256(bodies[n]).hexdigest()) if r.random() < .5 else None
            fs.append(f)
        e, _ = attempt(dl.ensure_zenodo_files, rec, fs, d, token=token); m.check('record-files-fetched', e is None and files(d) == exp, lambda: '%r: %s expected %s' % (e, {k: len(v) for k, v in files(d).items()}, {k: len(v) for k, v in exp.items()}))
        need = any(v != b'mine' for v in exp.values()); m.check('listing-queried-once', len(api) == (1 if need else 0) and all(u == 'https://zenodo.org/api/records/%s/files' % rec + ('?token=' + token if token else '') for u in api), lambda: str(api))
        n = r.choice(names); e, u = attempt(dl.zenodo_file_url, rec, n, token); ok = e is None and real_open(u).read() == bodies[n]; m.check('record-file-url', ok, lambda: '%r %r' % (e, u))
        e, u = attempt(dl.zenodo_file_url, rec, 'absent.txt', token); m.check('absent-record-file-reported', isinstance(e, FileNotFoundError), lambda: repr(e))
        e, u = attempt(dl.zenodo_file_url, rec, r.choice(['nolink.txt', 'nolinks']), token); m.check('absent-record-file-reported', e is not None, lambda: repr(u))
        before = files(d); e, _ = attempt(dl.ensure_zenodo_files, rec, [dict(name='absent.txt')], d, token=token); m.check('absent-record-file-reported', isinstance(e, FileNotFoundError) and files(d) == before, lambda: repr(e))
        e, _ = attempt(dl.ensure_zenodo_files, rec, [dict(name=names[0], path='w.bin', sha256='0' * 64)], d, token=token); m.check('wrong-digest-refused', e is not None and files(d) == before, lambda: repr(e))
        e, _ = attempt(dl.zenodo_file_url, '404404', 'x', ''); m.check('absent-record-file-reported', isinstance(e, FileNotFoundError), lambda: repr(e))
        e, _ = attempt(dl.zenodo_file_url, '404404', 'x', 't'); m.check('absent-record-file-reported', e is not None, lambda: repr(e))
    finally: dl.urllib.request.urlopen = real_open
    m.seen('%d|%s|%d' % (len(names), bool(token), len(want))); shutil.rmtree(d)

# ------------------------------------------------------------------ archives
def mkzip(r, extra=(), n=None):
    members = {}
    for i in range(n or r.randrange(1, 12)): members[r.choice(['', 'data/', 'data/alpha/', 'data/alphabet/', 'data/beta/sub/', 'other/', 'data.old/']) + 'f%d.txt' % i] = blob(r, r.randrange(0, 3000))
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        items = [(k, v, None) for k, v in members.items()] + list(extra); r.shuffle(items)
        if r.random() < .3: z.writestr('data/', b''); z.writestr('data/alpha/', b'') 
        for k, v, attr in items:
            zi = zipfile.ZipInfo(k); zi.compress_type = z.compression
            if attr: zi.create_system = 3; zi.external_attr = attr << 16
            z.writestr(zi, v)
    return members, b.getvalue()
def deep():  # destination five levels below a private root full of canaries
    root = scratch(); p = root
    for n in ('l1', 'l2', 'l3', 'l4', 'l5'): p = os.path.join(p, n); os.makedirs(p); open(os.path.join(p, 'canary'), 'wb').write(b'canary')
    dest = os.path.join(p, 'dest'); os.makedirs(dest); out = os.path.join(p, 'outside'); os.makedirs(out); open(os.path.join(out, 'victim.txt'), 'wb').write(b'canary'); os.makedirs(os.path.join(p, 'dest-evil')); return root, dest, out
def outside(root, dest): dest = os.path.relpath(dest, root) + '/'; return {k: v for k, v in tree(root).items() if not k.startswith(dest)}
SENT = '.zenodo_extracted'
def payload(dest): return {k: v for k, v in files(dest).items() if not k.startswith('.download_cache') and os.path.basename(k) != SENT}
@contextlib.contextmanager
def archive_at(data, hits):
    u = serve('ok', data); old = dl.zenodo_file_url
    def f(*a, **k): hits.append(a); return u
    dl.zenodo_file_url = f
    try: yield u
    finally: dl.zenodo_file_url = old
def archive(m, r):
    root, dest, out = deep(); members, data = mkzip(r); hits = []; rec = str(r.randrange(1, 10**6)); fn = r.choice(['a.zip', 'data-v1.0.zip']); before = outside(root, dest)
    if r.random() < .3: open(os.path.join(dest, 'loader.py'), 'wb').write(b'#')
    pre = payload(dest)
    with archive_at(data, hits):
        done = {}
        for step in range(r.randrange(1, 5)):
            pfx = r.choice(['', '', 'data', 'data/alpha', 'data/alpha/', 'other', 'data/beta', 'nosuch']); bare = pfx.rstrip('/')
            sel = {k: v for k, v in members.items() if not pfx or k == bare or k.startswith(bare + '/')}; e, _ = attempt(dl.ensure_zenodo_archive, rec, fn, dest, prefix=pfx)
            key = pfx.rstrip('/'); dirs = [n for n in zipfile.ZipFile(io.BytesIO(data)).namelist() if pfx and n.startswith(bare + '/')]
            if pfx and not sel and not dirs and key not in done: m.check('absent-prefix-reported', isinstance(e, FileNotFoundError), lambda: '%r prefix %r' % (e, pfx)); m.seen('absent prefix'); continue
            if e is None: done[key] = 1
            exp = dict(pre)
            for q in done: exp.update({k: v for k, v in members.items() if not q or k.startswith(q + '/')})
            m.check('selected-members-extracted', e is None and payload(dest) == exp, lambda: '%r prefix %r: have %s, expected %s' % (e, pfx, sorted(payload(dest)), sorted(exp))); m.seen('prefix %r after %s' % (pfx, sorted(done)))
            # a completed extraction is not repeated
            if e is None and sel:
                v = os.path.join(dest, sorted(sel)[0]); open(v, 'wb').write(b'edited'); h = len(hits); attempt(dl.ensure_zenodo_archive, rec, fn, dest, prefix=pfx); m.check('finished-extraction-not-repeated', open(v, 'rb').read() == b'edited' and len(hits) == h, 'prefix %r extracted again' % pfx); open(v, 'wb').write(sel[sorted(sel)[0]])
        m.check('archive-downloaded-once', len(hits) <= 1, lambda: str(hits)); m.check('nothing-outside-touched', outside(root, dest) == before, lambda: str(set(outside(root, dest)) ^ set(before)))
    # another archive of the same or another record does not reuse the cached one
    members2, data2 = mkzip(r)
    with archive_at(data2, hits):
        alt = r.choice([(rec + '1', fn), (rec, 'b' + fn), (rec, fn + '.v2'), (rec, fn[:-4])]); d2 = os.path.join(dest, 'second'); 
        e, p = attempt(dl._cached_zip, dest, alt[0], alt[1]) if hasattr(dl, '_cached_zip') else (None, None)
        if p is not None: m.check('cache-belongs-to-archive', open(p, 'rb').read() == data2, lambda: 'cache of %s given for %s' % ((rec, fn), alt)); m.seen('cache %s' % (alt[1] == fn))
        elif e is not None: m.check('cache-belongs-to-archive', False, repr(e))
    shutil.rmtree(root)
def hostile(m, r):
    root, dest, out = deep(); up = r.choice(['../', '../../', 'data/../../', 'data/alpha/../../../', './../']); leaf = r.choice(['evil.txt', 'canary', 'outside/victim.txt', 'dest-evil/evil.txt', 'l9/evil.txt']); kind = r.choice(['dotdot', 'dotdot', 'absolute', 'link', 'linkfile', 'symlink-member', 'sibling'])
    attr = None; must = True; target = None
    if kind == 'dotdot': bad = [(up + leaf, b'evil', None)]
    elif kind == 'absolute': bad = [(os.path.join(out, 'abs.txt'), b'evil', None)]
    elif kind == 'sibling': bad = [('../dest-evil/evil.txt', b'evil', None)]
    elif kind == 'link': os.symlink(out, os.path.join(dest, 'lnk')); bad = [('lnk/victim.txt', b'evil', None)]
    elif kind == 'linkfile': os.symlink(os.path.join(out, 'victim.txt'), os.path.join(dest, 'lf.txt')); bad = [('lf.txt', b'evil', None)]
    else: bad = [('sl', b'../outside', stat.S_IFLNK | 0o777), ('sl/victim.txt', b'evil', None)]; must = False
    if r.random() < .3: bad = [('data/' + n if not n.startswith('/') and kind == 'dotdot' else n, b, a) for n, b, a in bad]; pfx = 'data' if kind == 'dotdot' else ''
    else: pfx = ''
    if kind == 'dotdot' and pfx: # data/../evil stays inside when it climbs only one level
        t = os.path.normpath(bad[0][0]); must = t.startswith('..')
    members, data = mkzip(r, bad); hits = []; before = outside(root, dest)
    with archive_at(data, hits): e, _ = attempt(dl.ensure_zenodo_archive, '7', 'h.zip', dest, prefix=pfx)
    m.check('nothing-outside-touched', outside(root, dest) == before, lambda: '%s %s: %r; outside changed: %s' % (kind, bad[0][0], e, sorted(k for k in set(outside(root, dest)) | set(before) if outside(root, dest).get(k) != before.get(k))))
    if must: m.check('escaping-entry-refused', e is not None, lambda: '%s %s accepted' % (kind, bad[0][0])); m.check('refused-archive-not-marked-complete', not os.path.exists(os.path.join(dest, pfx, SENT)), 'sentinel written'); m.obs('hostile archives')
    m.seen('%s|%s|%s|%s' % (kind, up, leaf, pfx))
    # a symlinked destination is itself fine
    real = os.path.join(root, 'real'); os.makedirs(real); ln = os.path.join(root, 'ln'); os.symlink(real, ln); members, data = mkzip(r)
    with archive_at(data, hits): e, _ = attempt(dl.ensure_zenodo_archive, '8', 'g.zip', ln)
    m.check('selected-members-extracted', e is None and payload(real) == members, lambda: 'symlinked destination: %r' % e); shutil.rmtree(root)

# ------------------------------------------------------------------ crashes and errors at every file-system event
def crash_points(m, r):
    what = r.choice(['file', 'archive', 'archive-prefix']); how = r.choice(['crash', 'crash', 'error']); at = 1; body = blob(r, r.choice([100, 70000])); members, data = mkzip(r, n=5); zlib_u = serve('ok', data, ext='.zip'); url = serve('ok', body)
    while at < 60:
        root = scratch(); d = os.path.join(root, 'd'); os.makedirs(d); dest = os.path.join(d, 'sub', 'f.bin'); old = None
        if what == 'file' and r.random() < .5: os.makedirs(os.path.dirname(dest)); old = b'old'; open(dest, 'wb').write(old)
        pfx = 'data' if what == 'archive-prefix' and any(k.startswith('data/') for k in members) else ''; job = dict(what=what, d=d, dest=dest, url=url if what == 'file' else zlib_u, pfx=pfx)
        n, out = child(at=at, how=how, **job); m.obs('injected ' + how)
        if what == 'file':
            got = open(dest, 'rb').read() if os.path.isfile(dest) else None; m.check('target-never-partial', got in (old, body), lambda: '%s at event %d: target has %s bytes' % (how, at, None if got is None else len(got)))
            if out.startswith('error'): m.check('no-leftovers', set(files(d)) <= {'sub/f.bin'} and got in (old, body), lambda: '%s at event %d leaves %s' % (how, at, sorted(files(d))))
        else:
            s = os.path.join(d, pfx, SENT); want = {k: v for k, v in members.items() if not pfx or k.startswith(pfx + '/')}
            if os.path.exists(s): m.check('marked-complete-means-complete', all(payload(d).get(k) == v for k, v in want.items()), lambda: '%s at event %d: marked complete with %s of %s' % (how, at, len(payload(d)), len(want)))
        # recovery
        n2, out2 = child(**job)
        if what == 'file': m.check('recovers-after-fault', out2 == 'done' and open(dest, 'rb').read() == body, lambda: '%s at event %d then %s' % (how, at, out2))
        else: m.check('recovers-after-fault', out2 == 'done' and payload(d) == want, lambda: '%s at event %d (%s) then %s: %s of %s' % (how, at, what, out2, sorted(payload(d)), sorted(want)))
        m.seen('%s|%s|%d|%s' % (what, how, at, out.split()[0] if out else '')); shutil.rmtree(root); at += 1
        if out == 'done': break
    m.obs('fault points', at - 1)
real_zurl = dl.zenodo_file_url

# ------------------------------------------------------------------ concurrent callers
def concurrent(m, r):
    d = scratch(); body = blob(r, r.randrange(200000, 500000)); url = serve('slow', body, r.choice([.001, .003])); dest = os.path.join(d, 'f.bin'); n = r.randrange(2, 5); procs = r.random() < .5; sha = r.choice(['', hashlib.sha256(body).hexdigest()]); bad = []; stop = threading.Event(); polls = [0]
    def watch():
        while not stop.is_set():
            try: b = open(dest, 'rb').read(); polls[0] += 1; bad.append(len(b)) if b != body else None
            except FileNotFoundError: pass
            time.sleep(.0005)
    errs = []
    def work(delay):
        time.sleep(delay)
        try: dl.download_file(url, dest, sha256=sha, show_progress=False)
        except Exception as e: errs.append(repr(e))
    delays = [r.choice([0, 0, .002, .008]) for _ in range(n)]; kill = procs and r.random() < .4; w = threading.Thread(target=watch); w.start()
    if procs:
        pids = [zy(op='start', what='file', d=d, dest=dest, url=url, sha=sha, delay=x) for x in delays]
        if kill: time.sleep(r.uniform(0, .03)); os.kill(pids[0], signal.SIGKILL)
        for i, p in enumerate(pids):
            o = zy(op='wait', pid=p)
            if not o.endswith(' done') and not (kill and i == 0): errs.append('process %d: %s' % (i, o))
    else:
        ts = [threading.Thread(target=work, args=(x,)) for x in delays]; [t.start() for t in ts]; [t.join() for t in ts]
    stop.set(); w.join(); m.obs('polls of the target', polls[0])
    m.check('target-never-partial', not bad, lambda: 'a reader saw %s of %d bytes while %d callers ran (%s)' % (bad[:4], len(body), n, 'processes' if procs else 'threads'))
    m.check('concurrent-callers-succeed', not errs, lambda: '%s' % errs[:3]); got = open(dest, 'rb').read() if os.path.isfile(dest) else b''; m.check('target-never-partial', got == body, lambda: 'final file has %d of %d bytes' % (len(got), len(body)))
    left = set(files(d)) - {'f.bin'}; m.check('no-leftovers', not left or kill, lambda: str(left)); m.seen('%d|%s|%s|%s' % (n, procs, kill, bool(sha))); shutil.rmtree(d)

# ------------------------------------------------------------------ where data goes
def places(m, r):
    d = scratch(); home = os.path.join(d, 'home'); os.makedirs(home); old = os.environ.get('HOME'); os.environ['HOME'] = home
    try:
        mod = os.path.join(d, *r.choice([['resources', 'fluxes', 'X'], ['a', 'resources', 'b'], ['plain']])); m.check('writable-place-used', dl.writable_data_dir(mod) == mod and os.path.isdir(mod) and not os.listdir(mod), 'writable %s' % mod)
        open(os.path.join(d, 'wall'), 'w').write(''); tail = r.choice([['resources', 'fluxes', 'Y-%d' % r.randrange(99)], ['resources', 'processes', 'P', 'v1'], ['somewhere']]); ro = os.path.join(d, 'wall', *tail); got = dl.writable_data_dir(ro)
        m.check('fallback-place', got == os.path.join(home, '.siren', *tail) and os.path.isdir(got) and not os.listdir(got), lambda: '%s -> %s' % (ro, got)); m.check('writable-place-used', open(os.path.join(d, 'wall')).read() == '', 'wall')
        inst, down = os.path.join(d, 'i'), os.path.join(d, 'w'); os.makedirs(inst); os.makedirs(down); a, b, dr = r.random() < .5, r.random() < .5, r.random() < .2
        if a: open(os.path.join(inst, 'f'), 'w').write('i')
        elif dr: os.makedirs(os.path.join(inst, 'f'))
        if b: open(os.path.join(down, 'f'), 'w').write('w')
        m.check('installed-file-preferred', dl.resolve_data_path(inst, down, 'f') == os.path.join(inst if a else down, 'f'), '%s %s %s' % (a, b, dr)); m.seen('%s %s %s %s' % (a, b, dr, tail[0]))
    finally: os.environ['HOME'] = old if old is not None else ''; shutil.rmtree(d)
try:
    M.run('one_file', one_file, 160, 4000); M.run('file_list', file_list, 120, 4000); M.run('zenodo', zenodo, 40, 1000); M.run('archive', archive, 120, 4000); M.run('hostile', hostile, 160, 5000); dl.zenodo_file_url = real_zurl
    M.run('crash_points', crash_points, 10, 250); dl.zenodo_file_url = real_zurl; M.run('concurrent', concurrent, 30, 600); M.run('places', places, 60, 1500)
finally: shutil.rmtree(ROOT, ignore_errors=True)
M.done()
