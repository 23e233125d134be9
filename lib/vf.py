"""Shared machinery: scratch directory, builds from /repo's working tree, servers, evidence, verdicts."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CIMPL = os.path.join(REPO, 'c-impl')
SIDH = os.path.join(CIMPL, 'PQCrypto-SIDH')
SRC = os.path.join(SIDH, 'src')
HARN = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
SIZES = (434, 503, 610, 751)
NCPU = os.cpu_count() or 4
BY = {434: 55, 503: 63, 610: 77, 751: 94}
E2 = {434: 216, 503: 250, 610: 305, 751: 372}
E3 = {434: 137, 503: 159, 610: 192, 751: 239}
P = {b: 2**E2[b] * 3**E3[b] - 1 for b in SIZES}
class Small(int):
    """a field size whose library was built with fewer repetitions"""
    reps = 0
class _Reps(dict):
    def __getitem__(s, b): return getattr(b, 'reps', 0) or dict.__getitem__(s, int(b))
REPS = _Reps({434: 219, 503: 219, 610: 329, 751: 438})
HASH = {434: 32, 503: 32, 610: 48, 751: 64}
HIDE = {434: 64, 503: 64, 610: 96, 751: 128}
WIDTH, HEIGHT = 4, 7

TMP = None
def tmp():
    global TMP
    if TMP is None:
        TMP = tempfile.mkdtemp(prefix='vf.', dir=os.environ.get('VERIF_TMP', '/tmp'))
        atexit.register(cleanup)
        def die(sig, frame):
            cleanup(); os._exit(128 + sig)
        signal.signal(signal.SIGTERM, die); signal.signal(signal.SIGINT, die)
    return TMP
_procs = []
def cleanup():
    for p in _procs:
        try: p.kill()
        except Exception: pass
    if TMP and TMP.startswith(('/tmp/vf.',)) and os.path.isdir(TMP): shutil.rmtree(TMP, ignore_errors=True)

class BuildError(Exception): pass

_t0 = time.time()
def log(*a): print('[%6.1fs]' % (time.time() - _t0), *a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ builds
BASE = '-std=gnu11 -w -fPIE -D _AMD64_ -D __NIX__ -march=x86-64-v3 -madx -maes -pthread'.split()
ARCHF = {'fast': '-D _FAST_ -D _MULX_ -D _ADX_'.split(), 'generic': ['-D', '_GENERIC_'],
         'mulx': '-D _FAST_ -D _MULX_'.split(), 'nomulx': '-D _FAST_'.split()}
OPT = {'rel': '-O3 -DNDEBUG -DTHREADING'.split(),
       'seq': '-O3 -DNDEBUG'.split(),                    # single threaded build of the library
       'dbg': '-O1 -g -DTHREADING'.split(),              # the library's own assertions enabled
       'asan': '-O1 -g -fno-omit-frame-pointer -DNDEBUG -DTHREADING -fsanitize=address,undefined -fno-sanitize=alignment,function -fno-sanitize-recover=undefined'.split(),
       'asandbg': '-O1 -g -fno-omit-frame-pointer -DTHREADING -fsanitize=address,undefined -fno-sanitize=alignment,function -fno-sanitize-recover=undefined'.split(),
       'tsan': '-O1 -g -DNDEBUG -DTHREADING -fsanitize=thread'.split(),
       'msan': '-O1 -g -fno-omit-frame-pointer -DNDEBUG -DTHREADING -fsanitize=memory -fsanitize-memory-track-origins=1'.split(),
       'cov': '-O1 -DNDEBUG -DTHREADING'.split(),
       'vg': '-O2 -g -DNDEBUG'.split()}

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def _cc(cmd):
    r = run(cmd)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr.decode('utf8', 'replace')[-3000:])

_objs = {}
_lock = threading.Lock()
def compile_obj(src, flags, cc='clang'):
    key = hashlib.sha256(repr((src, flags, cc)).encode()).hexdigest()[:20]
    with _lock:
        if key in _objs: f = _objs[key]; mine = False
        else: f = _objs[key] = cf.Future(); mine = True
    if mine:
        out = os.path.join(tmp(), key + '.o')
        try:
            _cc([cc] + flags + ['-c', src, '-o', out]); f.set_result(out)
        except BaseException as e: f.set_exception(e)
    return f.result()

def lib_objs(bits, kind, arch, opt, rng=True, cc='clang', extra=(), src=None):
    """kind: poik | sidh | comp ; returns list of (src, flags)"""
    fl = OPT[opt] + BASE + ARCHF[arch] + list(extra)
    SRC = src or globals()['SRC']
    d = os.path.join(SRC, 'P%d' % bits)
    main = {'poik': 'P%d_poik.c', 'sidh': 'P%d.c', 'comp': 'P%d_compressed.c'}[kind] % bits
    o = [(os.path.join(d, main), fl)]
    if arch == 'generic': o.append((os.path.join(d, 'generic', 'fp_generic.c'), fl))
    else:
        o.append((os.path.join(d, 'AMD64', 'fp_x64.c'), fl))
        asmfl = [f for f in fl if not f.startswith(('-fsanitize', '-fno-sanitize'))]
        o.append((os.path.join(d, 'AMD64', 'fp_x64_asm.S'), asmfl))
    o.append((os.path.join(SRC, 'sha3', 'fips202.c'), fl))
    if rng: o.append((os.path.join(SRC, 'random', 'random.c'), fl))
    return o

def link(out, objs, harness, opt, hflags=(), lflags=(), cc='clang'):
    """objs: list of (src, flags); harness: list of harness sources compiled with hflags"""
    jobs = [(s, f) for s, f in objs] + [(h, OPT[opt] + BASE + list(hflags)) for h in harness]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        files = list(ex.map(lambda j: compile_obj(j[0], j[1], cc), jobs))
    san = [f for f in OPT[opt] if f.startswith('-fsanitize')]
    path = os.path.join(tmp(), out); part = '%s.%d' % (path, threading.get_ident())
    _cc([cc] + san + ['-pthread'] + files + ['-o', part, '-lm'] + list(lflags))
    with _link_lock:      # several tasks may ask for the same program at once, one may be running it already
        if os.path.exists(path): os.unlink(part)
        else: os.rename(part, path)
    return path
_link_lock = threading.Lock()

def build_all(jobs):
    """jobs: list of zero-argument callables, run in parallel; returns their results"""
    with cf.ThreadPoolExecutor(NCPU) as ex: return [f.result() for f in [ex.submit(j) for j in jobs]]

def small(bits, reps=16): b = Small(bits); b.reps = reps; return b
_small_lock = threading.Lock()
def small_tree(reps):
    """copy of the library in which a proof has only this many repetitions (everything else unchanged); None if the tree is laid out differently"""
    d = os.path.join(tmp(), 'reps%d' % reps)
    with _small_lock:
        if os.path.isdir(d): return d
        f = os.path.join(SRC, 'poik.h')
        try: t = open(f, newline='').read()
        except OSError: return None
        t2, n = re.subn(r'(#\s*define\s+POIK_REPS\s+)\(?\d+\)?', r'\g<1>%d' % reps, t)
        if not n: return None
        shutil.copytree(SRC, d); open(os.path.join(d, 'poik.h'), 'w', newline='').write(t2)
        return d
def poik_server(bits, arch='fast', opt='rel', rng='real', name=None, atomjit=False):
    """rng: 'real' (random.c) or 'stub' (deterministic, logged); atomjit (opt tsan): delays around atomic accesses (env ATOMJIT)"""
    SRC = globals()['SRC']; reps = getattr(bits, 'reps', 0)
    if reps:
        SRC = small_tree(reps); name = (name or 'poik%d_%s_%s_%s' % (bits, arch, opt, rng)) + '_reps%d' % reps
        if not SRC: return None
    objs = lib_objs(bits, 'poik', arch, opt, rng=(rng == 'real'), src=SRC)
    h = [os.path.join(HARN, 'srv_poik.c')] + ([os.path.join(HARN, 'rng_stub.c')] if rng == 'stub' else [])
    hf = ['-I', SRC, '-D', 'POIK_BITS=%d' % bits]
    if rng == 'stub': hf += ['-D', 'RNG_STUB']
    lf = ['-Wl,--wrap=shake256', '-Wl,--wrap=sysconf']; name = name or 'poik%d_%s_%s_%s' % (bits, arch, opt, rng)
    if atomjit:
        name += '_aj'; h.append(os.path.join(HARN, 'atomjit.c'))
        lf += ['-Wl,--wrap=__tsan_atomic%d_%s' % (n, o) for n in (8, 16, 32, 64) for o in 'load store exchange fetch_add fetch_sub fetch_and fetch_or fetch_xor'.split()]
    return link(name, objs, h, opt, hf, lf)

def cli(bits, which, arch='fast', opt='rel'):
    objs = lib_objs(bits, 'poik', arch, opt)
    return link('%s%d_%s_%s' % (which, bits, arch, opt), objs, [os.path.join(CIMPL, which + '.c')], opt, ['-I', SRC, '-D', 'POIK_BITS=%d' % bits])

_refso = None
def build_ref():
    out = os.path.join(tmp(), 'ref.so')
    _cc(['g++', '-O2', '-march=x86-64-v3', '-std=c++17', '-w', '-shared', '-fPIC', os.path.join(VERIF, 'ref', 'ref.cpp'), '-o', out])
    return out

SANENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1',
          'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
          'TSAN_OPTIONS': 'exitcode=99:halt_on_error=0:report_signal_unsafe=0',
          'MSAN_OPTIONS': 'exitcode=99'}
def env(**kw):
    e = dict(os.environ); e.update(SANENV); e.update({k: str(v) for k, v in kw.items()}); return e

# ------------------------------------------------------------------ server protocol
class Crash(Exception):
    def __init__(self, why, err): super().__init__(why); self.why = why; self.err = err
class Server:
    def __init__(self, path, timeout=300, **envkw):
        self.path, self.envkw, self.timeout = path, envkw, timeout
        self.lock = threading.Lock(); self.p = None; self.calls = 0
    def start(self):
        self.errf = tempfile.NamedTemporaryFile(dir=tmp(), delete=False)
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env(**self.envkw))
        _procs.append(self.p)
    def call(self, op, payload=b''):
        with self.lock:
            if self.p is None: self.start()
            self.calls += 1
            timer = threading.Timer(self.timeout, self.p.kill); timer.start()
            try:
                self.p.stdin.write(op.encode() + struct.pack('<I', len(payload)) + payload); self.p.stdin.flush()
                h = self._read(4); n = struct.unpack('<I', h)[0]
                return self._read(n)
            except (BrokenPipeError, EOFError):
                rc = self.p.wait(); timed = not timer.is_alive()
                err = open(self.errf.name, 'rb').read().decode('utf8', 'replace')
                self.p = None
                raise Crash('timeout' if timed else 'exit %d' % rc, err)
            finally: timer.cancel()
    def _read(self, n):
        b = b''
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c: raise EOFError
            b += c
        return b
    def close(self):
        if self.p is not None:
            try: self.p.stdin.close()
            except Exception: pass
            rc = self.p.wait(); self.p = None
            return rc, open(self.errf.name, 'rb').read().decode('utf8', 'replace')
        return 0, ''

# ------------------------------------------------------------------ verdicts
def known_findings():
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m: out.append(m.groups())
    except FileNotFoundError: pass
    return out

class Check:
    def __init__(self, pid, level='exploration', rule=''):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time(); self.n = 0; self.kinds = {}; self.distinct = set(); self.samples = []
        self.viol = []; self.known = []; self.notes = []; self.assumptions = []; self.extra = {}
        self.lock = threading.Lock()
    @property
    def thorough(self): return self.tier == 'thorough'
    def elapsed(self): return time.time() - self.t0
    def event(self, kind, ident=None, n=1):
        """a monitored observation; ident identifies distinct non-trivial cases"""
        with self.lock:
            self.n += n; self.kinds[kind] = self.kinds.get(kind, 0) + n
            if ident is not None:
                h = hashlib.blake2b((kind + repr(ident)).encode(), digest_size=8).digest()
                if h not in self.distinct:
                    self.distinct.add(h)
                    if len(self.samples) < 12 and sum(1 for s in self.samples if s['kind'] == kind) < 2:
                        self.samples.append({'kind': kind, 'case': str(ident)[:300]})
    def expect(self, cond, kind, ident, msg, key=None, replay=None):
        self.event(kind, ident)
        if not cond: self.violation(msg, key=key or kind, replay=replay)
        return bool(cond)
    def violation(self, msg, key='', replay=None):
        with self.lock:
            for p, k, what in known_findings():
                if p == self.pid and k == key:
                    if k not in self.known:
                        self.known.append(k); print('KNOWN-FINDING: property=%s %s' % (p, what), flush=True)
                    return
            if len(self.viol) >= 20: return
            d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.pid, len(self.viol) + 1))
            r = {'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'what': msg, 'key': key, 'data': replay}
            json.dump(r, open(path, 'w'), default=lambda b: b.hex() if isinstance(b, (bytes, bytearray)) else str(b), indent=1)
            self.viol.append({'what': msg, 'replay': path})
            print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
            log('  ', msg)
            if len(self.viol) >= (10 if self.thorough else 3): self.quit()
    def quit(self):
        """end the process with the verdict reached so far (enough violations, or time budget used up)"""
        rc = self.finish(); cleanup(); sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
    def watchdog(self, seconds):
        def fire():
            self.notes.append('time budget of %d s used up: the remaining workload was not run' % seconds); log('watchdog'); self.quit()
        t = threading.Timer(seconds, fire); t.daemon = True; t.start()
    def note(self, s): self.notes.append(s); log('note:', s)
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {'evaluations': self.n, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule or 'distinct (kind, case identity) pairs observed by a monitor',
               'samples': self.samples or [{'kind': 'none', 'case': 'none'}], 'events_by_kind': self.kinds, 'known_findings_seen': self.known, 'notes': self.notes}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(self.elapsed(), 2), 'violations': len(self.viol)}
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1)
        log('%s: %d events, %d distinct, %d violations, kinds %s' % (self.pid, self.n, len(self.distinct), len(self.viol), self.kinds))
        return 1 if self.viol else 0

class Rng:
    """deterministic byte source for workloads"""
    def __init__(self, *seed): self.k = repr(seed).encode(); self.i = 0
    def bytes(self, n):
        self.i += 1; return hashlib.shake_256(self.k + struct.pack('<Q', self.i)).digest(n)
    def u64(self): return int.from_bytes(self.bytes(8), 'little')
    def below(self, n): return int.from_bytes(self.bytes(40), 'little') % n
    def range(self, a, b): return a + self.below(b - a)
    def choice(self, s): return s[self.below(len(s))]
    def fp(self, bits): return int.from_bytes(self.bytes(BY[bits] + 16), 'little') % P[bits]
    def fp2(self, bits): return enc2(bits, self.fp(bits), self.fp(bits))

def enc2(bits, re_, im=0): return (re_ % P[bits]).to_bytes(BY[bits], 'little') + (im % P[bits]).to_bytes(BY[bits], 'little')
def dec2(bits, b): return int.from_bytes(b[:BY[bits]], 'little'), int.from_bytes(b[BY[bits]:2 * BY[bits]], 'little')

# ------------------------------------------------------------------ SIDH / SIKE servers
SKA = {434: 27, 503: 32, 610: 39, 751: 47}; SKB = {434: 28, 503: 32, 610: 38, 751: 48}
MSGB = {434: 16, 503: 24, 610: 24, 751: 32}; SSB = {434: 16, 503: 24, 610: 24, 751: 32}
BITS_A = E2
BITS_B = {b: (3**E3[b]).bit_length() - 1 for b in SIZES}
def sidh_server(bits, arch='fast', opt='rel', rng='tape', comp=False, exact=False, src=None, tag=''):
    objs = lib_objs(bits, 'comp' if comp else 'sidh', arch, opt, rng=(rng == 'real'), src=src)
    hf = ['-I', SRC, '-D', 'BITS=%d' % bits] + (['-D', 'COMP'] if comp else []) + (['-D', 'TAPE'] if rng == 'tape' else []) + (['-D', 'EXACT'] if exact else [])
    return link('sidh%d_%s_%s_%s%s%s%s' % (bits, arch, opt, rng, '_comp' if comp else '', '_x' if exact else '', tag), objs, [os.path.join(HARN, 'srv_sidh.c')], opt, hf)
class SSrv(Server):
    """typed face of srv_sidh; every call returns (rc, outputs); guard-zone or input violations are collected in .dirty"""
    def __init__(s, bits, path, comp=False, label='', **kw):
        super().__init__(path, **kw); s.bits, s.comp, s.label = bits, comp, label; s.dirty = []; s.last = (0, 0); s._sz = None
    def sz(s):
        if s._sz is None: s._sz = struct.unpack('<8I', s.op('I')[1])
        return s._sz
    def op(s, op, payload=b''):
        r = s.call(op, payload); rc, fl, calls, drawn = struct.unpack_from('<BBII', r); s.last = (calls, drawn)
        if fl: s.dirty.append((op, fl, payload.hex()))
        return rc, r[10:]
    def tape(s, data=b'', fail_at=0): s.op('T', struct.pack('<I', fail_at) + data)
    def rnd(s, w): return s.op('r' if w == 'A' else 'R')
    def keygen(s, w, sk): return s.op('a' if w == 'A' else 'b', sk)
    def agree(s, w, sk, pk): return s.op('x' if w == 'A' else 'y', sk + pk)
    def keypair(s): rc, o = s.op('K'); n = s.sz()[5]; return rc, o[:n], o[n:]
    def enc(s, pk): rc, o = s.op('E', pk); n = s.sz()[6]; return rc, o[:n], o[n:]
    def dec(s, sk, ct): return s.op('D', sk + ct)
