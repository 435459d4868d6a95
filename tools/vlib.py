"""Build, exploration, replay and reporting shared by all checks."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 4))))
CLANG, LINK, OPT, NM = 'clang++-18', 'llvm-link-18', 'opt-18', 'llvm-nm-18'
for a, b in (('CLANG', 'clang++'), ('LINK', 'llvm-link'), ('OPT', 'opt'), ('NM', 'llvm-nm')):
    if not shutil.which(globals()[a]):
        for c in (b, '/usr/lib/llvm-18/bin/' + b):
            if shutil.which(c): globals()[a] = c
BCF = '-std=c++17 -O1 -Xclang -disable-llvm-passes -emit-llvm -gline-tables-only -D_FORTIFY_SOURCE=0 -D__NO_CTYPE -w'.split()
NATF = '-std=c++17 -O1 -g -w -DNATIVE -pthread -fsanitize=address -fno-omit-frame-pointer -D_FORTIFY_SOURCE=0'.split()
REDIR = '''socket gethostbyname getaddrinfo freeaddrinfo fcntl fcntl64 ioctl connect select poll getsockopt setsockopt send write recv read shutdown close sleep usleep nanosleep time clock_gettime gettimeofday signal sigaction pthread_sigmask sigprocmask sigpending sigwait sigtimedwait sigwaitinfo
TLS_client_method TLS_method OPENSSL_init_ssl OPENSSL_init_crypto ERR_get_error ERR_peek_error ERR_clear_error ERR_error_string ERR_error_string_n ERR_reason_error_string SSL_get_error SSL_shutdown SSL_CTX_new SSL_CTX_free SSL_CTX_set_default_verify_paths SSL_CTX_set_verify SSL_CTX_ctrl SSL_CTX_set_options
SSL_CTX_load_verify_locations BIO_new_ssl_connect SSL_set_fd SSL_ctrl SSL_set1_host SSL_set_verify BIO_ctrl SSL_connect SSL_do_handshake SSL_get_verify_result SSL_get1_peer_certificate SSL_get_peer_certificate SSL_get0_peer_certificate
X509_free X509_verify_cert_error_string BIO_free BIO_free_all SSL_free BIO_test_flags BIO_write BIO_puts SSL_write BIO_read SSL_read'''.split()

MARK = VERIF + '/model/include/symx_shared.h'       # puts the library's variables in sections of their own

class BuildError(Exception): pass

def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    if p.returncode: raise BuildError(' '.join(cmd)[:300] + '\n' + p.stdout[-3000:])
    return p.stdout

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.relpath(p, '/').encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def repo_files():
    r = [p for p in glob.glob(REPO + '/src/**/*', recursive=True) if p.endswith(('.cpp', '.h', '.hpp', '.cc', '.c')) and '/example/' not in p]
    return sorted(r)
def repo_sources(): return [p for p in repo_files() if p.endswith(('.cpp', '.cc')) and '_WIN' not in p]

def atomic(path, build):
    """build(tmp) makes the file or directory tmp; then it is moved to path"""
    if os.path.exists(path): return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d.tmp' % (path, os.getpid())
    build(tmp)
    try: os.rename(tmp, path)
    except OSError:
        if os.path.isdir(tmp): shutil.rmtree(tmp)
    return path

def pool(jobs):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(sh, j) for j in jobs]: f.result()

def build_engine():
    src = glob.glob(VERIF + '/engine/*')
    d = os.path.join(BUILD, 'engine-' + digest(src))
    def b(t):
        os.makedirs(t)
        pool([['g++', '-O2', '-std=c++17', '-w', '-I/usr/lib/llvm-18/include', '-c', VERIF + '/engine/%s.cpp' % f, '-o', t + '/%s.o' % f] for f in ('symx', 'expr', 'solver')])
        sh(['g++', '-o', t + '/symx', t + '/symx.o', t + '/expr.o', t + '/solver.o', '-L/usr/lib/llvm-18/lib', '-Wl,-rpath,/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-lpthread'])
    return atomic(d, b) + '/symx'

def build_rt():
    src = glob.glob(VERIF + '/model/*.cpp') + glob.glob(VERIF + '/model/include/*') + [VERIF + '/harness/sym.h', VERIF + '/harness/world.h', VERIF + '/harness/world.cpp']
    d = os.path.join(BUILD, 'rt-' + digest(src, ' '.join(BCF)))
    def b(t):
        os.makedirs(t)
        I = ['-I' + VERIF + '/model/include', '-I' + VERIF + '/harness']
        pool([[CLANG, *BCF, *I, *x, '-c', s, '-o', t + '/' + o] for s, o, x in ((VERIF + '/model/rt.cpp', 'rt.bc', ['-fno-access-control']), (VERIF + '/model/fs.cpp', 'fs.bc', []), (VERIF + '/harness/world.cpp', 'world.bc', []))])
    return atomic(d, b)

def build_repo_bc():
    d = os.path.join(BUILD, 'repo-' + digest(repo_files() + glob.glob(VERIF + '/model/include/*'), REPO + ' '.join(BCF)))
    def b(t):
        os.makedirs(t)
        pool([[CLANG, *BCF, '-I' + VERIF + '/model/include', '-include', MARK, '-I' + REPO + '/src', '-c', s, '-o', t + '/' + os.path.relpath(s, REPO + '/src').replace('/', '_') + '.bc'] for s in repo_sources()])
    return atomic(d, b)

def build_bc(h):
    """whole-program bitcode of harness h"""
    repo = build_repo_bc(); rt = build_rt()
    hs = VERIF + '/harness/%s.cpp' % h
    hh = [x for x in glob.glob(VERIF + '/harness/*.h')]
    out = os.path.join(BUILD, 'bc-%s-%s.bc' % (h, digest([hs] + hh, repo + rt)))
    def b(t):
        sh([CLANG, *BCF, '-I' + VERIF + '/model/include', '-I' + REPO + '/src', '-I' + VERIF + '/harness', '-c', hs, '-o', t + '.h'])
        sh([LINK, t + '.h', *sorted(glob.glob(rt + '/*.bc')), *sorted(glob.glob(repo + '/*.bc')), '-o', t + '.l'])
        api = [l.split()[-1] for l in sh([NM, '--defined-only', t + '.l']).splitlines() if l.split() and l.split()[-1].startswith('env_')]
        sh([OPT, '-passes=function(mem2reg,simplifycfg,early-cse),cgscc(inline),function(mem2reg,simplifycfg,early-cse,instsimplify),internalize,globaldce',
            '-internalize-public-api-list=' + ','.join(['sym_main'] + api), t + '.l', '-o', t])
        os.remove(t + '.h'); os.remove(t + '.l')
    return atomic(out, b)

def build_native_lib():
    hh = glob.glob(VERIF + '/harness/*.h') + [VERIF + '/harness/world.cpp', VERIF + '/harness/native.cpp']
    d = os.path.join(BUILD, 'nat-' + digest(repo_files() + hh + [VERIF + '/tools/vlib.py'], REPO + ' '.join(NATF + REDIR)))
    def b(t):
        os.makedirs(t)
        I = ['-I' + REPO + '/src', '-I' + VERIF + '/harness']
        jobs = [['g++', *NATF, *I, '-c', s, '-o', t + '/r_' + os.path.relpath(s, REPO + '/src').replace('/', '_') + '.o'] for s in repo_sources()]
        jobs += [['g++', *NATF, *I, '-c', VERIF + '/harness/%s.cpp' % s, '-o', t + '/%s.o' % s] for s in ('world', 'native')]
        pool(jobs)
        red = []
        for s in REDIR: red += ['--redefine-sym', s + '=env_' + s]
        for s, k in (('steady', ''), ('system', '2')): red += ['--redefine-sym', '_ZNSt6chrono3_V212%s_clock3nowEv=env_clock_ns%s' % (s, k)]
        def own(o):      # the library's variables get a section (and pages) of their own
            ns = set(re.findall(r'\] (\.(?:bss|data)(?:\.\S*)?) ', sh(['readelf', '-SW', o])))
            return [x for n in sorted(ns) if not n.startswith('.data.rel.ro') for x in ('--rename-section', n + '=lbss,alloc,load,data,contents')]
        pool([['objcopy', *red, *own(o), o] for o in glob.glob(t + '/r_*.o')])
        for n in ('a_pad', 'z_pad'):
            open(t + '/%s.c' % n, 'w').write('char %s[4096] __attribute__((section("lbss"), aligned(4096)));\n' % n); sh(['gcc', '-c', t + '/%s.c' % n, '-o', t + '/%s.o' % n])
    return atomic(d, b)

def build_native(h):
    lib = build_native_lib()
    hs = VERIF + '/harness/%s.cpp' % h
    out = os.path.join(BUILD, 'native-%s-%s' % (h, digest([hs], lib)))
    def b(t):
        sh(['g++', *NATF, '-I' + REPO + '/src', '-I' + VERIF + '/harness', '-c', hs, '-o', t + '.o'])
        sh(['g++', '-fsanitize=address', '-pthread', '-o', t, t + '.o', *sorted(glob.glob(lib + '/*.o'))])
        os.remove(t + '.o')
    return atomic(out, b)

def explore(symx, bc, case, limit, seed, samples, prop):
    with tempfile.NamedTemporaryFile(suffix='.json') as f:
        cmd = [symx, '-o', f.name, '-t', str(limit), '-seed', str(seed), '-samples', str(samples), '-maxviol', str(case.get('maxviol', 40)), '-repo', REPO + '/src/']
        cmd += case.get('opts', [])
        ps = dict(case.get('params', {})); ps['prop'] = prop
        for k, v in ps.items(): cmd += ['-p', '%s=%s' % (k, v)]
        p = subprocess.run(cmd + [bc], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        try: return json.load(open(f.name))
        except Exception: return {'engine_error': (p.stderr or '')[-500:] + ' rc=%s' % p.returncode}

def accesses(inputs): return [l for l in inputs.splitlines() if l.startswith('C access ')]
def confirm(native, case, inputs, prop):
    """replay a counterexample; a switch of threads at a memory access is searched for among the accesses of the real code"""
    if not any(l.endswith(' 1') for l in accesses(inputs)): return (*replay(native, case, inputs, prop)[:2], case)
    def at(k): return dict(case, params=dict(case['params'], access=k))
    k, txt, tr = replay(native, at(-2), inputs, prop)
    m = re.search(r'T accesses ([0-9a-f]{8})', tr)
    if k != 'ok' or not m: return ('mismatch', 'no replay with watched memory: ' + k + ' ' + txt, case)
    n = int.from_bytes(bytes.fromhex(m.group(1)), 'little'); bad = ('assert', 'memory', 'abort')
    for lo in range(0, min(n, 4000), 8):
        with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda i: (i, *replay(native, at(i), inputs, prop, 10)[:2]), range(lo, min(lo + 8, n))))
        for i, k, txt in rs:
            if k in bad: return (k, txt, at(i))
    return ('ok', '', case)

def replay(native, case, inputs, prop, timeout=60):
    """run the real code on one assignment; returns (kind, text, trace)"""
    d = tempfile.mkdtemp(prefix='vreplay')
    try:
        with open(d + '/in.txt', 'w') as f: f.write('\n'.join(l for l in inputs.splitlines() if not l.startswith('C access ')) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=97:alloc_dealloc_mismatch=1:detect_stack_use_after_return=0:allocator_may_return_null=1:malloc_context_size=5:print_legend=0:handle_abort=0')
        ps = dict(case.get('params', {})); ps['prop'] = prop
        try: p = subprocess.run([native, 'in.txt'] + ['%s=%s' % kv for kv in ps.items()], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired: return 'hang', 'no answer within %d s' % timeout, ''
        out = p.stdout.decode('latin1'); err = p.stderr.decode('latin1')
        tr = '\n'.join(l for l in out.splitlines() if l.startswith('T '))
        if p.returncode == 0: return 'ok', '', tr
        m = re.search(r'ASSERT_FAILED: (.*)', out)
        if p.returncode == 99 and m: return 'assert', m.group(1), tr
        if p.returncode == 97:
            m = re.search(r'AddressSanitizer: ([^\n]*)', err); st = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)', err)[:6]
            return 'memory', (m.group(1)[:120] if m else 'sanitizer') + ' in ' + ' < '.join(st), tr
        if p.returncode == 98: return 'assume', '', tr
        if p.returncode in (95, 96): return 'mismatch', out[-200:], tr
        return 'abort', 'exit %d %s' % (p.returncode, err[-300:]), tr
    finally: shutil.rmtree(d, ignore_errors=True)
