#!/usr/bin/env python3
"""Check driver.

  verif.py check <PID> [--tier quick|thorough] [--seed N]   run one property's check
  verif.py setup                                            build everything once
  verif.py replay <file>                                    run one recorded witness again
  verif.py all [--tier ..] [PIDs]                           run many checks (development)

Builds what it needs from the working tree of the repository (default /repo) into
/verif/.build, keyed by content.  Exit status of `check`: 0 held, 1 violation, 2 error.
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, fcntl, glob, struct, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
HARNESS = os.path.join(HERE, 'harness')
NCPU = min(8, os.cpu_count() or 8)
CXX = 'clang++-20'
sys.path.insert(0, HERE)
from checks import CHECKS, LEVEL_NOTES  # noqa: E402

ENV = dict(os.environ)
ENV.pop('ASAN_OPTIONS', None); ENV.pop('UBSAN_OPTIONS', None); ENV.pop('TSAN_OPTIONS', None)
ENV['LC_ALL'] = 'C.UTF-8'
for cand in ('/usr/bin/llvm-symbolizer-20', '/usr/lib/llvm-20/bin/llvm-symbolizer', '/usr/bin/llvm-symbolizer-18'):
    if os.path.exists(cand):
        ENV['ASAN_SYMBOLIZER_PATH'] = ENV['UBSAN_SYMBOLIZER_PATH'] = ENV['TSAN_SYMBOLIZER_PATH'] = cand
        break

FLAVORS = {
    # nonnull-attribute: memcpy(p, null, 0) is well defined since C2y and in glibc
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute'],
    'tsan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'plain': ['-O2', '-g1'],
    # run below valgrind: reads of undefined values, which the compiler's sanitizers do not see
    'memcheck': ['-O1', '-g1', '-fno-omit-frame-pointer', '-gdwarf-4'],
}


class CheckError(Exception):
    pass


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        m.update(p + b'\0')
    return m.hexdigest()[:20]


def file_digest(paths):
    m = hashlib.sha256()
    for p in sorted(paths):
        m.update(os.path.basename(p).encode() + b'\0')
        with open(p, 'rb') as f:
            m.update(f.read())
        m.update(b'\0')
    return m.hexdigest()[:20]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors='replace', env=ENV, **kw)


def unique(path):
    """A name beside path that no other thread or process uses: several may build the same file at once."""
    return '%s.tmp%d-%s' % (path, os.getpid(), os.urandom(6).hex())


def config_dir():
    d = os.path.join(BUILD, 'gen')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'pystd_config.hpp')
    # what meson generates from include/pystd_config.hpp.in when libpcre2 is present
    with open(os.path.join(REPO, 'include/pystd_config.hpp.in')) as f:
        text = re.sub(r'#mesondefine\s+(\w+)', r'#define \1', f.read())
    if not os.path.exists(p) or open(p).read() != text:
        tmp = unique(p)
        with open(tmp, 'w') as f:
            f.write(text)
        os.replace(tmp, p)
    return d


def compile_many(jobs):
    """jobs: list of (cmd, out)."""
    def one(j):
        cmd, out = j
        tmp = unique(out)
        r = run(cmd + ['-o', tmp])
        if r.returncode != 0:
            raise CheckError('compilation failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
        os.replace(tmp, out)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def prune(pattern, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, pattern)), key=lambda p: os.path.getmtime(p))
    for d in ds[:-keep]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)


def build_lib(flavor, src=None, inc=None, tag='lib', only=None, defs=()):
    src = src or os.path.join(REPO, 'src')
    inc = inc or os.path.join(REPO, 'include')
    gen = config_dir()
    srcs = sorted(glob.glob(src + '/*.cpp'))
    if only:
        srcs = [s for s in srcs if re.search(only, os.path.basename(s))]
    key = h(file_digest(srcs + glob.glob(src + '/*.hpp') + glob.glob(inc + '/*.hpp')),
            open(gen + '/pystd_config.hpp').read(), json.dumps([FLAVORS[flavor], list(defs)]))
    d = os.path.join(BUILD, '%s-%s-%s' % (tag, flavor, key))
    with Lock('%s-%s' % (tag, flavor)):
        if not os.path.exists(d + '/ok'):
            os.makedirs(d, exist_ok=True)
            jobs = []
            for s in srcs:
                jobs.append(([CXX, '-std=c++26', '-nostdinc++', '-DPYSTD_HAS_REGEX', '-w'] + FLAVORS[flavor] +
                             list(defs) + ['-I' + inc, '-I' + src, '-I' + gen, '-c', s],
                             d + '/' + os.path.basename(s) + '.o'))
            compile_many(jobs)
            open(d + '/ok', 'w').close()
        os.utime(d)
        prune('%s-%s-*' % (tag, flavor), 3)
    return sorted(glob.glob(d + '/*.o')), key


class BuildBroken(CheckError):
    """A program that used to build against the tree does not any more."""


REF25 = os.path.join(HERE, 'data', 'epoch2025')
REF25_DEFS = ['-Dpystd2025=pystd2025ref']


LOCALES = [('tr_TR', 'ISO-8859-9'), ('tr_TR', 'UTF-8'), ('lt_LT', 'UTF-8'), ('de_DE', 'ISO-8859-1'), ('el_GR', 'ISO-8859-7')]


def locale_dir():
    """Locales whose rules for letters differ from those of the C locale, made with localedef."""
    d = os.path.join(BUILD, 'locale')
    os.makedirs(d, exist_ok=True)
    with Lock('locale'):
        def one(lc):
            name = '%s.%s' % lc
            if not os.path.exists('%s/%s/LC_CTYPE' % (d, name)):
                tmp = unique(os.path.join(d, name))
                try:
                    run(['localedef', '-i', lc[0], '-f', lc[1], tmp], timeout=60)
                    if os.path.exists(tmp + '/LC_CTYPE'):
                        os.rename(tmp, os.path.join(d, name))
                except (OSError, subprocess.TimeoutExpired):
                    pass
                shutil.rmtree(tmp, ignore_errors=True)
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, LOCALES))
    return d


LINK_FLAGS = {'files': ['-Wl,--wrap=readdir']}


def build_harness(name, flavor, defs=(), tag=None):
    """Builds harness/<name>.cpp + vh_main.cpp against the library; returns the binary."""
    libobjs, libkey = build_lib(flavor)
    if name == 'utf8':
        ENV['VH_LOCPATH'] = locale_dir()
    inc = os.path.join(REPO, 'include')
    gen = config_dir()
    hdr = glob.glob(HARNESS + '/*.hpp') + [HARNESS + '/vh_main.cpp', HARNESS + '/%s.cpp' % name]
    epoch = name == 'epoch25'
    if epoch:  # the released sources under another namespace, and the current ones
        refobjs, refkey = build_lib(flavor, REF25 + '/src', REF25 + '/include', tag='ref25', defs=REF25_DEFS)
        libobjs = libobjs + refobjs
        libkey = h(libkey, refkey)
        hdr += [HARNESS + '/epoch25_ref.cpp', HARNESS + '/epoch25_cur.cpp']
    key = h(file_digest(hdr), libkey, json.dumps([FLAVORS[flavor], list(defs)]))
    tag = tag or name
    binp = os.path.join(BUILD, 'h-%s-%s-%s' % (tag, flavor, key))
    with Lock('h-%s-%s' % (tag, flavor)):
        if not os.path.exists(binp):
            fl = FLAVORS[flavor]
            base = [CXX, '-std=c++26', '-DPYSTD_HAS_REGEX', '-w'] + fl + ['-I' + inc, '-I' + gen, '-I' + HARNESS]
            o1 = binp + '.o1'
            mk = h(file_digest([HARNESS + '/vh_main.cpp', HARNESS + '/vh.hpp']), json.dumps(fl))
            o2 = os.path.join(BUILD, 'main-%s-%s.o' % (flavor, mk))
            jobs = [(base + list(defs) + ['-c', HARNESS + '/%s.cpp' % name], o1)]
            if not os.path.exists(o2):
                jobs.append((base + ['-c', HARNESS + '/vh_main.cpp'], o2))
            extra = []
            if epoch:
                rinc = [x if x != '-I' + inc else '-I' + REF25 + '/include' for x in base]
                rk = h(refkey, file_digest(hdr), json.dumps(fl))
                oref = os.path.join(BUILD, 'ref25tr-%s-%s.o' % (flavor, rk))
                if not os.path.exists(oref):
                    jobs.append((rinc + REF25_DEFS + ['-c', HARNESS + '/epoch25_ref.cpp'], oref))
                extra = [oref]
            compile_many(jobs)
            if epoch:
                try:
                    compile_many([(base + list(defs) + ['-c', HARNESS + '/epoch25_cur.cpp'], binp + '.o3')])
                except CheckError as e:
                    raise BuildBroken(str(e))
                extra.append(binp + '.o3')
            tmp = unique(binp)
            r = run([CXX] + fl + [o1, o2] + extra + libobjs + ['-lpcre2-8', '-lpthread', '-o', tmp] + LINK_FLAGS.get(name, []))
            if r.returncode != 0:
                raise (BuildBroken if epoch else CheckError)('link failed\n' + r.stdout[-6000:])
            os.unlink(o1)
            if epoch:
                os.unlink(binp + '.o3')
            os.replace(tmp, binp)
        os.utime(binp)
        prune('h-%s-%s-*' % (tag, flavor), 2)
    return binp


# ---------------------------------------------------------------- crash reports

def crash_key(err, code):
    kind = None
    m = re.search(r'ERROR: AddressSanitizer:? ([A-Za-z0-9_-]+)', err)
    if m:
        kind = 'asan:' + m.group(1)
    if 'VH_HANG' in err:
        kind = 'hang'
    if 'VH_MEMORY' in err:
        kind = 'memory'
    if 'VH_EXIT' in err:
        kind = 'exit-called'
    m = re.search(r'runtime error: (.*)', err)
    if m:
        t = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))
        kind = 'ubsan:' + re.sub(r'[^A-Za-z]+', '-', t)[:60]
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        kind = 'assert:' + re.sub(r'\s+', '', m.group(1))[:80]
    m = re.search(r'internal failure: (.*)', err)
    if m and not kind:
        kind = 'internal_failure:' + m.group(1)[:60]
    m = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]*)", err)
    if m:
        kind = 'tsan:' + m.group(1).strip().replace(' ', '-')
    m = re.search(r'^==\d+== (Invalid \w+|Conditional jump|Use of uninit|Syscall param|Mismatched free|Invalid free|Source and dest)', err, re.M)
    if m and kind is None:
        kind = 'memcheck:' + m.group(1).replace(' ', '-')
    m = re.search(r'terminate called.*', err)
    if m and (kind is None or kind == 'asan:ABRT'):
        kind = 'terminate'
    if kind is None:
        kind = 'exit%d' % code
    fn = ''
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+', err):
        if '/include/pystd' in m.group(2) or '/src/pystd' in m.group(2) or m.group(2).startswith(REPO):
            fn = re.sub(r'\(.*', '', m.group(1))
            fn = re.sub(r'<.*', '', fn)
            break
    return kind + ('@' + fn if fn else '')


SAN_PREFIX = ('memcheck:', 'hostile.', 'asan:', 'ubsan:', 'tsan:', 'exit', 'leak@', 'assert:', 'terminate', 'hang', 'memory', 'internal_failure')


MEMCHECK = ['valgrind', '-q', '--error-exitcode=79', '--exit-on-first-error=yes', '--child-silent-after-fork=yes',
            '--undef-value-errors=yes', '--num-callers=14', '--suppressions=' + os.path.join(HERE, 'data', 'memcheck.supp')]


def run_shard(binp, args, outdir, wall, wrap=(), stall=None, stop=None):
    """Runs one harness process; -9999 when it used up its time or, with `stall`, when it
    finished no case for that long."""
    os.makedirs(outdir, exist_ok=True)
    errp = outdir + '/stderr'
    with open(errp, 'ab') as ef:
        pos = ef.tell()
        env = dict(ENV, VH_VALGRIND='1') if wrap else ENV
        p = subprocess.Popen(list(wrap) + [binp] + args + ['--out', outdir], stdout=ef, stderr=ef, env=env,
                             cwd=outdir, stdin=subprocess.DEVNULL, start_new_session=True)
        end = time.time() + wall
        last, since = None, time.time()
        rc = None
        while rc is None:
            try:
                rc = p.wait(timeout=1 if stall else max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                now = time.time()
                cur = None
                if stall:
                    try:
                        with open(outdir + '/status', 'rb') as f:
                            cur = f.read(16)
                    except OSError:
                        pass
                    if cur != last:
                        last, since = cur, now
                if now >= end or (stall and now - since > stall) or (stop is not None and stop.is_set() and stall):
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    rc = -9999
    with open(errp, 'rb') as ef:
        ef.seek(pos)
        err = ef.read(400000).decode('utf-8', 'replace')
    return rc, err


def read_status(outdir):
    with open(outdir + '/status', 'rb') as f:
        b = f.read()
    ci, done, ll, tr = struct.unpack_from('<QQII', b, 0)
    suite = b[24:88].split(b'\0')[0].decode()
    log = b[88:88 + ll].decode('latin-1')
    return ci, done, suite, log


class Result:
    def __init__(self):
        self.viol = []       # dicts: key, msg, suite, case, log, cmd
        self.evals = 0
        self.checks = 0
        self.counters = {}
        self.digests = set()
        self.samples = []
        self.incon = []
        self.errors = []     # the check could not decide something
        self.deadline = None
        self.lock = threading.Lock()

    def merge_dir(self, d, origin):
        for fn in glob.glob(d + '/summary.jsonl'):
            for line in open(fn):
                s = json.loads(line)
                self.evals += s['evaluations']
                self.checks += s['checks']
                for k, v in s['counters'].items():
                    self.counters[k] = self.counters.get(k, 0) + v
        if os.path.exists(d + '/digests.bin'):
            b = open(d + '/digests.bin', 'rb').read()
            self.digests.update((origin,) + x for x in struct.iter_unpack('<Q', b))
        if os.path.exists(d + '/samples.jsonl'):
            for line in open(d + '/samples.jsonl'):
                try:
                    self.samples.append(json.loads(line))
                except ValueError:
                    pass


def prebuild(comps):
    """The binaries of all components at once; what fails to build is reported when its component runs."""
    def one(t):
        try:
            build_harness(t[0], t[1], t[2], tag=t[3])
        except Exception:
            pass

    todo = sorted({(c['harness'], c.get('flavor', 'asan'), tuple(c.get('defs', ())), c.get('tag')) for c in comps}, key=str)
    for fl in sorted({t[1] for t in todo}):
        try:
            build_lib(fl)
        except Exception:
            return
    if len(todo) > 1:
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, todo))


def run_component(res, prop, comp, tier, seed, workdir):
    """A harness binary, its suites for `prop` split over shards."""
    flavor = comp.get('flavor', 'asan')
    binp = build_harness(comp['harness'], flavor, comp.get('defs', ()), tag=comp.get('tag'))
    sprop = comp.get('prop', prop)
    n = comp[tier]
    shards = min(comp.get('shards', NCPU), n)
    thorough = ['--thorough'] if tier == 'thorough' else []
    base = ['--prop', sprop, '--seed', str(seed), '--n', str(n), '--case-cpu',
            str(comp.get('case_cpu', 25 if tier == 'quick' else 120))] + thorough
    if comp.get('suite'):
        base += ['--suite', comp['suite']]
    wall = comp.get('wall', 400) if tier == 'quick' else 6 * 3600
    sanonly = comp.get('sanonly', False)
    wrap = MEMCHECK if flavor == 'memcheck' else ()
    name = comp.get('tag', comp['harness']) + '-' + flavor
    stop = threading.Event()

    def wall_left(w):
        return w if res.deadline is None else max(5, min(w, res.deadline - time.time()))

    def add(err, rc, suite, ci, log):
        with res.lock:
            res.viol.append(dict(key=crash_key(err, rc), msg=summarize(err), suite=suite, case=ci, log=log,
                                 cmd=[comp['harness'], flavor] + base + ['--case', str(ci)],
                                 comp={k: v for k, v in comp.items() if k in ('harness', 'flavor', 'defs', 'tag')},
                                 stderr=err[:6000]))

    def shard(i):
        d = os.path.join(workdir, '%s-%s-%s-%d' % (name, sprop, comp.get('suite', ''), i))
        start = i
        crashes = 0
        while start < n and not stop.is_set():
            args = base + ['--from', str(start), '--step', str(shards)]
            rc, err = run_shard(binp, args, d, wall_left(wall), wrap, comp.get('stall'), stop)
            if rc in (0, 1) or stop.is_set():
                break
            if rc == 3:
                raise CheckError('harness error: ' + err[-2000:])
            try:
                ci, done, suite, log = read_status(d)
            except Exception:
                raise CheckError('harness died before the first case (rc %d): %s' % (rc, err[-3000:]))
            crashes += 1
            if 'VH_HANG' in err or rc == -9999 or rc == -9:
                # confirm alone, in a fresh process, before calling it a hang
                d2 = d + '-retry'
                rc2, err2 = run_shard(binp, base + ['--from', str(ci), '--step', '1', '--case', str(ci)], d2,
                                      wall_left(comp.get('retry_wall', 150 if tier == 'quick' else 1200)), wrap, None, None)
                if stop.is_set():
                    break
                if rc2 in (0, 1):
                    with res.lock:
                        res.incon.append('case %d of %s: no answer once, answered when run alone' % (ci, suite))
                    if rc2 == 1:
                        collect_violations(res, d2, binp, base, comp, sanonly)
                elif rc2 == -9999 and comp.get('deadlock_is_violation'):
                    add('VH_HANG deadlock: no progress, twice, the second time alone\n' + err2, rc2, suite, ci, log)
                    stop.set()
                elif rc2 in (-9999, -9) and 'VH_HANG' not in err2:
                    raise CheckError('no answer for case %d of %s' % (ci, suite))
                else:
                    add(err2, rc2, suite, ci, log)
                    if 'VH_HANG' in err2:
                        stop.set()  # enough: every further hang costs the time of two more
            else:
                add(err, rc, suite, ci, log)
            start = ci + shards
            if crashes >= 6:
                break
            if res.deadline is not None and time.time() > res.deadline:
                raise CheckError('out of time in %s' % suite)
        collect_violations(res, d, binp, base, comp, sanonly)
        with res.lock:
            res.merge_dir(d, name)

    def guarded(i):
        try:
            shard(i)
        except CheckError as e:
            with res.lock:
                res.errors.append(str(e))
    with ThreadPoolExecutor(shards) as ex:
        list(ex.map(guarded, range(shards)))


def collect_violations(res, d, binp, base, comp, sanonly):
    p = d + '/violations.jsonl'
    if not os.path.exists(p):
        return
    for line in open(p):
        try:
            v = json.loads(line)
        except ValueError:
            continue
        if sanonly and not v['key'].startswith(SAN_PREFIX):
            continue
        with res.lock:
            res.viol.append(dict(key=v['key'], msg=v['msg'], suite=v['suite'], case=v['case'], log=v['log'],
                                 cmd=[comp['harness'], comp.get('flavor', 'asan')] + base + ['--case', str(v['case'])],
                                 comp={k: w for k, w in comp.items() if k in ('harness', 'flavor', 'defs', 'tag')},
                                 stderr=''))


def summarize(err):
    for pat in (r'runtime error: .*', r'ERROR: AddressSanitizer.*', r'Assertion .*', r'internal failure.*',
                r'WARNING: ThreadSanitizer.*', r'terminate called.*', r'VH_(HANG|MEMORY|EXIT).*', r'==\d+== [A-Z].*'):
        m = re.search(pat, err)
        if m:
            return m.group(0)[:300]
    return err.strip().split('\n')[-1][:300] if err.strip() else 'abnormal exit'


# ---------------------------------------------------------------- known findings

def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def run_probe(f, workdir):
    comp = f['probe']
    flavor = comp.get('flavor', 'asan')
    binp = build_harness(comp['harness'], flavor, comp.get('defs', ()), tag=comp.get('tag'))
    d = os.path.join(workdir, 'probe-' + re.sub(r'\W', '_', f['key']))
    rc, err = run_shard(binp, ['--probe', f['key'], '--case-cpu', '20'], d, 300)
    if rc == 3:
        raise CheckError('probe error ' + err[-500:])
    return rc != 0


# ---------------------------------------------------------------- check

def do_check(prop, tier, seed):
    t0 = time.time()
    chk = CHECKS[prop]
    ts = '%s-%s-%d' % (prop, tier, os.getpid())
    workdir = os.path.join(BUILD, 'work', ts)
    os.makedirs(workdir, exist_ok=True)
    res = Result()
    if tier == 'quick':
        res.deadline = t0 + 780
    try:
        prebuild([c for c in chk['components'] if not callable(c)])
        for comp in chk['components']:
            if res.viol and tier == 'quick' and time.time() - t0 > 60:
                break
            try:
                if callable(comp):
                    comp(res, prop, tier, seed, workdir, sys.modules[__name__])
                else:
                    run_component(res, prop, comp, tier, seed, workdir)
            except BuildBroken as e:
                res.viol.append(dict(key='does-not-build', msg='a program using the released interface does not build: ' + str(e)[-600:],
                                     suite=str(comp.get('tag')), case=0, log=str(e)[-4000:], cmd=[], comp={}, stderr=''))
            except CheckError as e:
                res.errors.append(str(e))
        known = [f for f in load_known() if f['property'] == prop and f['status'] == 'known']
        lines = []
        for f in known:
            if 'probe' in f and run_probe(f, workdir):
                lines.append('KNOWN-FINDING: property=%s %s: %s' % (prop, f['key'], f['what']))
        out_viol = []
        for v in res.viol:
            hit = None
            for f in known:
                if v['key'] == f.get('match_key') and (not f.get('match_log') or f['match_log'] in v['log']):
                    hit = f
            if hit:
                l = 'KNOWN-FINDING: property=%s %s: %s' % (prop, hit['key'], hit['what'])
                if l not in lines:
                    lines.append(l)
            else:
                out_viol.append(v)
    finally:
        keep = os.environ.get('VERIF_KEEP')
        if not keep:
            shutil.rmtree(workdir, ignore_errors=True)
    for l in lines:
        print(l)
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    paths = []
    if out_viol:
        rd = os.path.join(evid, 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for v in out_viol:
            seen.setdefault(v['key'], v)
        for i, v in enumerate(list(seen.values())[:10]):
            p = os.path.join(rd, '%s-%s-%d.json' % (prop, tier, i))
            with open(p, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
            paths.append((p, v))
    samples = []
    seen_s = set()
    for s in sorted(res.samples, key=lambda s: (s['suite'], s['case'])):
        if s['suite'] not in seen_s:
            seen_s.add(s['suite'])
            samples.append(s)
    samples = samples[:12]
    cov = dict(evaluations=res.evals, distinct_nontrivial=len(res.digests),
               rule=chk['rule'], samples=samples,
               oracle_comparisons=res.checks, counters=res.counters, inconclusive=res.incon, errors=res.errors)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(out_viol),
              assumptions=chk.get('assumptions', [
                  'clang-20 sanitizers report every violation of their kind in executed code',
                  'held on the executions counted above, not on all executions']))
    with open(os.path.join(evid, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not out_viol and res.errors:
        print('check error:', '\n'.join(res.errors[:3]))
        return 2
    if not out_viol and res.evals == 0:
        print('error: nothing was observed')
        return 2
    if not out_viol and len(res.incon) > max(2, res.evals // 100):
        print('error: too many inconclusive cases', res.incon[:5])
        return 2
    if out_viol:
        for p, v in paths:
            print('violation: key=%s suite=%s case=%s: %s' % (v['key'], v['suite'], v['case'], v['msg'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, paths[0][0]))
        return 1
    print('held: property=%s tier=%s seed=%d evaluations=%d distinct=%d comparisons=%d wall=%.1fs' % (
        prop, tier, seed, res.evals, len(res.digests), res.checks, time.time() - t0))
    return 0


def do_replay(path):
    v = json.load(open(path))
    print(json.dumps({k: v[k] for k in ('property', 'key', 'msg', 'suite', 'case')}, indent=1))
    print(v['log'])
    comp = v.get('comp')
    if comp and comp.get('harness'):
        binp = build_harness(comp['harness'], comp.get('flavor', 'asan'), comp.get('defs', ()), tag=comp.get('tag'))
        d = os.path.join(BUILD, 'work', 'replay-%d' % os.getpid())
        rc, err = run_shard(binp, v['cmd'][2:], d, 900, MEMCHECK if comp.get('flavor') == 'memcheck' else ())
        print('rc', rc)
        print(err[:8000])
        if os.path.exists(d + '/violations.jsonl'):
            print(open(d + '/violations.jsonl').read()[:4000])
        shutil.rmtree(d, ignore_errors=True)
        return 1 if rc else 0
    return 0


def do_setup():
    t0 = time.time()
    for fl in ('asan', 'tsan', 'plain'):
        build_lib(fl)
    todo = set()
    for p, c in CHECKS.items():
        for comp in c['components']:
            if not callable(comp):
                todo.add((comp['harness'], comp.get('flavor', 'asan'), tuple(comp.get('defs', ())), comp.get('tag')))
    import toolcheck
    toolcheck.build(sys.modules[__name__])
    for t in (('coexist', 'asan', (), 'coexist-none'), ('coexist', 'asan', ('-DE26_2025_FIRST',), 'coexist-first'),
              ('coexist', 'asan', ('-DE26_2025_AFTER',), 'coexist-after')):
        todo.add(t)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda t: build_harness(t[0], t[1], t[2], tag=t[3]), sorted(todo, key=str)))
    print('setup done in %.1fs' % (time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rest = []
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]; i += 1
        elif a[i] == '--seed':
            seed = int(a[i + 1]); i += 1
        else:
            rest.append(a[i])
        i += 1
    try:
        if a[0] == 'check':
            return do_check(rest[0], tier, seed)
        if a[0] == 'setup':
            return do_setup()
        if a[0] == 'replay':
            return do_replay(rest[0])
        if a[0] == 'all':
            bad = []
            for p in (rest or sorted(CHECKS)):
                t0 = time.time()
                try:
                    rc = do_check(p, tier, seed)
                except CheckError as e:
                    print('check error: %s' % e); rc = 2
                print('   %s rc=%d %.1fs' % (p, rc, time.time() - t0), flush=True)
                if rc:
                    bad.append((p, rc))
            print('bad:', bad)
            return 1 if bad else 0
    except CheckError as e:
        print('check error: %s' % e)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
