"""P30: the bundled command line tools, built with sanitizers from the tree, run end to end on
generated files in a scratch directory; the output is compared with what the file says."""
import os, random, struct, subprocess, glob, hashlib, shutil, collections
from concurrent.futures import ThreadPoolExecutor

TOOLS = ('wordcount', 'wordsort', 'sorttest', 'stablesorttest', 'radixsorttest', 'argparse')
WS = b' \t\n\r'


def build(V, flavor='asan'):
    objs, key = V.build_lib(flavor)
    srcs = [os.path.join(V.REPO, 'tools', t + '.cpp') for t in TOOLS]
    k = V.h(V.file_digest(srcs), key)
    d = os.path.join(V.BUILD, 'tools-%s-%s' % (flavor, k))
    with V.Lock('tools-' + flavor):
        if not os.path.exists(d + '/ok'):
            os.makedirs(d, exist_ok=True)
            gen = V.config_dir()
            base = [V.CXX, '-std=c++26', '-nostdinc++', '-DPYSTD_HAS_REGEX', '-w'] + V.FLAVORS[flavor] + [
                '-I' + V.REPO + '/include', '-I' + gen]
            V.compile_many([(base + [s] + objs + ['-lpcre2-8', '-lpthread'], d + '/' + t) for s, t in zip(srcs, TOOLS)])
            open(d + '/ok', 'w').close()
        os.utime(d)
        V.prune('tools-%s-*' % flavor, 2)
    return d


# ---------------------------------------------------------------- inputs

CPS = ['a', 'b', 'c', 'z', 'A', '0', '9', '_', '-', '.', '%', 's', 'd', '\x7f', '\x80', '\xa0', '\xe9', '\u07ff', '\u0800',
       '\u2003', '\u20ac', '\uffff', '\U00010000', '\U0001f600', '\U0010ffff', '\u3000', '\x01', '\x1b']


def words_text(r, utf8):
    n = r.choice([0, 1, 2, 5, 20, 100, 600]) if r.random() < .8 else r.randrange(3000)
    k = r.choice([1, 2, 5, 30, 1000])
    if r.random() < .01:  # counts and word numbers beyond 16 bits
        n, k = r.choice([66000, 70000]), r.choice([1, 2, 3, 40000])
    alpha = CPS if r.random() < .5 else CPS[:r.choice([1, 2, 3])]
    pool = [''.join(r.choice(alpha) for _ in range(r.choice([1, 1, 2, 3, 8, 30]))).encode('utf-8') for _ in range(k)]
    if r.random() < .1:
        pool.append(b'w' * r.choice([4095, 4096, 5000, 20000]))
    if not utf8:
        pool += [bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 9))).translate(None, WS) or b'x' for _ in range(5)]
    out = b''
    parts = []
    if r.random() < .3:
        parts.append(bytes(r.choice(WS) for _ in range(r.randrange(4))))
    for i in range(n):
        parts.append(r.choice(pool))
        parts.append(bytes([r.choice(b' \n')]) if r.random() < .7 else bytes(r.choice(WS) for _ in range(r.randrange(1, 4))))
    out = b''.join(parts)
    if r.random() < .5:
        out = out.rstrip(WS)
    if r.random() < .1 and out:  # exactly whole pages: nothing mapped behind the text
        out = out + b' q' * ((-len(out) % 4096) // 2)
        out = out + b'x' * (-len(out) % 4096)
    return out


def py_split(b):
    return [w for w in b.translate(bytes.maketrans(b'\t\n\r', b'   ')).split(b' ') if w]


def run(V, cmd, cwd):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=TENV(V), timeout=120)
        return p.returncode, p.stdout, p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return -9999, b'', 'VH_HANG no answer in 120 s'


def TENV(V):
    return dict(V.ENV, ASAN_OPTIONS='exitcode=77:detect_leaks=1:handle_abort=2:max_allocation_size_mb=2500', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1',
                LSAN_OPTIONS='exitcode=77')


def show(b):
    return repr(b[:150]) + ('...(%d)' % len(b) if len(b) > 150 else '')


class Bad(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


def need(c, key, msg):
    if not c:
        raise Bad(key, msg)


def clean(V, rc, err, codes):
    if rc not in codes or 'Sanitizer' in err or 'runtime error' in err or 'VH_HANG' in err:
        raise Bad('tool:' + V.crash_key(err, rc), 'exit %d: %s' % (rc, V.summarize(err)))


def c_wordcount(V, r, bins, d):
    data = words_text(r, True)
    bad = False
    if r.random() < .08 and data:
        i = r.randrange(len(data))
        data = data[:i] + bytes([r.choice([0x80, 0xc0, 0xff, 0xed, 0xf5])]) + data[i:]
        try:
            data.decode('utf-8')
        except UnicodeDecodeError:
            bad = True
    open(d + '/in', 'wb').write(data)
    rc, out, err = run(V, [bins + '/wordcount', r.choice(['in', './in'])], d)
    clean(V, rc, err, (0, 1))
    log = 'wordcount of %s' % show(data)
    if bad or not data:
        need(rc == 1 and out.count(b'\n') == 1, 'wordcount.refusal', 'exit %d, output %s' % (rc, show(out)))
        return log, 1, ('refused',)
    want = collections.Counter(py_split(data))
    need(rc == 0, 'wordcount.exit', 'exit %d: %s' % (rc, show(out)))
    lines = out.split(b'\n')
    need(lines.pop() == b'', 'wordcount.format', 'last line not ended')
    got = {}
    prev = None
    for l in lines:
        n, sp, w = l.partition(b' ')
        need(sp and n.isdigit() and w not in got, 'wordcount.format', 'line %s' % show(l))
        got[w] = int(n)
        k = (-int(n), -len(w))
        need(prev is None or prev <= k, 'wordcount.order', 'line %s out of order' % show(l))
        prev = k
    if got != dict(want):
        w = sorted(set(got) ^ set(want) or {x for x in got if got[x] != want[x]})[0]
        raise Bad('wordcount.counts', 'word %s: %s times in the file, tool says %s' % (show(w), want.get(w), got.get(w)))
    return log, 1 + len(lines), ('counted', len(lines))


def c_wordsort(V, r, bins, d):
    data = words_text(r, r.random() < .6).replace(b'\0', b'x')
    open(d + '/in', 'wb').write(data)
    rc, out, err = run(V, [bins + '/wordsort', 'in'], d)
    clean(V, rc, err, (0, 1))
    log = 'wordsort of %s' % show(data)
    if not data:
        need(rc == 1, 'wordsort.refusal', 'exit %d, output %s' % (rc, show(out)))
        return log, 1, ('refused',)
    want = sorted(py_split(data))
    got = out.split(b'\n')
    need(rc == 0, 'wordsort.exit', 'exit %d: %s' % (rc, show(out)))
    need(got.pop() == b'', 'wordsort.format', 'last line not ended')
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Bad('wordsort.output', 'line %d is %s, should be %s; %d lines, should be %d' % (
            i, show(got[i]) if i < len(got) else None, show(want[i]) if i < len(want) else None, len(got), len(want)))
    return log, 1 + len(got), ('sorted', len(got))


def c_numbers(V, r, bins, d):
    tool = r.choice(['sorttest', 'stablesorttest', 'radixsorttest'])
    n = r.choice([0, 1, 2, 3, 15, 16, 17, 33, 100, 255, 256, 257, 1000]) if r.random() < .7 else r.randrange(20000)
    v = list(range(n))
    kind = r.randrange(6)
    if kind == 0:
        v.reverse()
    elif kind == 1 and n:
        k = r.randrange(n)
        v = v[k:] + v[:k]
    elif kind == 2:
        v = v[::2] + v[1::2][::-1]
    elif kind == 3:
        for _ in range(min(n, 4)):
            i, j = r.randrange(n), r.randrange(n)
            v[i], v[j] = v[j], v[i]
    elif kind >= 4:
        r.shuffle(v)
    wrong = n > 0 and r.random() < .25  # one number is not what it should be: the tool must not say it sorted 0..n-1
    if wrong:
        i = r.randrange(n)
        v[i] = r.choice([v[i] + 1, n, 1 << 63, (1 << 64) - 1, v[i] | 1 << 32, v[i] ^ 1])
        wrong = sorted(v) != list(range(n))
    open(d + '/random.dat', 'wb').write(struct.pack('<%dQ' % n, *v) + b'\0' * r.choice([0, 0, 3]))
    rc, out, err = run(V, [bins + '/' + tool], d)
    clean(V, rc, err, (0, 1))
    log = '%s of %d numbers, pattern %d, %s' % (tool, n, kind, 'damaged' if wrong else 'complete')
    want = b'Sorting %d numbers.\n' % n + (b'Sort error!\n' if wrong else b'')
    need(rc == (1 if wrong else 0) and out == want, tool + '.verdict', 'exit %d, output %s' % (rc, show(out)))
    return log, 1, (tool, n, kind, wrong)


def c_argparse(V, r, bins, d):
    st = dict(Foo='undef', Bar='undef', Size='-1', Verbose='0')
    inc = None
    args = []

    def val():
        return ''.join(r.choice('ab=-,. x\u20ac9') for _ in range(r.randrange(1, 6))).lstrip('-') or 'v'
    for _ in range(r.randrange(7)):
        k = r.randrange(7)
        if k < 2:
            name = ('foo', 'bar')[k]
            v = val()
            if r.random() < .5:
                args += ['--' + name, v]
            else:
                args += ['--%s=%s' % (name, v)]
            st[name.capitalize()] = v
        elif k == 2:
            v = r.randrange(0, 10)
            args += ['--size', str(v)] if r.random() < .5 else ['--size=%d' % v]
            st['Size'] = str(v)
        elif k in (3, 4):
            v = val()
            inc = (inc or []) + [v]
            args += [['-I', v], ['-I' + v], ['--include', v], ['--include=' + v]][r.randrange(4)]
        elif k == 5:
            args.append('-v')
            st['Verbose'] = '1'
    bad = False
    if r.random() < .25:
        extra = r.choice([['--size', '10'], ['--size', '-1'], ['--size=x'], ['--size', '1x'], ['--nope'], ['-z'], ['--foo'], ['--size='],
                          ['--size', '99999999999999999999']])
        args += extra
        bad = True
    log = 'argparse ' + repr(args)
    rc, out, err = run(V, [bins + '/argparse'] + args, d)
    if bad:
        need(rc != 0 and b'Foo:' not in out and b'Verbose' not in out and 'AddressSanitizer: SEGV' not in err and
             'heap-' not in err and 'stack-' not in err, 'argparse.refusal', 'exit %d, output %s %s' % (rc, show(out), err[:200]))
        return log, 1, ('refused', tuple(args))
    clean(V, rc, err, (0,))
    return log, 1, ('parsed', tuple(args)), (out, st, inc)


KINDS = (c_wordcount, c_wordsort, c_numbers, c_wordcount, c_wordsort, c_argparse, c_numbers, c_numbers)


def check(res, prop, tier, seed, workdir, V):
    bins = build(V)
    n = 3200 if tier == 'quick' else 60000

    def case(i):
        if len(res.viol) > 10 or (res.deadline and __import__('time').time() > res.deadline):
            return
        r = random.Random('%d/%d' % (seed, i))
        d = os.path.join(workdir, 'tools-%d' % i)
        os.makedirs(d)
        fn = KINDS[i % len(KINDS)]
        log = fn.__name__
        try:
            x = fn(V, r, bins, d)
            log, checks, dg = x[:3]
            if fn is c_argparse and len(x) > 3:
                out, st, inc = x[3]
                want = 'Foo: %s\nBar: %s\nSize: %s\n' % (st['Foo'], st['Bar'], st['Size'])
                v = inc if inc is not None else None
                got = out.decode('utf-8', 'replace')
                need(got.startswith(want) and got.endswith('Verbose: %s\n' % st['Verbose']), 'argparse.values', '%s gives %s' % (log, got))
                mid = got[len(want):-len('Verbose: 0\n')]
                if v is not None:  # what is appended comes in order behind the defaults
                    tail = ''.join(' %s\n' % w for w in v)
                    need(mid.endswith(tail), 'argparse.values', '%s gives %s' % (log, got))
            with res.lock:
                res.evals += 1
                res.checks += checks
                k = 'tool.' + fn.__name__[2:]
                res.counters[k] = res.counters.get(k, 0) + 1
                res.digests.add(hashlib.sha1(repr((fn.__name__, dg, log)).encode('utf-8', 'surrogatepass')).digest()[:8])
                if len(res.samples) < 40:
                    res.samples.append(dict(suite=fn.__name__, case=i, log=log[:700]))
        except Bad as e:
            inputs = {}
            for f in glob.glob(d + '/*')[:5]:
                inputs[os.path.basename(f)] = open(f, 'rb').read()[:2000].hex()
            with res.lock:
                res.viol.append(dict(key=e.key, msg=e.msg, suite=fn.__name__, case=i, log=repr(inputs), cmd=[], comp={}, stderr=''))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(V.NCPU) as ex:
        list(ex.map(case, range(n)))
