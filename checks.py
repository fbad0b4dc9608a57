"""Which harness components decide which property, with their case counts."""
LEVEL_NOTES = {}
CHECKS = {}
def C(pid, rule, *components, **kw):
    CHECKS[pid] = dict(components=list(components), rule=rule, **kw)

C('P01', 'random histories of Bytes operations over three buffers, each step compared with a std::string model; '
  'non-trivial = distinct operation log with at least one comparison',
  dict(harness='bytes', quick=6000, thorough=400000))
C('P02', 'random histories of CString edits over three strings incl. self-aliasing arguments, each step compared '
  'with a std::string model', dict(harness='cstring', quick=8000, thorough=300000))
C('P03', 'random haystack/needle pairs in exact-size heap buffers, every query compared with its definition',
  dict(harness='cstring', quick=6000, thorough=400000))
C('P04', 'random histories over FixedVector<T,N> and FixedCString<N> for several N against std::vector/std::string',
  dict(harness='fixedc', quick=8000, thorough=400000))
C('P05', 'random valid texts with byte-level mutations plus every lead byte x second byte x boundary continuation '
  'bytes; acceptance compared with the well-formedness table of the Unicode standard',
  dict(harness='utf8', quick=1600, thorough=100000))
C('P06', 'random histories over three U8Strings compared with code point vectors after every step; views over '
  'exact-size buffers', dict(harness='utf8', quick=6000, thorough=300000))
C('P07', 'every code point 0..10FFFF in both directions plus random strings of cased characters, against the '
  'Unicode 15 full mappings, also under locales with other rules for letters', dict(harness='utf8', quick=1024, thorough=60000))
C('P10', 'random histories of map and set operations for several key/value types and hash algorithms from perfect to '
  'constant, each compared with std::map/std::set; self-referential arguments, churn, growth and moves included',
  dict(harness='hashmap', quick=4000, thorough=200000))
C('P11', 'random texts held in every string type: the byte streams fed to a recording hasher and SimpleHash values '
  'compared; single byte changes; integers of every width', dict(harness='hashmap', quick=16000, thorough=600000))
C('P12', 'random, ascending, descending and draining histories over BTree with fan-outs 3 to 31 and several value types '
  'against std::set; BTreeSet and BTreeMap against std::set/std::map; trees of up to thousands of values',
  dict(harness='btree', quick=4000, thorough=200000))
C('P08', 'random histories over three Vectors (tracked, owning, plain, over-aligned, nested elements) and two Stacks, '
  'each step compared with std::vector, own elements as arguments included',
  dict(harness='vector', quick=6000, thorough=300000))
C('P13', 'random histories over Optional, Expected, Variant (1, 4 and all 30 alternatives), unique_ptr, unique_arr and '
  'Span with state models; payloads log their lifetime; refused accesses run in child processes',
  dict(harness='wrappers', quick=8000, thorough=400000))
C('P09', 'histories over every container, wrapper and algorithm with elements that record each construction, copy, '
  'move, assignment, read and destruction; live set compared with the container contents and empty at the end',
  dict(harness='vector', quick=1200, thorough=60000), dict(harness='fixedc', quick=1200, thorough=60000),
  dict(harness='wrappers', quick=2400, thorough=120000), dict(harness='hashmap', quick=1200, thorough=60000),
  dict(harness='btree', quick=1200, thorough=60000), dict(harness='sorts', quick=4000, thorough=200000),
  dict(harness='loops', quick=1200, thorough=60000))
C('P14', 'random, patterned and short inputs for every sort, comparator shape, element type (plain, big, owning, lifetime '
  'monitored, all integer widths, floats with NaN and signed zeros); output checked to be an ordered permutation and the '
  'elements around the range untouched', dict(harness='sorts', quick=40000, thorough=1000000))
C('P15', 'keyed elements with sequence numbers through the stable algorithms', dict(harness='sorts', quick=40000, thorough=1000000))
C('P16', 'comparisons counted and stack depth measured inside the comparator, inputs from McIlroy\'s adversary, killer '
  'patterns and B-tree histories', dict(harness='sorts', quick=3000, thorough=40000), dict(harness='btree', quick=240, thorough=8000),
  dict(harness='hashmap', quick=160, thorough=4000))
C('P17', 'partitions, rotations, selection and searches against their definitions with guard elements around the range',
  dict(harness='sorts', quick=50000, thorough=1000000))
C('P18', 'pools of near-equal values of every comparable type (boundary integers, special floats, texts that share prefixes '
  'and digit runs); order axioms over all pairs and triples plus the value of each comparison from its definition',
  dict(harness='comparators', quick=40000, thorough=2000000))
C('P19', 'random argument specifications and command lines (well formed, malformed, truncated, option-like values); accepted '
  'lines compared value by value with a model parser, rejected ones run in a child that must end with an error',
  dict(harness='argparse', quick=8000, thorough=200000))
C('P20', 'random path texts (separators doubled, trailing and leading, dots everywhere) against a model of the path grammar; '
  'stat and rename on a scratch directory with files, directories and links', dict(harness='files', quick=20000, thorough=1000000))
C('P21', 'random directory trees and patterns in a scratch directory against a recursive model matcher, with few file '
  'descriptors left and with the tree changing underneath', dict(harness='files', quick=3000, thorough=120000))
C('P22', 'random files of sizes around buffer boundaries read through every reader; directories, pipes, /proc files, links; '
  'open descriptors and live mappings counted', dict(harness='files', quick=6600, thorough=200000))
C('P23', 'patterns generated as syntax trees and matched by an independent backtracking matcher, and arbitrary pattern texts '
  'compared with PCRE2 called directly; every group index in and out of range', dict(harness='regex', quick=14000, thorough=400000))
C('P24', 'ranges with steps and bounds around the limits of the type, generators that log each next() call, all adaptors and '
  'their combinations, against Python\'s range and the item list', dict(harness='loops', quick=30000, thorough=2000000))
C('P25', 'formats with every kind of conversion and output sizes around the internal buffer size, against vsnprintf',
  dict(harness='loops', quick=8000, thorough=300000))

# sizes around and above two to the power of sixteen
LARGE = dict(P01=240, P02=320, P03=160, P04=80, P05=120, P06=120, P07=80, P08=120, P09=80, P10=96, P11=160, P12=80, P13=160, P18=160)
for _p, _n in LARGE.items():
    CHECKS[_p]['components'].append(dict(harness='large', quick=_n, thorough=_n * 50))

# sizes above two to the power of thirty-two
HUGE = dict(P01=3, P02=4, P03=3, P04=1, P05=2, P06=2, P08=2, P11=1, P13=1, P17=3, P22=2, P24=2, P25=1)
for _p, _n in HUGE.items():
    CHECKS[_p]['components'].append(dict(harness='huge', flavor='plain', quick=_n, thorough=_n * 8, shards=2, case_cpu=150, retry_wall=220))

# sizes that cannot be
for _p in ('P01', 'P02', 'P08', 'P12'):
    CHECKS[_p]['components'].append(dict(harness='absurd', flavor='plain', quick=400, thorough=20000))

# exceptions out of user code: copies, conversions, comparators and predicates
for _p, _n in dict(P09=3000, P10=1500, P12=1500).items():
    CHECKS[_p]['components'].append(dict(harness='throwing', quick=_n, thorough=_n * 40))

NOT_APPLICABLE = {p: 'work in progress: check not built yet' for p in ()}
_M = 'runtime monitoring: '
_S = ' under AddressSanitizer and UBSan'
TECHNIQUE = {
    'P01': _M + 'model-based random histories (std::string oracle)' + _S,
    'P02': _M + 'model-based random edit histories with aliasing (std::string oracle)' + _S,
    'P03': _M + 'definition oracle over exact-size buffers' + _S,
    'P04': _M + 'model-based random histories at and beyond capacity' + _S,
    'P05': _M + 'exhaustive lead/continuation table plus byte mutations, Unicode table oracle' + _S,
    'P06': _M + 'model-based histories over code point vectors' + _S,
    'P07': _M + 'exhaustive code point sweep against Unicode 15 full case mappings' + _S,
    'P08': _M + 'model-based random histories (std::vector oracle)' + _S,
    'P09': _M + 'element lifetime monitor (event log of every construct/move/destroy) and leak accounting' + _S,
    'P10': _M + 'model-based random histories with adversarial hashers (std::map oracle)' + _S,
    'P11': _M + 'recording hasher compares the bytes fed by equal texts' + _S,
    'P12': _M + 'model-based random histories (std::set/std::map oracle)' + _S,
    'P13': _M + 'state-machine models with lifetime monitor; refused accesses in child processes' + _S,
    'P14': _M + 'permutation and order oracle over hostile inputs' + _S,
    'P15': _M + 'sequence-number oracle for stability' + _S,
    'P16': _M + 'online comparison counting and stack probe against adversarial inputs' + _S,
    'P17': _M + 'definition oracles with guard elements' + _S,
    'P18': _M + 'order axioms over all pairs and triples of value pools plus definition oracle' + _S,
    'P19': _M + 'model parser oracle; rejected lines observed in child processes' + _S,
    'P20': _M + 'path grammar model and real file system in a scratch directory' + _S,
    'P21': _M + 'recursive model matcher over generated directory trees' + _S,
    'P22': _M + 'byte-exact comparison with the file written, mapping and descriptor accounting' + _S,
    'P23': _M + 'backtracking AST matcher and direct PCRE2 as oracles' + _S,
    'P24': _M + 'arithmetic sequence model and item log of adaptors' + _S,
    'P25': _M + 'vsnprintf oracle' + _S,
}
C('P26', 'threads with injected delays over 1-3 mutexes (lock, try_lock, guards, exceptions, nesting), queues handing over '
  'numbered items, threads ended by join, destructor, detach or unwinding; overlap counters, lost updates, event logs and '
  'ThreadSanitizer observe; distinct = distinct orders of entry or configuration',
  dict(harness='threads', flavor='tsan', quick=16000, thorough=400000, deadlock_is_violation=True, stall=30, wall=400, retry_wall=40),
  dict(harness='threads', flavor='asan', quick=8000, thorough=200000, deadlock_is_violation=True, stall=30, wall=400, retry_wall=40))
TECHNIQUE['P26'] = _M + 'event-log and lost-update oracles over threads with injected delays, ThreadSanitizer and AddressSanitizer'
C('P27', 'fresh processes in which 2-6 threads run random lists of tasks (own objects of every kind, shared const objects) at '
  'once; each result compared with the same task run alone, ThreadSanitizer watching; distinct = distinct task plans',
  dict(harness='parallel', flavor='tsan', quick=1200, thorough=30000, deadlock_is_violation=True, stall=75, wall=400, retry_wall=75))
TECHNIQUE['P27'] = _M + 'ThreadSanitizer plus differential oracle (together vs. alone) over random task mixes in fresh processes'

# P28: the workloads of the other properties, judged by the sanitizers alone, plus programs of its own
_ALL = ['bytes', 'cstring', 'fixedc', 'utf8', 'vector', 'hashmap', 'btree', 'wrappers', 'sorts', 'comparators', 'argparse', 'files',
        'regex', 'loops']
C('P28', 'programs that mix objects of every kind with wrong indices, malformed text, empty and self-aliasing arguments and '
  'hostile files, and the workloads of the other properties; judged by AddressSanitizer, UBSan, leak accounting and (in a '
  'second build) memcheck for undefined values; only PyException may come out',
  dict(harness='hostile', quick=9000, thorough=400000),
  dict(harness='hostile', flavor='memcheck', quick=640, thorough=16000, case_cpu=600),
  *[dict(harness=x, prop='any', sanonly=True, quick=1280, thorough=30000) for x in _ALL],
  *[dict(harness=x, prop='any', flavor='memcheck', sanonly=True, quick=240, thorough=8000, case_cpu=600) for x in _ALL])
CHECKS['P28']['components'].append(dict(harness='large', prop='any', sanonly=True, quick=112, thorough=4000))
CHECKS['P28']['components'].append(dict(harness='throwing', quick=1500, thorough=60000))
TECHNIQUE['P28'] = _M + 'AddressSanitizer, UBSan, leak accounting and memcheck over hostile mixed programs'


def coexist(res, prop, tier, seed, workdir, V):
    """The same 2026 programs in three builds: without the 2025 headers, after them, before them."""
    variants = (('none', ()), ('first', ('-DE26_2025_FIRST',)), ('after', ('-DE26_2025_AFTER',)))
    n = 400 if tier == 'quick' else 20000
    got = {}
    for name, defs in variants:
        try:
            binp = V.build_harness('coexist', 'asan', defs, tag='coexist-' + name)
        except V.CheckError as e:
            if name == 'none':
                raise
            raise V.BuildBroken(str(e))
        d = V.os.path.join(workdir, 'coexist-' + name)
        rc, err = V.run_shard(binp, ['--prop', 'P29', '--seed', str(seed), '--n', str(n), '--case-cpu', '60'], d, 300 if tier == 'quick' else 7200)
        try:
            lines = open(d + '/coexist.txt', 'rb').read().decode('latin-1').split('\n')
        except OSError:
            lines = []
        got[name] = (rc, lines, err)
        if name == 'none':
            if rc != 0:
                raise V.CheckError('2026 tasks alone failed (rc %d): %s' % (rc, err[-1500:]))
        else:
            res.merge_dir(d, 'coexist-' + name)
    ref = got['none'][1]
    for name in ('first', 'after'):
        rc, lines, err = got[name]
        bad = None
        if rc != 0:
            bad = 'exit %d: %s' % (rc, V.summarize(err))
        elif lines != ref:
            i = next((i for i, (a, b) in enumerate(zip(ref, lines)) if a != b), min(len(ref), len(lines)))
            bad = 'line %d: alone [%s] mixed [%s]' % (i, ref[i][:300] if i < len(ref) else '', lines[i][:300] if i < len(lines) else '')
        if bad:
            res.viol.append(dict(key='coexist-' + name, msg='2026 tasks differ once the 2025 headers are included ' +
                                 ('first: ' if name == 'first' else 'afterwards: ') + bad, suite='coexist', case=0, log=bad, cmd=[],
                                 comp={}, stderr=err[:4000]))
        else:
            res.counters['coexist.results.compared'] = res.counters.get('coexist.results.compared', 0) + len(ref)


C('P29', 'seeded histories over every part of the 2025 epoch, each written down as text by the released sources (kept under data/, '
  'namespace renamed) and by the current tree and compared line by line, in programs that include 2025 only, 2026 before it and 2026 '
  'after it; 2026 tasks compared between builds with and without the 2025 headers; histories the release itself does not survive are '
  'skipped and counted; distinct = distinct texts',
  dict(harness='epoch25', tag='epoch25', quick=3200, thorough=300000),
  dict(harness='epoch25', tag='epoch25-first', defs=('-DE25_2026_FIRST',), quick=800, thorough=60000),
  dict(harness='epoch25', tag='epoch25-after', defs=('-DE25_2026_AFTER',), quick=800, thorough=60000),
  coexist)
TECHNIQUE['P29'] = _M + 'differential oracle: event logs of the released 2025 sources against the current tree, in three include orders' + _S


def tools(res, prop, tier, seed, workdir, V):
    import toolcheck
    toolcheck.check(res, prop, tier, seed, workdir, V)


C('P30', 'the tools built with sanitizers from the tree and run on generated files: word soups over repeated and multi-byte words '
  'with every ASCII blank, whole-page files, damaged UTF-8, empty files; permutations and damaged permutations of 0..n-1; '
  'command lines; directories; distinct = distinct input and verdict', tools)
TECHNIQUE['P30'] = _M + 'end-to-end runs of the sanitized tools against an independent model of each tool\'s answer'
