"""Which drivers, configurations and workloads decide each property."""
LEVEL = {'C02': 'fault_enumeration', 'C16': 'fault_enumeration'}
HIST_RULE = ('systematic: every operation of the menu for every pair of target/source states (every bounded type in place, and every heap-backup state reachable by a '
             'failed assignment) with a fault at every throwing point in turn, followed by a fixed epilogue; sampled two-operation fault sequences; random histories on a pool of '
             'variants; also with contents that overload the address-of operator. Distinct: (operation, target type, source type, value type, states, outcome, fault position).')

def hist(lists, seed, tier, **kw):
    jobs = []
    pairs, hists = {'quick': (1500, 250), 'thorough': (60000, 12000)}[tier]
    for l in lists:
        b = dict(name='hist-L%d-%s-%s%s' % (l, kw.get('cxx', 'g++'), kw.get('san', 'asan'), kw.get('std', 17)), src='hist.cpp', defs=['LIST=%d' % l], args=[[seed, kw.get('pairs', pairs), kw.get('hists', hists)]], weight=5 if l in (3, 6) else 3)
        b['defs'] += kw.get('xdefs', [])
        b['name'] += kw.get('opt', '') + ''.join('-' + x for x in kw.get('xdefs', []) + kw.get('flags', []))
        b.update({k: v for k, v in kw.items() if k not in ('pairs', 'hists', 'xdefs')})
        b['group'] = 'hist-L%d' % l
        jobs.append(b)
    return jobs

ALL = list(range(1, 19))
HIST_EV = ['scenarios', 'histories']

def plan(prop, tier, seed):
    f = globals()['p_' + prop]
    P = f(tier, seed)
    P.setdefault('evaluations', ['evaluations'])
    return P

def histplan(tier, seed, lists=ALL, need=('ops', 'faults'), **kw):
    jobs = hist(lists, seed, tier, **kw)
    if tier == 'thorough':
        jobs += hist(lists, seed + 1000, tier, cxx='clang++', std=20, opt='-O2', **kw)
        jobs += hist(lists, seed + 2000, tier, std=11, opt='-O2', **kw)
    # the same histories with contents whose address-of operator is overloaded
    jobs += hist([1, 3, 6, 7], seed, tier, xdefs=['VERIF_AMP'], **dict(dict(pairs=300, hists=60) if tier == 'quick' else {}, **kw))
    return dict(jobs=jobs, evaluations=HIST_EV, rule=HIST_RULE, need=list(need))

INIT = ' Also: default construction of every kind of first type, in every form and place, in storage full of other bytes%s.'
def with_init(P, parts, t, s, text):
    P['jobs'] += matrix('init', parts, [2], [12], t, s)
    P['evaluations'] = HIST_EV + ['evaluations']; P['rule'] += text
    return P
def p_C01(t, s): return with_init(histplan(t, s), [1, 2, 3, 5, 6], t, s, INIT % '')
def p_C02(t, s): return with_init(histplan(t, s, need=('ops', 'faults', 'failed_assignments', 'fallbacks_checked')), [4, 7], t, s, ' Also: the value of every kind of fallback type after every form of failed assignment, in storage used by other contents before.')
def p_C03(t, s): return histplan(t, s, leaks=1)
def with_alias(P, t, s):
    P['jobs'] += matrix('alias', range(1, 6), [30], [400], t, s) + matrix('conv', [8], [4], [20], t, s)
    P['evaluations'] = HIST_EV + ['own_parts', 'ops']; P['rule'] += ' Also: every part of the own content (member, array and vector element, pointee, base) as right-hand side, and random histories on sequences, sets and maps of variants against a model of (index, value) pairs.'
    return P
def p_C04(t, s): return with_alias(histplan(t, s, need=('ops', 'faults', 'in_place')), t, s)
def p_C05(t, s): return with_alias(histplan(t, s), t, s)

TECH = {}
RULE = {}
def direct(src, parts, args, tier, std=17, **kw):
    """One job per part (None: the driver has one part)."""
    jobs = []
    for pt in parts:
        b = dict(name='%s%s-%s-%s-c++%s%s' % (src, '' if pt is None else pt, kw.get('cxx', 'g++'), kw.get('san', 'asan'), std, kw.get('opt', '')), src=src + '.cpp', std=std,
                 defs=([] if pt is None else ['PART=%s' % pt]) + kw.get('xdefs', []), args=[args], weight=kw.get('weight', 2))
        b.update({k: v for k, v in kw.items() if k not in ('xdefs', 'tagname')})
        b['name'] += ''.join('-' + x for x in kw.get('xdefs', []) + kw.get('flags', []))
        b['group'] = '%s%s' % (src, '' if pt is None else pt)
        jobs.append(b)
    return jobs

def matrix(src, parts, q, th, tier, seed, **kw):
    """quick: the g++ C++17 ASan build; thorough: more repetitions, four more seeds, and other compilers, standards and sanitizers."""
    if tier == 'quick': return direct(src, parts, [seed] + q, tier, **kw)
    jobs = direct(src, parts, [seed] + th, tier, **kw)
    for b in jobs: b['args'] = [[seed + 100 * k] + th for k in range(4)]
    jobs += direct(src, parts, [seed + 7] + th, tier, std=20, cxx='clang++', opt='-O2', san='asan+ubsan', **kw)
    jobs += direct(src, parts, [seed + 8] + th, tier, std=14, opt='-O2', **kw)
    jobs += direct(src, parts, [seed + 9] + th, tier, std=11, cxx='clang++', **kw)
    return jobs

TECH['C07'] = 'address/type oracle over every asked type, state and form of get, ASan'
def p_C07(t, s): return dict(jobs=matrix('get', range(1, 5), [2], [10], t, s), need=['evaluations'], rule='every (type list, content type, storage state, asked type, form of get, constness, value category); distinct: that tuple. Oracle: content type known from the construction, address known from the bounded type itself, bytes of the variant unchanged.')
TECH['C08'] = 'subobject-address oracle over class hierarchies, states and forms of polymorphic_get, ASan'
def p_C08(t, s): return dict(jobs=matrix('poly', range(1, 4), [2], [10], t, s), need=['evaluations'], rule='every (hierarchy, content type, storage state, asked class, form, constness, value category); distinct: that tuple. Oracle: static_cast on the object known to be the content.')
TECH['C09'] = 'visitor call-log monitor (argument address, type, category, result identity, visitor copies), ASan'
def p_C09(t, s): return dict(jobs=matrix('visit', range(1, 7), [2], [8], t, s), need=['evaluations'], rule='every (type list, content type, storage state, visitor kind, result kind, category of visitor and of variant, call form); distinct: that tuple. Oracle: log of the visitor itself.')
TECH['C10'] = 'visitor call-log monitor over the full product of operand types and categories, ASan'
def p_C10(t, s): return dict(jobs=matrix('multi', range(1, 9), [2], [6], t, s), need=['evaluations'], rule='every combination of current types for 2 to 5 operands, by call form and operand category; distinct: that tuple. Oracle: log of the visitor itself.')
TECH['C11'] = 'comparison-call log and index/content oracle over all value pairs and triples, ASan'
def p_C11(t, s): return dict(jobs=matrix('cmp', [1, 2], [12], [40], t, s) + matrix('cmp', [1], [12], [40], t, s, xdefs=['LYING']), need=['evaluations'], rule='all pairs (and triples for the order laws) of variant values and storage states under all six operators, with well-behaved, partial, asymmetric and throwing content operators; distinct: (list, types, values, operator).')
TECH['C12'] = 'hash/equality agreement and spread monitor over values, types and histories, ASan'
def p_C12(t, s): return dict(jobs=matrix('cmp', [2], [12], [60], t, s), need=['evaluations'], rule='all values and storage states of each list, pairwise: equal implies equal hash; spread counted over types and contents; distinct: (list, type, value).')
TECH['C13'] = 'differential stream monitor: text, format state and error state against streaming the content, ASan'
def p_C13(t, s): return dict(jobs=matrix('stream', [None], [400], [6000], t, s), need=['evaluations', 'backup_states'], rule='random stream states (flags, width, fill, precision, locale, error state, exception mask, failing buffers) for each content type, narrow and wide; distinct: (list, character type, content type, stream state, content behaviour).')
TECH['C06'] = 'conversion-selection monitor against real overload sets of functions taking each bounded type, ASan'
def p_C06(t, s): return dict(jobs=matrix('conv', range(1, 10), [4], [20], t, s), need=['evaluations'], rule='every (bounded type list in several orders, source type, value category, construction or assignment, source state; every foreign variant type, content and state); distinct: that tuple. Oracle: overload resolution itself, on a set of functions taking each bounded type, and the converted value.')
TECH['C14'] = 'tree-model monitor over fault-injected edit histories of recursive variants, live-node registry, ASan+LSan'
def p_C14(t, s): return dict(jobs=matrix('rec', range(1, 6), [120], [2500], t, s, leaks=1) + matrix('init', [2, 6], [2], [6], t, s), need=['evaluations', 'ops', 'faults', 'histories'], rule='random edit histories (build, copy, move, swap, assign subtrees and own subtrees, compare, print, faults at node copies and allocations) on recursive variants of several shapes and declarations; distinct: (shape, operation, states, outcome). Oracle: plain tree model, node registry.')
TECH['C15'] = 'address, alignment, red-zone and allocation monitor over type lists by size and alignment, ASan'
def p_C15(t, s):
    j = matrix('storage', range(1, 5), [90], [600], t, s)
    j += direct('storage', range(1, 5) if t == 'thorough' else [1, 3], [s, 30], t, xdefs=['BOOST_VARIANT_MINIMIZE_SIZE'])
    j += direct('storage', range(1, 5) if t == 'thorough' else [2, 4], [s, 30], t, san='asan+ubsan', cxx='clang++', opt='-O2')
    return dict(jobs=j, need=['evaluations'], rule='every (type list, content type, placement: stack, heap, array, member at odd offset with guard bytes around) under construction, copy, move, assignment, swap, visitation, comparison; distinct: that tuple. Oracle: addresses seen by the content, guard bytes, intercepted operator new.')
TECH['C16'] = 'exhaustive fault injection at every throwing point of every operation, noexcept reports compared with observed throwing points, ASan'
def p_C16(t, s): return dict(jobs=matrix('noexc', range(1, 10), [1], [1], t, s), evaluations=['noexcept_ops', 'throwing_ops', 'faults'], need=['noexcept_ops', 'throwing_ops', 'faults'], rule='every operation for every pair of current types of each list: run once counting the points that may throw, then once per point with the fault there; distinct: (list, operation, types).')
TECH['C17'] = 'ThreadSanitizer over shared const access and unshared mutation with injected yields, results compared with sequential execution'
def p_C17(t, s):
    q = [6000, 8, 10]
    j = direct('threads', [None], [s] + q, t, san='tsan', opt='-O1') + direct('threads', [None], [s + 1] + q, t, san='tsan', cxx='clang++', opt='-O2', std=14)
    if t == 'thorough':
        for b in j: b['args'] = [[s + 10 * k, 40000, 8 if k % 2 else 16, 20] for k in range(6)]
        j += direct('threads', [None], [s + 2, 20000, 8, 10], t, san='asan', std=11, threads=1) + direct('threads', [None], [s + 3, 20000, 8, 10], t, san='tsan', std=20)
    for b in j: b['serial'] = 1
    return dict(jobs=j, need=['evaluations', 'overlapping_accesses'], rule='every const operation on shared variants by several threads at once, and arbitrary operations on variants of their own; distinct: (operation, content type, state).')
TECH['C18'] = 'object-identity, copy-count and lifetime monitor on variants of references, ASan'
def p_C18(t, s): return dict(jobs=matrix('refs', [None], [5], [200], t, s) + ([] if t == 'thorough' else direct('refs', [None], [s, 5], t, std=11, cxx='clang++', opt='-O2')), need=['evaluations'], rule='every (type list, referred type, construction or copy path, constness) with changes on either side; distinct: that tuple. Oracle: addresses and values of the original objects, the registry of live objects.')

TECH['C19'] = 'ASan, UBSan, MSan and valgrind over histories and drivers, several compilers and optimization levels, assertions on'
def p_C19(t, s):
    q = dict(pairs=500, hists=120)
    if t == 'quick':
        j = hist([1, 4, 6, 8, 11, 15, 18], s, t, cxx='clang++', san='asan+ubsan', opt='-O2', leaks=1, **q)
        j += hist([2, 3, 9, 10, 12, 13], s, t, san='asan+ubsan', opt='-O2', std=14, **q)
        j += hist([3, 5, 7, 10, 14, 16, 17], s, t, cxx='clang++', san='msan', opt='-O1', **q)
        j += hist([2, 9], s, t, san='valgrind', opt='-O1', pairs=150, hists=20)
        j += direct('visit', [1, 4], [s, 1], t, cxx='clang++', san='asan+ubsan', opt='-O2') + direct('multi', [1, 5], [s, 1], t, san='asan+ubsan', opt='-O1', std=14) + direct('get', [2], [s, 1], t, cxx='clang++', san='asan+ubsan', opt='-O1') + direct('rec', [1, 3], [s, 40], t, cxx='clang++', san='asan+ubsan', opt='-O1', leaks=1) + direct('storage', [2], [s, 20], t, san='asan+ubsan', opt='-O1') + direct('alias', [1, 2, 3], [s, 10], t, cxx='clang++', san='asan+ubsan', opt='-O1') + direct('refs', [None], [s, 3], t, cxx='clang++', san='asan+ubsan', opt='-O1') + direct('poly', [2], [s, 2], t, cxx='clang++', san='asan+ubsan', opt='-O1')
    else:
        j = []
        for k, (cxx, san, opt, std) in enumerate([('clang++', 'asan+ubsan', '-O2', 20), ('g++', 'asan+ubsan', '-O3', 14), ('g++', 'asan+ubsan', '-O0', 11), ('clang++', 'asan+ubsan', '-O0', 17)]):
            j += hist(ALL, s + k, t, cxx=cxx, san=san, opt=opt, std=std, leaks=1, pairs=20000, hists=4000)
            for src, parts, a in (('visit', range(1, 7), 4), ('multi', range(1, 9), 2), ('get', range(1, 5), 3), ('poly', range(1, 4), 3), ('rec', range(1, 6), 400), ('storage', range(1, 5), 60), ('alias', range(1, 6), 60), ('conv', range(1, 10), 4), ('refs', [None], 20), ('noexc', range(1, 10), 1), ('cmp', [1, 2], 12)):
                j += direct(src, parts, [s + k, a], t, cxx=cxx, san=san, opt=opt, std=std)
        for o, std in (('-O1', 17), ('-O2', 11), ('-O0', 20)): j += hist([l for l in ALL if l != 9], s, t, cxx='clang++', san='msan', opt=o, std=std, pairs=20000, hists=4000)
        j += hist(ALL, s, t, san='valgrind', opt='-O2', pairs=1500, hists=300, leaks=1)
    return dict(jobs=j, evaluations=HIST_EV + ['evaluations'], need=['ops', 'faults', 'evaluations'], rule=HIST_RULE + ' Also every driver of the other properties. Any sanitizer report, valgrind error, failed assertion or crash is a violation.')
TECH['C20'] = 'position-by-position monitor over type lists from 1 to past 128 types, direct and as sequences, with registry of live objects'
def p_C20(t, s):
    def big(L, seq, kind, *x, **kw):
        return direct('big', [None], [s, 4 if t == 'quick' else 1], t, xdefs=['LEN=%d' % L, 'SEQ=%d' % seq, 'KIND=%d' % kind] + list(x), opt=kw.pop('opt', '-O0'), weight=L, **kw)
    j = big(129, 1, 1, 'LIGHT', 'EDGES', 'BOOST_VARIANT_MINIMIZE_SIZE', san='none') + big(131, 2, 3, 'LIGHT', 'EDGES', san='none') + big(41, 1, 0, 'EDGES', san='none') + big(21, 1, 1) + big(20, 0, 2) + big(24, 3, 3) + big(22, 2, 2, 'BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=4')
    j += big(8, 0, 3, 'BIN', 'BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=3') + big(1, 0, 1, 'BIN') + big(2, 0, 3, 'BIN') + big(5, 0, 1, 'BIN', 'BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=1') + big(61, 1, 1, 'LIGHT', 'EDGES', 'BOOST_VARIANT_MINIMIZE_SIZE', san='none')
    if t == 'thorough':
        for L in (3, 4, 7, 10, 13, 16, 17, 18, 19): j += big(L, 0, L % 4, 'BIN', san='asan+ubsan')
        for L in (19, 20, 21, 22): j += big(L, 1, 3, 'BIN') + big(L, 2, 1, cxx='clang++', std=14)
        for L in (39, 40, 41): j += big(L, 1, 1, opt='-O0') + big(L, 3, 0, 'BOOST_VARIANT_MINIMIZE_SIZE')
        for L in (126, 127, 128, 129, 150, 200): j += big(L, 1, 1, 'LIGHT', 'EDGES', san='none') + big(L, 2, 0, 'LIGHT', 'EDGES', 'BOOST_VARIANT_MINIMIZE_SIZE', san='none', cxx='clang++')
        for L in (3, 6, 12, 20): j += big(L, 0, 1, 'BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=%d' % (L - 1)) + big(L, 0, 2, 'BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=%d' % L) + big(L, 0, 3, 'BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=%d' % (L + 1))
        for L in (30, 50): j += big(L, 0, 1, 'EDGES', 'LIGHT', 'BOOST_MPL_CFG_NO_PREPROCESSED_HEADERS', 'BOOST_MPL_LIMIT_LIST_SIZE=50', san='none')
    for b in j: b['group'] = b['name']
    return dict(jobs=j, need=['evaluations', 'pairs', 'backup_states'], rule='every position (construction, copy, move, visitation, get of every type, conversion to the reversed list, hash, text) and pairs of positions (assignments, swap, comparison, failed assignments and what follows) for each (length, kind of sequence, kind of contents, configuration); for the longest lists the positions at internal boundaries. Distinct: (length, sequence, kind, position or pair).')
TECH['C21'] = 'differential monitor: digests of all observations of the same histories compared across compilers, standards, optimization levels and configuration macros'
def p_C21(t, s):
    cf = [dict(), dict(std=11, opt='-O2', xdefs=['NDEBUG']), dict(std=20, opt='-O0', xdefs=['BOOST_VARIANT_MINIMIZE_SIZE', 'BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT']), dict(cxx='clang++', std=14, opt='-O2', xdefs=['BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=2']), dict(cxx='clang++', std=20, opt='-O1', flags=['-fno-rtti'])]
    lists, n = ([1, 4, 6, 9, 11, 15], dict(pairs=300, hists=100)) if t == 'quick' else (ALL, dict(pairs=8000, hists=2000))
    if t == 'thorough':
        cf += [dict(std=17, opt='-O3', xdefs=['BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT', 'BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=1']), dict(cxx='clang++', std=11, opt='-O0', xdefs=['BOOST_VARIANT_MINIMIZE_SIZE', 'NDEBUG']), dict(std=14, opt='-O2', flags=['-fno-rtti'], xdefs=['BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=5']), dict(cxx='clang++', std=17, opt='-O3', san='ubsan'), dict(std=11, opt='-O1', xdefs=['BOOST_NO_CXX14_DECLTYPE_AUTO', 'BOOST_NO_CXX11_DECLTYPE_N3276'])]
    j = []
    for c in cf: j += hist(lists, s, t, **dict(dict(san='none', opt='-O1'), **dict(c, **n)))
    for c in cf + [dict(cxx='clang++', std=17, opt='-O0')]: j += direct('obs', range(1, 5), [s], t, **dict(dict(san='none', opt='-O1'), **c))
    for c in [dict(opt='-O1', cxx='clang++'), dict(std=20, opt='-O0', flags=['-fno-exceptions']), dict(cxx='clang++', std=14, opt='-O2', flags=['-fno-exceptions', '-fno-rtti'], xdefs=['BOOST_VARIANT_MINIMIZE_SIZE'])] + ([dict(std=11, opt='-O2', flags=['-fno-exceptions']), dict(opt='-O3'), dict(cxx='clang++', std=20, opt='-O1', flags=['-fno-exceptions'])] if t == 'thorough' else []): j += direct('noeh', [None], [s, 20 if t == 'quick' else 400], t, **dict(dict(san='none'), **c))
    dc = [dict(opt='-O1'), dict(cxx='clang++', std=11, opt='-O0', xdefs=['BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=3']), dict(std=20, opt='-O2', xdefs=['BOOST_VARIANT_MINIMIZE_SIZE', 'NDEBUG', 'BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT'])]
    if t == 'thorough': dc += [dict(std=14, opt='-O0', cxx='clang++'), dict(std=11, opt='-O1', xdefs=['BOOST_VARIANT_VISITATION_UNROLLING_LIMIT=1']), dict(std=17, opt='-O3', cxx='clang++', xdefs=['BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT'])]
    for src, parts, a in (('visit', [1, 4], 1), ('multi', [1, 4], 1), ('get', [2], 1), ('cmp', [2], 8), ('rec', [2], 30)) if t == 'quick' else (('visit', range(1, 7), 3), ('multi', range(1, 9), 2), ('get', range(1, 5), 3), ('poly', range(1, 4), 3), ('cmp', [1, 2], 12), ('conv', range(1, 10), 3), ('rec', range(1, 6), 200), ('storage', range(1, 5), 40), ('alias', range(1, 6), 60), ('refs', [None], 5)):
        for c in dc: j += direct(src, parts, [s, a], t, san='none', **c)
    return dict(jobs=j, evaluations=HIST_EV + ['evaluations'], need=['ops', 'evaluations', 'digest_groups'], compare_digests=True, rule=HIST_RULE + ' Also a fixed program that logs every call the library makes on contents and visitors (constructions, assignments, own swaps, comparisons, hashes, output, visitor copies). Each is run under every configuration and the digests of everything observed (operations, types, values, outcomes, exceptions) must be equal; any check of another property that fails in some configurations and not in others counts too.')
