#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: builds the drivers of a property from /repo's working tree, runs them under
their monitors, and decides. Exit 0 held, 1 violated (with a VIOLATION line), 2 no answer (harness or machine trouble)."""
import concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, tempfile, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(HERE, 'src')
sys.path.insert(0, HERE)
import plan

NPROC = min(8, os.cpu_count() or 8)
CPU_LIMIT = {'quick': 300, 'thorough': 3000}
WALL_LIMIT = {'quick': 500, 'thorough': 6000}
COMPILE_LIMIT = 600

def sh(cmd, timeout, env=None, cwd=None, cpu=None):
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    t = time.time()
    for k in range(60):
        try: p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=lim, start_new_session=True); break
        except OSError as e:                     # text file busy: another thread has just forked
            if e.errno != 26 or k == 59: raise
            time.sleep(0.5)
    try:
        o, e = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate()
        to = True
    return dict(rc=p.returncode, out=o.decode('utf8', 'replace'), err=e.decode('utf8', 'replace'), timeout=to, wall=time.time() - t)

def compile_env():
    e = dict(os.environ)
    for k in ('CPATH', 'CPLUS_INCLUDE_PATH', 'C_INCLUDE_PATH'): e.pop(k, None)
    e['LANG'] = 'C.UTF-8'; e['LC_ALL'] = 'C'
    return e

SAN = {
    'none': [],
    'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'],
    'asan+ubsan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'ubsan': ['-fsanitize=undefined', '-fno-sanitize-recover=all'],
    'tsan': ['-fsanitize=thread'],
    'msan': ['-fsanitize=memory', '-fno-omit-frame-pointer', '-DVERIF_NOFILL', '-DVERIF_NOSTREAM', '-DVERIF_NO_ALLOC_HOOK'],
    'valgrind': ['-DVERIF_NOFILL'],
}

def build_cmd(b, out):
    c = [b.get('cxx', 'g++'), '-std=c++' + str(b.get('std', 17)), b.get('opt', '-O1'), '-g1', '-w', '-I' + os.path.join(REPO, 'include'), '-I' + SRC]
    c += SAN[b.get('san', 'asan')] + b.get('flags', [])
    c += ['-D%s' % d for d in b.get('defs', [])]
    c += [os.path.join(SRC, b['src']), '-o', out] + (['-pthread'] if b.get('san') == 'tsan' or b.get('threads') else [])
    return c

def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), SRC):
        for d, ds, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def compile_one(b, out, cache):
    cmd = build_cmd(b, out)
    cp = None
    if cache:   # developer convenience only (VERIF_CACHE=dir); keyed on every header, source and flag
        cp = os.path.join(cache, hashlib.sha256(('\0'.join(cmd[:-1] if cmd[-1] != '-pthread' else cmd).replace(out, 'OUT') + cache_key).encode()).hexdigest())
        if os.path.exists(cp): shutil.copy2(cp, out); return dict(rc=0, out='', err='', timeout=False, wall=0)
    for attempt in (0, 1):
        r = sh(cmd, COMPILE_LIMIT, env=compile_env(), cwd=SRC)
        if r['rc'] == 0:
            if cp: shutil.copy2(out, cp)
            return r
        if r['rc'] == 1 and ' error: ' in r['err'] + r['out'] and attempt == 1: return r
    return r

def run_env(prop, b, casefile):
    e = dict(os.environ)
    leak = '1' if (b.get('leaks') and b.get('san', 'asan').startswith('asan')) else '0'
    e['ASAN_OPTIONS'] = 'detect_leaks=%s:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_fill_byte=190:max_malloc_fill_size=4096:handle_abort=0' % leak
    e['LSAN_OPTIONS'] = 'exitcode=23'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=66'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=0:history_size=5:report_signal_unsafe=0'
    e['MSAN_OPTIONS'] = 'exitcode=66'
    e['VERIF_CASEFILE'] = casefile
    return e

FATAL = [
    (r'ERROR: AddressSanitizer: ([\w-]+)', 'asan'), (r'runtime error: ([^\n]{0,80})', 'ubsan'), (r'WARNING: ThreadSanitizer: ([\w ]+)', 'tsan'),
    (r'WARNING: MemorySanitizer: ([\w-]+)', 'msan'), (r'ERROR: LeakSanitizer: ([\w ]+)', 'lsan'), (r"Assertion `([^']+)' failed", 'assert'),
    (r'(terminate called[^\n]*)', 'terminate'), (r'==\d+== (Invalid (?:read|write)|Conditional jump[^\n]*|Use of uninit[^\n]*|Syscall param[^\n]*|Invalid free[^\n]*|Mismatched free[^\n]*)', 'valgrind'),
    (r'==\d+== +(definitely lost: [1-9][^\n]*)', 'valgrind-leak'),
]
def fatal_kind(err, rc):
    for pat, name in FATAL:
        m = re.search(pat, err)
        if m: return '%s:%s' % (name, re.sub(r'[^\w:<>,*.() -]+', '', m.group(1)).strip()[:80])
    if rc < 0:
        import signal
        try: return 'signal:%s' % signal.Signals(-rc).name
        except ValueError: return 'signal:%d' % -rc
    return 'exit:%d' % rc

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = plan.plan(prop, tier, seed)
    cache = os.environ.get('VERIF_CACHE')
    global cache_key
    cache_key = tree_hash() if cache else ''
    if cache: os.makedirs(cache, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop, dir=os.environ.get('VERIF_SCRATCH', '/tmp'))
    evdir = os.path.join(HERE, 'evidence'); os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(evdir, 'replay', prop)
    shutil.rmtree(rpdir, ignore_errors=True)
    try:
        rc = decide(prop, tier, seed, P, scratch, evdir, rpdir, cache, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(prop, tier, seed, P, scratch, evdir, rpdir, cache, t0):
    jobs = P['jobs']
    errors, viol, cov, samples, digests, runs = [], [], {}, [], {}, []
    othr, ran = {}, {}   # per group and arguments: what configurations saw violations of other properties, and which ran
    compile_s = [0.0]
    def one(i):
        b = jobs[i]
        out = os.path.join(scratch, 'd%d' % i)
        c = compile_one(b, out, cache)
        res = dict(b=b, i=i, compile=c, runs=[])
        if c['rc'] != 0: return res
        for a in b['args']:
            cf_ = os.path.join(scratch, 'case%d' % i)
            cmd = [out] + [str(x) for x in a]
            if b.get('san') == 'valgrind':
                cmd = ['valgrind', '-q', '--error-exitcode=66', '--leak-check=' + ('full' if b.get('leaks') else 'no'), '--show-leak-kinds=definite', '--errors-for-leak-kinds=definite', '--undef-value-errors=yes'] + cmd
            for attempt in (0, 1):
                r = sh(cmd, WALL_LIMIT[tier], env=run_env(prop, b, cf_), cwd=scratch, cpu=CPU_LIMIT[tier])
                hang = r['rc'] in (-24, -9) and not r['timeout'] and r['wall'] > CPU_LIMIT[tier] * 0.9
                if r['timeout'] or (r['rc'] == -9 and not hang):
                    if attempt == 0: continue
                    r['inconclusive'] = True
                r['hang'] = hang
                break
            try: r['case'] = open(cf_, 'rb').read().split(b'\0')[0].decode('utf8', 'replace')
            except OSError: r['case'] = ''
            r['args'] = a
            res['runs'].append(r)
        try: os.unlink(out)
        except OSError: pass
        return res
    with cf.ThreadPoolExecutor(NPROC) as ex:
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('weight', 1))
        results = list(ex.map(one, order))
    results.sort(key=lambda r: r['i'])
    control = None
    for r in results:
        b, c = r['b'], r['compile']
        compile_s[0] += c['wall']
        if c['rc'] != 0:
            txt = c['err'] + c['out']
            if c['timeout'] or c['rc'] != 1 or ' error: ' not in txt or 'internal compiler error' in txt or 'No space left' in txt:
                errors.append('compiler trouble on %s: rc %s %s' % (b['name'], c['rc'], txt[-300:])); continue
            if control is None:
                ctl = os.path.join(scratch, 'control.cpp')
                open(ctl, 'w').write('#include <boost/variant.hpp>\n#include <boost/variant/multivisitors.hpp>\n#include <boost/variant/polymorphic_get.hpp>\nint main(){ boost::variant<int, double> v(1); return v.which(); }\n')
                control = sh([b.get('cxx', 'g++'), '-std=c++17', '-w', '-I' + REPO + '/include', ctl, '-o', ctl + '.x'], COMPILE_LIMIT, env=compile_env())
            if control['rc'] != 0: errors.append('headers do not compile at all: ' + control['err'][-300:]); continue
            first = next((l for l in txt.split('\n') if ' error: ' in l), '')[:400]
            viol.append(dict(key='does-not-compile:%s' % b['name'], detail='public use of the library no longer compiles: ' + first, job=b, args=None, log=txt[:20000]))
            continue
        for x in r['runs']:
            ok = x['rc'] == 0 and '\nE|ok' in '\n' + x['out']
            runs.append(dict(name=b['name'], args=x['args'], rc=x['rc'], wall_s=round(x['wall'], 2)))
            if x.get('inconclusive'):
                errors.append('%s %s: no result (rc %s, timeout %s)' % (b['name'], x['args'], x['rc'], x['timeout'])); continue
            if x['rc'] == 77: errors.append('%s: harness error: %s' % (b['name'], x['err'][-300:])); continue
            nv = 0
            if b.get('group'): ran.setdefault((b['group'], str(x['args'])), set()).add(b['name'])
            for l in x['out'].split('\n'):
                f = l.split('|')
                if f[0] == 'V' and len(f) >= 4:
                    if prop in f[1].split(','):
                        nv += 1
                        viol.append(dict(key=f[2], detail='|'.join(f[3:]), job=b, args=x['args'], log=x['err'][:4000]))
                    else:
                        if P.get('compare_digests') and b.get('group'): othr.setdefault((b['group'], str(x['args'])), {}).setdefault(b['name'], []).append((f[2], '|'.join(f[3:]), b, x['args']))
                        cov['other_property_observations'] = cov.get('other_property_observations', 0) + 1
                elif f[0] == 'C' and len(f) == 3:
                    cov[f[1]] = cov.get(f[1], 0) + int(f[2])
                elif f[0] == 'S': samples.append(('%s: ' % b['name'] + '|'.join(f[1:]))[:700])
                elif f[0] == 'D' and len(f) == 3:
                    digests.setdefault((b.get('group', b['src']), str(x['args']), f[1]), []).append((b['name'], f[2], b, x['args']))
            if x.get('hang'):
                viol.append(dict(key='hang:%s' % b['name'], detail='did not terminate @ ' + x['case'], job=b, args=x['args'], log=''))
            elif not ok:
                k = fatal_kind(x['err'], x['rc'])
                if k.startswith('lsan') and prop not in ('C03', 'C14', 'C19'): continue
                viol.append(dict(key='fatal:' + k, detail='%s @ %s' % (k, x['case']), job=b, args=x['args'], log=x['err'][:20000]))
    if P.get('compare_digests'):
        for g, l in sorted(digests.items()):
            vals = {}
            for n, d, b, a in l: vals.setdefault(d, []).append((n, b, a))
            cov['digest_groups'] = cov.get('digest_groups', 0) + 1
            cov['configurations'] = max(cov.get('configurations', 0), len(l))
            if len(vals) > 1:
                odd = min(vals.values(), key=len)
                viol.append(dict(key='configurations-differ:%s' % g[2], detail='%s %s %s: %s' % (g[0], g[1], g[2], {d: [n for n, _, _ in v] for d, v in vals.items()}), job=odd[0][1], args=odd[0][2], log=''))
        for g, d in sorted(othr.items()):   # an observation that only some configurations make
            keys = {k for v in d.values() for k, _, _, _ in v}
            for k in sorted(keys):
                who = [n for n in d if any(q[0] == k for q in d[n])]
                if len(who) < len(ran.get(g, who)):
                    q = next(q for q in d[who[0]] if q[0] == k)
                    viol.append(dict(key='only-in-some-configurations:%s' % k, detail='%s: %s in %s but not in %s: %s' % (g[0], k, who, sorted(ran[g] - set(who)), q[1]), job=q[2], args=q[3], log=''))
    if P.get('need'):
        for k in P['need']:
            if not cov.get(k) and not viol: errors.append('monitor observed no %s: the workload did not exercise the property' % k)
    # known findings
    known = []
    kf = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l and not l.startswith('#') and l.startswith('{'):
                k = json.loads(l)
                if k.get('status') == 'known' and k['property'] == prop: known.append(k)
    new, seen_known = [], {}
    for v in viol:
        m = next((k for k in known if k['key'] == v['key']), None)
        if m: seen_known[m['key']] = m
        else: new.append(v)
    for k in seen_known.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = dict(property=prop, tier=tier, seed=seed, level=plan.LEVEL.get(prop, 'exploration'),
              coverage=dict(evaluations=sum(cov.get(k, 0) for k in P['evaluations']), distinct_nontrivial=cov.get('distinct', 0), rule=P['rule'],
                            samples=(samples or ['(none)'])[:8], counters=cov, builds=len(jobs), runs=runs, compile_cpu_s=round(compile_s[0], 1)),
              wall_s=round(time.time() - t0, 1), assumptions=P.get('assumptions', []), violations=len(new))
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    if new:
        os.makedirs(rpdir, exist_ok=True)
        seen = {}
        for v in new: seen.setdefault(v['key'], v)
        for n, v in enumerate(list(seen.values())[:5]):
            path = os.path.join(rpdir, 'v%d.txt' % n)
            b = v['job']
            with open(path, 'w') as f:
                f.write('property: %s\nkey: %s\nwhat: %s\nseed: %d\n' % (prop, v['key'], v['detail'], seed))
                f.write('build: %s\nrun: /tmp/replay_driver %s\n\n%s\n' % (' '.join(build_cmd(b, '/tmp/replay_driver')), ' '.join(map(str, v['args'] or [])), v['log']))
            print('%s: %s' % (v['key'], v['detail'][:500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:10]: print('ERROR: ' + e, file=sys.stderr)
        return 2
    if ev['coverage']['evaluations'] == 0:
        print('ERROR: nothing was observed', file=sys.stderr); return 2
    print('%s %s: held; %s evaluations, %s distinct, %.1f s' % (prop, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0

if __name__ == '__main__': main()
