#!/usr/bin/env python3
"""Runs the check of one property:   run.py ID [--tier quick|thorough] [--seed N]
   run.py ID --replay FILE          replays one recorded case
   run.py --setup                   builds every harness (warms the build cache)

Builds the library of /repo (its working tree as it is) and the harness of the property, searches, and on a failure
replays the shrunk case three more times in fresh processes before it prints a VIOLATION line."""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
CLANG, CLANGC = 'clang++', 'clang'
DEFS = ['-DPGBN_DEBUG', '-DPGZXB_DEBUG', '-D__STDC_FORMAT_MACROS']
REL = ['-DNDEBUG', '-D__STDC_FORMAT_MACROS']
INC = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'c/include'), '-I' + os.path.join(REPO, 'src'),
       '-I' + os.path.join(HERE, 'harness')]
BASE = ['-std=c++17', '-g1', '-w', '-pthread', '-fno-omit-frame-pointer']

# variant -> flags for the library, for the harness, for the link
VARIANTS = {
    # assertions on, as in the tested build; the library reports edge coverage to the engine
    'dbg': dict(lib=['-O1', '-fsanitize-coverage=inline-8bit-counters', *DEFS], har=['-O1', *DEFS], eng=['-O2'], link=[]),
    # as released: assertions off, optimised
    'rel': dict(lib=['-O2', *REL, '-fsanitize-coverage=inline-8bit-counters'], har=['-O2', *REL], eng=['-O2'], link=[]),
    # address and undefined-behaviour sanitizers; the code's own assertions are off, so that only real accesses count
    'asan': dict(lib=['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-fsanitize-coverage=inline-8bit-counters', *REL],
                 har=['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', *REL],
                 eng=['-O1', '-fsanitize=address', '-DPBT_ASAN', '-DPBT_NO_NEW'], link=['-fsanitize=address,undefined']),
    # balance of the heap
    'leak': dict(lib=['-O1', '-fsanitize-coverage=inline-8bit-counters', *DEFS], har=['-O1', *DEFS], eng=['-O2', '-DPBT_WRAP_MALLOC'],
                 link=['-Wl,--wrap=malloc', '-Wl,--wrap=free', '-Wl,--wrap=calloc', '-Wl,--wrap=realloc']),
    # the tested code counts the edges of its control flow, the engine what it allocates
    'cost': dict(lib=['-O2', '-fsanitize-coverage=trace-pc', *REL], har=['-O2', '-fsanitize-coverage=trace-pc', *REL], eng=['-O2', '-DPBT_COST'], link=[]),
    # every memory access and synchronisation call of the tested code becomes a scheduling point of our own scheduler
    'sched': dict(lib=['-O1', '-fsanitize=thread', *DEFS], har=['-O1', '-fsanitize=thread', *DEFS], eng=['-O2', '-DPBT_SCHED'], link=['-rdynamic', '-ldl'], sched=True),
}

ENGINE = ['pbt.cpp']
SCHED = ['interleave.cpp']
# property -> list of (harness source, variant, number of searches in the quick tier, in the thorough tier)
from props import PROPS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_files():
    out = []
    for top in ('src', 'include', 'c'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs if f.endswith(('.cpp', '.h', '.hpp', '.c', '.inc', '.ipp', '.cc'))]
    return sorted(out)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def lib_sources():
    return [f for f in tree_files() if f.endswith('.cpp') and (f.startswith(os.path.join(REPO, 'src') + '/') or f.startswith(os.path.join(REPO, 'c/src') + '/'))]


def compile_one(cmd, out):
    if os.path.exists(out):
        return None
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh(cmd + ['-o', tmp])
    if r.returncode:
        return ' '.join(cmd) + '\n' + r.stdout
    os.rename(tmp, out)
    return None


def build(jobs):
    """jobs: list of (source, variant); returns {(source, variant): executable}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        tree = digest(*[x for f in tree_files() for x in (os.path.relpath(f, REPO), read(f))])
        hh = digest(*[read(os.path.join(HERE, 'harness', f)) for f in sorted(os.listdir(os.path.join(HERE, 'harness'))) if f.endswith('.h')])
        todo, objs, exes = {}, {}, {}
        for src, var in jobs:
            v = VARIANTS[var]
            lst = []

            def add(path, flags, name):
                key = digest(tree, hh, read(path), flags, path)
                o = os.path.join(BUILD, name + '-' + key + '.o')
                cc = [CLANG, *BASE]
                todo[o] = cc + flags + INC + ['-c', path]
                lst.append(o)
            for f in lib_sources():
                add(f, v['lib'], var + '-' + os.path.basename(f))
            add(os.path.join(HERE, 'harness', src), v['har'], var + '-' + src)
            for e in ENGINE + (SCHED if v.get('sched') else []):
                p = os.path.join(HERE, 'harness', e)
                add(p, v['eng'], var + '-' + e)
            objs[(src, var)] = lst
        # long compilations first
        order = sorted(todo, key=lambda o: -os.path.getsize(todo[o][-1]))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(lambda o: compile_one(todo[o], o), order) if e]
        if errs:
            print('\n'.join(errs)[:6000])
            print('BUILD-ERROR: the tested tree or the harness does not compile')
            sys.exit(3)

        def link(job):
            src, var = job
            exe = os.path.join(BUILD, var + '-' + src + '-' + digest(*objs[job], VARIANTS[var]['link']) + '.exe')
            exes[job] = exe
            return compile_one([CLANG, '-pthread', *objs[job], *VARIANTS[var]['link'], '-lgmpxx', '-lgmp'], exe)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(link, jobs) if e]
        if errs:
            print('\n'.join(errs)[:6000])
            sys.exit(3)
        keep = set(todo) | set(exes.values())
        now = time.time()
        for f in os.listdir(BUILD):  # keep the cache small
            p = os.path.join(BUILD, f)
            if p in keep:
                os.utime(p)
            elif f != '.lock' and now - os.path.getmtime(p) > 3 * 3600:
                os.unlink(p)
        return exes
    finally:
        lock.close()


def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_segv=1:detect_stack_use_after_return=0:quarantine_size_mb=32'
    e['UBSAN_OPTIONS'] = 'abort_on_error=1:print_stacktrace=1'
    e['LC_ALL'] = 'C'
    return e


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        jobs = sorted({tuple(r[:2]) for p in PROPS.values() for r in p['runs']})
        build(jobs)
        print('built', len(jobs), 'harnesses')
        return 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scale = 1.0
    replay = None
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]
        elif a[i] == '--seed': seed = int(a[i + 1])
        elif a[i] == '--scale': scale = float(a[i + 1])
        elif a[i] == '--replay': replay = a[i + 1]
        i += 2
    spec = PROPS[prop]
    runs = [r for r in spec['runs'] if (r[2] if tier == 'quick' else r[3])]
    t0 = time.time()
    if replay:
        txt = open(replay).read()
        var = re.search(r'^variant (\S+)', txt, re.M)
        src = re.search(r'^harness (\S+)', txt, re.M)
        job = (src.group(1), var.group(1)) if var and src else runs[0][:2]
        exe = build([job])[job]
        r = subprocess.run([exe, '--replay', replay, '--tmp', tempfile.mkdtemp()], env=env())
        return r.returncode
    exes = build(sorted({tuple(r[:2]) for r in runs}))
    tb = time.time() - t0
    tot = dict(evaluations=0, distinct_nontrivial=0, samples=[], labels={}, flaky=0, nontrivial=0, counters={}, searches=[])
    rules = []
    violation = None
    tmp = tempfile.mkdtemp(prefix='pbt-%s-' % prop)
    try:
        for src, var, q, t, *rest in runs:
            opt = rest[0] if rest else {}
            eprop = opt.get('prop', prop)
            n = q if tier == 'quick' else t
            for k in range(int(n) or 1):
                d = os.path.join(tmp, '%s-%s-%s-%d' % (src, var, eprop, k))
                os.makedirs(d)
                rf = os.path.join(d, 'replay.txt')
                of = os.path.join(d, 'out.json')
                cmd = [exes[(src, var)], '--prop', eprop, '--tier', tier, '--seed', str(seed * 1000 + k), '--out', of, '--tmp', d, '--replay-out', rf,
                       '--scale', str(scale * (n if n < 1 else 1)), *opt.get('args', [])]
                r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if not os.path.exists(of):
                    print('ENGINE-ERROR', r.returncode, r.stdout[-2000:].decode('utf8', 'replace'), r.stderr[-2000:].decode('utf8', 'replace'))
                    return 4
                j = json.load(open(of))
                tot['evaluations'] += j['evaluations']
                tot['nontrivial'] += j['nontrivial']
                tot['distinct_nontrivial'] += j['distinct_nontrivial']
                tot['flaky'] += j['flaky']
                if j['flaky']:
                    print('note: %d unreproducible outcome(s), e.g. %s' % (j['flaky'], j['flaky_msg'][:300]))
                for s in j['samples']:
                    if len(tot['samples']) < 6: tot['samples'].append(s)
                for l, v in j['labels'].items():
                    tot['labels'][l] = tot['labels'].get(l, 0) + v
                if j['counters_total']:
                    tot['counters'][var + ' ' + src] = '%d of %d' % (j['counters_hit'], j['counters_total'])
                rule = (opt['what'] + ' ' if opt.get('what') else '') + j['rule']
                if rule not in rules: rules.append(rule)
                tot['searches'].append(dict(cases_of=eprop, variant=var, harness=src, seed=seed * 1000 + k, evaluations=j['evaluations'], wall_s=round(j['wall_s'], 2)))
                if j['found']:
                    txt = open(rf).read()
                    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
                    dst = os.path.join(HERE, 'replays', '%s-%s.txt' % (prop, digest(txt)[:10]))
                    with open(dst, 'w') as f:
                        f.write('variant %s\nharness %s\n%s' % (var, src, txt))
                    ok = True
                    for _ in range(3):
                        rr = subprocess.run([exes[(src, var)], '--replay', dst, '--tmp', d], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                        ok = ok and rr.returncode == 1
                    if ok:
                        violation = (dst, j)
                        break
                    print('note: a failure did not replay three times: [%s] %s' % (j['fail_kind'], j['fail_msg'][:300]))
            if violation: break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov = dict(evaluations=tot['evaluations'], distinct_nontrivial=tot['distinct_nontrivial'], rule=' || '.join(rules), samples=tot['samples'],
               nontrivial=tot['nontrivial'], classes=tot['labels'], code_counters_hit=tot['counters'], searches=tot['searches'], unreproducible=tot['flaky'])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=spec.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed %d: %d cases, %d distinct non-trivial, %d searches, build %.1f s, total %.1f s' %
          (prop, tier, seed, tot['evaluations'], tot['distinct_nontrivial'], len(tot['searches']), tb, time.time() - t0))
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violation:
        print('[%s] %s' % (violation[1]['fail_kind'], violation[1]['fail_msg']))
        print(violation[1]['fail_notes'][:3000])
        print('VIOLATION property=%s replay=%s' % (prop, violation[0]))
        return 1
    return 0


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.exit(main())
