#!/usr/bin/env python3
"""mutants.py FILE... [--jobs N] [--scale S] [--only REGEX] [--list] [--lines A-B] [--out LOG]: a systematic look for what the checks do not see.
Makes small changes (operators, constants, conditions, dropped statements) to the given sources of /repo one at a time in scratch copies
below /tmp/mut, and runs the searches of every property over each until one finds it. What no search finds is printed as SURVIVED,
for a person to judge: a change of behaviour that a property forbids (then the check is too weak), or none."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run as R
from props import PROPS
ROOT = '/tmp/mut'


def mask(text):
    """text with comments, strings and preprocessor lines blanked"""
    out = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r'[^\n]', '\0', m.group(0)), text, flags=re.S)
    return re.sub(r'^[ \t]*#[^\n]*', lambda m: '\0' * len(m.group(0)), out, flags=re.M)


def close(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '(': d += 1
        elif s[j] == ')':
            d -= 1
            if d == 0: return j
    return -1


def mutants(text):
    m = mask(text)
    out = []
    def sub(a, b, new, what): out.append((a, b, new, what))
    for x in re.finditer(r' (<=|>=|==|!=|<|>) ', m):
        for new in {'<': ['<=', '>'], '<=': ['<'], '>': ['>=', '<'], '>=': ['>'], '==': ['!='], '!=': ['==']}[x.group(1)]:
            sub(x.start(1), x.end(1), new, 'rel')
    for x in re.finditer(r' (\+|-|&|\||\^|<<|>>|&&|\|\||/|%|\*) ', m):
        sub(x.start(1), x.end(1), {'+': '-', '-': '+', '&': '|', '|': '&', '^': '|', '<<': '>>', '>>': '<<', '&&': '||', '||': '&&', '/': '*', '%': '/', '*': '+'}[x.group(1)], 'op')
    for x in re.finditer(r' (\+|-|&|\||\^)= ', m):
        sub(x.start(1), x.end(1), {'+': '-', '-': '+', '&': '|', '|': '&', '^': '|'}[x.group(1)], 'op=')
    for x in re.finditer(r'\+\+|--', m):
        sub(x.start(), x.end(), '--' if x.group(0) == '++' else '++', 'incdec')
    for x in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=(ULL|U|LL|ULL)?\b)', m):
        v = int(x.group(1), 0) if not re.match(r'0\d', x.group(1)) else None
        if v is None: continue
        sub(x.start(1), x.end(1), str(v + 1) if v != 1 else '2', 'const+1')
        if v: sub(x.start(1), x.end(1), str(v - 1), 'const-1')
    for x in re.finditer(r'\b(true|false)\b', m):
        sub(x.start(), x.end(), 'false' if x.group(0) == 'true' else 'true', 'bool')
    for x in re.finditer(r'\b(if|while) \(', m):
        i = x.end() - 1
        j = close(m, i)
        if j < 0 or ';' in m[i:j] or 'constexpr' in m[x.start() - 12:x.end()]: continue
        sub(i + 1, j, 'false && (' + text[i + 1:j] + ')', 'never')
        if x.group(1) == 'if': sub(i + 1, j, 'true || (' + text[i + 1:j] + ')', 'always')
    for x in re.finditer(r'^[ \t]+([^\n{}]*;)[ \t\0]*\r?$', m, flags=re.M):
        s = x.group(1)
        if re.match(r'(return|using|auto|const|static|constexpr|typedef|template|goto|for|if|while|else|case|default|PGZXB|Slice|std::|explicit|friend|virtual|mutable|Node \*|bool |SizeType |int |Enum )', s): continue
        sub(x.start(1), x.end(1), ';', 'drop')
    for x in re.finditer(r'\{ ([^{}\n;]+;) (?=(return|[^{}\n]*\}))', m):
        sub(x.start(1), x.end(1), ';', 'drop')
    return out


LIBS = lambda repo: sorted(os.path.join(d, f) for top in ('src', 'c/src') for d, _, fs in os.walk(os.path.join(repo, top)) for f in fs if f.endswith('.cpp'))
HAR = {}
for pid, sp in PROPS.items():
    for r in sp['runs']:
        if pid == 'C26': continue
        v = r[1]
        if v in ('dbg', 'sched'): HAR.setdefault((r[0], v), []).append((pid, (r[4] if len(r) > 4 else {}).get('prop', pid)))
ORDER = dict(zip(['C12', 'C01', 'C03', 'C10', 'C09', 'C07', 'C06', 'C05', 'C04', 'C02', 'C11', 'C08'], range(-20, 0)))


class Worker:
    def __init__(self, k, args):
        self.dir = os.path.join(ROOT, 'w%d' % k)
        self.repo = self.dir + '/repo'
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.repo)
        for t in ('src', 'c', 'include'): shutil.copytree('/repo/' + t, self.repo + '/' + t)
        self.inc = ['-I' + self.repo + '/include', '-I' + self.repo + '/c/include', '-I' + self.repo + '/src', '-I' + HERE + '/harness']
        self.args = args
        self.seq = 0
        self.base = {}
        err = self.compile(self.all_jobs(args.variants), self.base)
        assert not err, err

    def all_jobs(self, variants):
        jobs = []
        for v in variants:
            jobs += [(p, v, 'lib') for p in LIBS(self.repo)]
            jobs += [(HERE + '/harness/' + s, v, 'har') for s, vv in HAR if vv == v]
            jobs += [(HERE + '/harness/' + e, v, 'eng') for e in R.ENGINE + (R.SCHED if R.VARIANTS[v].get('sched') else [])]
        return jobs

    def compile(self, jobs, into):
        def one(j):
            path, v, kind = j
            self.seq += 1
            o = '%s/%s-%s-%d.o' % (self.dir, v, os.path.basename(path), self.seq)
            r = R.sh([R.CLANG, *R.BASE, *R.VARIANTS[v][kind], *self.inc, '-c', path, '-o', o])
            if r.returncode: return r.stdout[-600:]
            into[(path, v)] = o
        with concurrent.futures.ThreadPoolExecutor(self.args.cj) as ex:
            return [e for e in ex.map(one, jobs) if e]

    def deps(self, path, v):
        if path.endswith('.cpp'): return [(path, v, 'lib')]
        return [j for j in self.all_jobs((v,)) if j[2] != 'eng']

    def run(self, rel, text, mut):
        a, b, new, what = mut
        path = self.repo + '/' + rel
        with open(path, 'w', newline='') as f: f.write(text[:a] + new + text[b:])
        made = []
        try:
            for v in self.args.variants:
                objs = dict(self.base)
                over = {}
                err = self.compile(self.deps(path, v), over)
                made += list(over.values())
                if err: return 'nocompile'
                objs.update(over)
                runs = sorted(((pid, prop, s) for (s, vv), l in HAR.items() if vv == v for pid, prop in l if not self.args.props or pid in self.args.props), key=lambda x: (ORDER.get(x[0], 0), x[0]))
                if self.args.first: runs.sort(key=lambda x: x[0] not in self.args.first)
                exes = {}
                for pid, prop, s in runs:
                    if s not in exes:
                        exe = '%s/%s-%s-%d.exe' % (self.dir, v, s, self.seq)
                        r = R.sh([R.CLANG, '-pthread', *[objs[(p, v)] for p in LIBS(self.repo)], objs[(HERE + '/harness/' + s, v)],
                                  *[objs[(HERE + '/harness/' + e, v)] for e in R.ENGINE + (R.SCHED if R.VARIANTS[v].get('sched') else [])],
                                  *R.VARIANTS[v]['link'], '-lgmpxx', '-lgmp', '-o', exe])
                        if r.returncode: return 'nolink ' + r.stdout[-300:]
                        exes[s] = exe
                        made.append(exe)
                    t = tempfile.mkdtemp(dir=self.dir)
                    try:
                        subprocess.run([exes[s], '--prop', prop, '--tier', 'quick', '--seed', '7', '--out', t + '/o', '--tmp', t, '--replay-out', t + '/r', '--scale', str(self.args.scale),
                                        '--no-shrink', '--workers', str(self.args.workers)], env=R.env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
                        j = json.load(open(t + '/o'))
                        if j['found']: return 'caught ' + pid + ' ' + j['fail_msg'][:80].replace('\n', ' ')
                    except subprocess.TimeoutExpired:
                        subprocess.run(['pkill', '-9', '-f', exes[s]])
                        return 'caught ' + pid + ' (timeout)'
                    except Exception as e:
                        return 'caught ' + pid + ' (engine: %s)' % e
                    finally:
                        shutil.rmtree(t, ignore_errors=True)
            return 'SURVIVED'
        finally:
            for o in made:
                if os.path.exists(o): os.unlink(o)
            with open(path, 'w', newline='') as f: f.write(text)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+'); ap.add_argument('--jobs', type=int, default=4); ap.add_argument('--workers', type=int, default=3); ap.add_argument('--cj', type=int, default=3)
    ap.add_argument('--scale', type=float, default=0.15); ap.add_argument('--only', default=''); ap.add_argument('--list', action='store_true'); ap.add_argument('--lines', default='')
    ap.add_argument('--out', default=ROOT + '/log.txt'); ap.add_argument('--first', default=''); ap.add_argument('--skip', default=''); ap.add_argument('--variants', default='dbg,sched'); ap.add_argument('--props', default='')
    a = ap.parse_args()
    a.first = a.first.split(',') if a.first else []
    a.variants = a.variants.split(',')
    a.props = a.props.split(',') if a.props else []
    done = set(l.split(' | ', 1)[1].rstrip('\n') for l in open(a.out)) if os.path.exists(a.out) else set()
    todo = []
    for rel in a.files:
        text = open('/repo/' + rel, newline='').read()
        lo, hi = map(int, a.lines.split('-')) if a.lines else (1, 10**9)
        for mu in mutants(text):
            line = text.count('\n', 0, mu[0]) + 1
            if not lo <= line <= hi or (a.only and not re.search(a.only, mu[3])): continue
            src = text.splitlines()[line - 1].strip()
            if 'PGZXB_DEBUG_ASSERT' in src or (a.skip and re.search(a.skip, src)): continue
            if '%s:%d %s %r -> %r | %s' % (rel, line, mu[3], text[mu[0]:mu[1]][:60], mu[2][:60], src[:120]) in done: continue
            todo.append((rel, text, mu, line, src))
    print(len(todo), 'mutants')
    if a.list:
        for rel, text, mu, line, src in todo: print('%s:%d %s %r -> %r | %s' % (rel, line, mu[3], text[mu[0]:mu[1]], mu[2], src[:100]))
        return
    os.makedirs(ROOT, exist_ok=True)
    q = queue.Queue()
    for t in todo: q.put(t)
    lk = threading.Lock()
    log = open(a.out, 'a')

    def go(k):
        w = Worker(k, a)
        while True:
            try: rel, text, mu, line, src = q.get_nowait()
            except queue.Empty: break
            res = w.run(rel, text, mu)
            with lk:
                log.write('%s | %s:%d %s %r -> %r | %s\n' % (res, rel, line, mu[3], text[mu[0]:mu[1]][:60], mu[2][:60], src[:120]))
                log.flush()
        shutil.rmtree(w.dir, ignore_errors=True)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(a.jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    print('done')


main()
