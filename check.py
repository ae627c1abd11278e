#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree and runs the generated-input checks.

  check.py run ID            one check (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py replay FILE       run one replay file again (its header names the property and the build)
  check.py setup             build every harness
  check.py list              the configured properties
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NAPSAT_REPO', '/repo')
sys.path.insert(0, HERE)
from props import PROPS, HARNESSES

OUT = os.environ.get('NAPSAT_OUT', HERE)   # where build, evidence and replays go
BUILD = os.path.join(OUT, 'build')
INC = ['-std=c++20', '-I' + HERE + '/harness', '-I' + HERE + '/harness/sentinel', '-I' + REPO + '/include', '-I' + REPO + '/src']
# fast: the release configuration (assertions off).  dbg: the solver's own assertions and invariant
# checks are on.  san: release configuration with the sanitizers.
FLAV = {'fast': ['-O1', '-DNDEBUG'], 'dbg': ['-O1'],
        'san': ['-O1', '-g1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=undefined'],
        'tsan': ['-O1', '-g1', '-DNDEBUG', '-fsanitize=thread'],   # data races
        'sdbg': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=undefined']}
LIBS = ['-llzma', '-lbz2']
JOBS = 8


def sources():
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out) + [REPO + '/main.cpp']


def tree_key():
    h = hashlib.sha256()
    h.update(open(REPO + '/main.cpp', 'rb').read())
    for root in (REPO + '/src', REPO + '/include', HERE + '/harness'):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])


def build(pairs):
    """pairs: set of (harness, flavour).  Returns {(harness, flavour): binary}."""
    key = tree_key()
    base = os.path.join(BUILD, key)
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            if d != key:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(base, exist_ok=True)
    srcs = [s for s in sources()]
    mains = [s for s in srcs if s.endswith('/main.cpp')]
    libs = [s for s in srcs if not s.endswith('/main.cpp')]
    jobs, seen = [], set()

    def obj(src, fl, extra=()):
        o = os.path.join(base, fl, re.sub(r'[^A-Za-z0-9]', '_', src) + '.o')
        if o not in seen:
            seen.add(o)
            os.makedirs(os.path.dirname(o), exist_ok=True)
            if not os.path.exists(o):
                jobs.append((os.path.getsize(src), ['clang++'] + INC + FLAV[fl] + list(extra) + ['-c', src, '-o', o + '.tmp'], o))
        return o
    links, res = [], {}
    for hname, fl in sorted(pairs):
        h = HARNESSES[hname]
        objs = [obj(HERE + '/harness/' + f, fl) for f in h['files']]
        if h.get('lib', True):
            objs += [obj(s, fl) for s in libs] + [obj(HERE + '/harness/sentinel/sentinel_stub.cpp', fl)]
        b = os.path.join(base, fl, hname)
        res[(hname, fl)] = b
        if not os.path.exists(b):
            links.append((['clang++'] + FLAV[fl] + objs + LIBS + ['-o', b + '.tmp'], b))
        if h.get('cli'):
            m = os.path.join(base, fl, 'napsat-cli')
            mo = [obj(s, fl) for s in mains] + [obj(s, fl) for s in libs] + [obj(HERE + '/harness/sentinel/sentinel_stub.cpp', fl)]
            if not os.path.exists(m) and not any(l[1] == m for l in links):
                links.append((['clang++'] + FLAV[fl] + mo + LIBS + ['-o', m + '.tmp'], m))
    jobs.sort(key=lambda j: -j[0])

    def one(j):
        sh(j[1]); os.rename(j[2] + '.tmp', j[2])

    def lnk(l):
        sh(l[0]); os.rename(l[1] + '.tmp', l[1])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
        list(ex.map(lnk, links))
    return res


def env_for(binary):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=78'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=79'
    e['PBT_CLI'] = os.path.join(os.path.dirname(binary), 'napsat-cli')
    e['PBT_TMP'] = SCRATCH
    return e


def replay(binary, prop, path, timeout=600):
    r = subprocess.run([binary, 'replay', '--prop', prop, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env=env_for(binary), timeout=timeout)
    return r.returncode, r.stdout.strip()


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) build=(\S+) case=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def header(path):
    h = {}
    for l in open(path, errors='replace'):
        m = re.match(r'# (property|build|check): (\S+)', l)
        if m:
            h[m.group(1)] = m.group(2)
    return h


def run(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = PROPS[pid]
    runs = P['runs']          # list of dict(h=harness, p=prop, fl=flavour, quick=n, thorough=n)
    bins = build({(r['h'], r['fl']) for r in runs})
    tb = time.time() - t0
    violations = []           # (path, message)
    replayed = 0
    # 1. regression corpus: minimal cases of defects seen before
    corpus = os.path.join(HERE, 'corpus', pid)
    todo = []
    if os.path.isdir(corpus):
        for f in sorted(os.listdir(corpus)):
            path = os.path.join(corpus, f); hd = header(path)
            for r in runs:
                if hd.get('check', r['p']) == r['p']:
                    todo.append((path, r))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (path, r), (rc, out) in zip(todo, ex.map(lambda x: replay(bins[(x[1]['h'], x[1]['fl'])], x[1]['p'], x[0]), todo)):
            replayed += 1
            if rc == 1:
                violations.append((path, out, r))
    # 2. known findings: reported, not counted
    known = 0
    for kp, kb, kc, what in known_findings():
        if kp != pid:
            continue
        r = next((r for r in runs if r['fl'] == kb), runs[0])
        rc, out = replay(bins[(r['h'], r['fl'])], header(os.path.join(HERE, kc)).get('check', r['p']), os.path.join(HERE, kc))
        if rc == 1:
            known += 1
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
    # 3. generated cases
    shards = []
    for k, r in enumerate(runs):
        n = r[tier]
        ns = min(r.get('shards', JOBS), max(1, n))
        for i in range(ns):
            shards.append((r, k, i, ns, (n + ns - 1 - i) // ns))
    shards.sort(key=lambda s: -(s[0].get('cost', 1) * s[4]))
    maxs = P.get('max_s', {'quick': 240, 'thorough': 3600})[tier]
    stop = time.time() + P.get('total_s', {'quick': 420, 'thorough': 6 * 3600})[tier]
    tmp = os.path.join(SCRATCH, 'out'); os.makedirs(tmp, exist_ok=True)
    failed = []

    def shard(s):
        r, k, i, ns, n = s
        b = bins[(r['h'], r['fl'])]
        out = os.path.join(tmp, '%d-%d.json' % (k, i))
        left = stop - time.time()
        if failed or left < 5:
            return None
        cmd = [b, 'run', '--prop', r['p'], '--seed', str(seed), '--cases', str(n), '--first', str(i), '--step', str(ns), '--batch', str(r.get('batch', 64)),
               '--max-seconds', str(int(min(maxs, left))), '--max-fail', '1', '--shrink-seconds', '40', '--out', out]
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_for(b))
        if not os.path.exists(out):
            raise RuntimeError('the harness did not report: ' + ' '.join(cmd) + ' -> %d' % p.returncode)
        j = json.load(open(out))
        if j['failures']:
            failed.append(1)
        return r, j
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = [x for x in ex.map(shard, shards) if x]
    ev, nt, labels, samples, rules, cut, lost = 0, {}, {}, [], [], 0, 0; slowest = (-1, -1, '', '')
    fails = []
    for r, j in results:
        ev += j['evaluations']; slowest = max(slowest, (j['slowest_ms'], j['slowest_index'], r['p'], r['fl']))
        nt.setdefault(r['p'], set()).update(j['hashes'])
        for a, b in j['labels'].items():
            labels[a] = labels.get(a, 0) + b
        for s in j['samples']:
            if len(samples) < 8 and len(s) < 1500:
                samples.append(s)
        if j['rule'] not in rules:
            rules.append(j['rule'])
        cut += bool(j['timed_out']); lost += j['not_reproduced']
        for f in j['failures']:
            fails.append((len(f['case']), r, f))
    fails.sort(key=lambda f: f[0])
    for _, r, f in fails[:3]:
        d = os.path.join(OUT, 'replays'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.case' % (pid, hashlib.sha256(f['case'].encode()).hexdigest()[:10]))
        with open(path, 'w') as o:
            o.write('# property: %s\n# check: %s\n# build: %s\n' % (pid, r['p'], r['fl']))
            for l in (f['kind'] + ': ' + f['message']).splitlines()[:12]:
                o.write('# ' + re.sub(r'[^\x20-\x7e]', '?', l)[:400] + '\n')
            o.write(f['case'] if f['case'].endswith('\n') else f['case'] + '\n')
        b = bins[(r['h'], r['fl'])]
        again = [replay(b, r['p'], path) for _ in range(3)]
        if all(rc == 1 for rc, _ in again):
            violations.append((path, again[-1][1], r))
            break
        lost += 1
    dn = sum(len(x) for x in nt.values())
    evidence = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2),
                    coverage=dict(evaluations=ev + replayed, distinct_nontrivial=dn, rule=' || '.join(rules), samples=samples or ['(none)'],
                                  builds=sorted({r['fl'] for r in runs}), labels=dict(sorted(labels.items())), regression_cases=replayed,
                                  known_findings_reported=known, shards_cut_by_time=cut, failures_not_reproduced=lost, slowest_case=list(slowest), build_s=round(tb, 2)))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    json.dump(evidence, open(os.path.join(OUT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s' % (pid, P['title'], ev, dn, time.time() - t0, tb, ', %d shard(s) cut by time' % cut if cut else ''))
    for path, msg, r in violations[:3]:
        print('build=%s check=%s' % (r['fl'], r['p']))
        print(re.sub(r'[^\x20-\x7e\n]', '?', msg)[:2000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if violations else 0


def main():
    global SCRATCH
    if len(sys.argv) < 2:
        print(__doc__); return 2
    import tempfile
    SCRATCH = tempfile.mkdtemp(prefix='napsat-check-')
    os.chmod(SCRATCH, 0o755)
    try:
        if sys.argv[1] == 'list':
            for k in sorted(PROPS):
                print(k, PROPS[k]['title'])
            return 0
        if sys.argv[1] == 'setup':
            build({(r['h'], r['fl']) for P in PROPS.values() for r in P['runs']})
            print('built'); return 0
        if sys.argv[1] == 'replay':
            hd = header(sys.argv[2])
            pid = hd['property']; runs = [r for r in PROPS[pid]['runs'] if hd.get('check', r['p']) == r['p'] and hd.get('build', r['fl']) == r['fl']] or PROPS[pid]['runs']
            bad = 0
            for r in runs:
                rc, out = replay(build({(r['h'], r['fl'])})[(r['h'], r['fl'])], r['p'], sys.argv[2]); bad |= rc
                print('%s %s %s: %s' % (pid, r['p'], r['fl'], out[:2000]))
            if bad:
                print('VIOLATION property=%s replay=%s' % (pid, sys.argv[2]))
            return 1 if bad else 0
        if sys.argv[1] == 'run':
            return run(sys.argv[2])
        print(__doc__); return 2
    except BuildError as e:
        print('cannot build: ' + str(e)); return 3
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
