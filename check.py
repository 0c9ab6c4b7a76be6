#!/usr/bin/env python3
"""Decides one property: python3 check.py C01

Builds the executor and the harness from /repo's current working tree, runs the symbolic executor on
every entry of the property, replays every path and every counterexample on the compiled program,
and writes evidence/<id>.json.  Exit 0: holds within the bounds; 1: VIOLATION; 2: no answer.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, '.build')
REPO = '/repo'
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = TIER == 'thorough'
# paths replayed on the compiled program per entry
MAX_REPLAY = 200000 if THOROUGH else 20000
# seconds of symbolic execution per check (the whole check has 900 s in the quick tier)
BUDGET = int(os.environ.get('SYMEX_BUDGET', '7200' if THOROUGH else '560'))
SYMEX = os.path.join(B, 'symex/release/symex')
NATIVE = os.path.join(B, 'harness/release/harness')


class Failed(Exception):
    pass


def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e


def run(cmd, cwd, target, what):
    e = env()
    e['CARGO_TARGET_DIR'] = target
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise Failed('%s does not build' % what)


def build_symex():
    run(['cargo', 'build', '--release', '--offline', '-q'], os.path.join(V, 'symex'), os.path.join(B, 'symex'), 'the executor')


def build_harness():
    t = os.path.join(B, 'harness')
    # always recompile the code under test and the harness from the current working tree
    for p in glob.glob(t + '/release/.fingerprint/openid4vci-*') + glob.glob(t + '/release/.fingerprint/harness-*'):
        shutil.rmtree(p)
    for p in glob.glob(t + '/release/deps/harness-*') + glob.glob(t + '/release/deps/*openid4vci-*') + [NATIVE]:
        if os.path.exists(p):
            os.remove(p)
    run(['cargo', 'rustc', '--release', '--offline', '-q', '--bin', 'harness', '--', '--emit=llvm-ir,link',
         '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], os.path.join(V, 'harness'), t, 'the harness (with /repo\'s crate)')
    ll = glob.glob(t + '/release/deps/harness-*.ll')
    if len(ll) != 1:
        raise Failed('expected one module, have %s' % ll)
    return ll[0]


def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            a = ex.submit(build_symex)
            b = ex.submit(build_harness)
            a.result()
            return b.result()


def entries():
    """name -> covers that have to be reached"""
    o = subprocess.run([NATIVE, 'list'], stdout=subprocess.PIPE, text=True, check=True).stdout
    r = {}
    for l in o.splitlines():
        n, _, c = l.partition(' ')
        r[n] = [x for x in c.split(',') if x]
    return r


def symex(ll, entry, out, secs, known, dump=None):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [SYMEX, '--ir', ll, '--entry', entry, '--out', out, '--time', str(int(secs)), '--tier', '1' if THOROUGH else '0',
           '--workers', str(os.cpu_count() or 4), '--solver-ms', '300000' if THOROUGH else '60000',
           # the verdict is settled by the first violation: look for others for a little longer only
           '--grace', '20000', '--known', ','.join(known)]
    if dump:
        cmd += ['--dump', dump]
    t = time.time()
    with open(out + '/log', 'w') as lg:
        try:
            rc = subprocess.run(cmd, stdout=lg, stderr=subprocess.STDOUT, timeout=secs + 90).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    res = dict(entry=entry, rc=rc, wall=time.time() - t, paths=[], viols=[], errors=[], stats={}, checks={}, src=set(), nfuncs=0, covers=set(), npaths=0)
    rnd = random.Random(SEED)
    for f in sorted(glob.glob(out + '/*.jsonl')):
        for line in open(f):
            if not line.strip():
                continue
            try:
                r = json.loads(line)
            except ValueError:
                res['errors'].append({'msg': 'unreadable result line'})
                continue
            k = r['k']
            if k == 'path':
                res['npaths'] += 1
                res['covers'].update(r['covers'])
                # replaying every path natively takes too long when there are very many of them
                if len(res['paths']) < MAX_REPLAY:
                    res['paths'].append(r)
                else:
                    i = rnd.randrange(res['npaths'])
                    if i < MAX_REPLAY:
                        res['paths'][i] = r
            elif k == 'viol':
                res['viols'].append(r)
            elif k == 'error':
                res['errors'].append(r)
            elif k == 'stats':
                for a, b in r.items():
                    if a != 'k':
                        res['stats'][a] = max(res['stats'].get(a, 0), b) if a.startswith('max') else res['stats'].get(a, 0) + b
            elif k == 'check':
                c = res['checks'].setdefault(r['id'], [0, 0, 0])
                c[0] += r['proved']
                c[1] += r['failed']
                c[2] += r['concrete']
            elif k == 'src':
                res['src'].add((r['file'], r['line'], r['fn']))
            elif k == 'nfuncs':
                res['nfuncs'] = max(res['nfuncs'], r['n'])
    return res


def case_text(inputs):
    return ''.join('%s\t%s\t%s\n' % (k, n, v) for n, k, v in inputs) + 'end\n'


def native(entry, cases, d, tag):
    """Runs the compiled program on the given assignments; one result per case."""
    if not cases:
        return []
    n = min(os.cpu_count() or 4, max(1, len(cases) // 20 + 1))
    chunks = [cases[i::n] for i in range(n)]

    def one(i):
        f = os.path.join(d, '%s-%d.txt' % (tag, i))
        open(f, 'w').write(''.join(case_text(c) for c in chunks[i]))
        p = subprocess.run([NATIVE, entry, f, '1' if THOROUGH else '0'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           errors='replace', timeout=600)
        res, cur = [], None
        for l in p.stdout.splitlines():
            if l.startswith('case '):
                cur = dict(obs=[], reach=set(), fail=None, exit=None, done=False, note=None)
                res.append(cur)
            elif cur is None:
                continue
            elif l.startswith('obs '):
                _, a, b = l.split(' ', 2)
                cur['obs'].append((a, int(b)))
            elif l.startswith('reach '):
                cur['reach'].add(l[6:])
            elif l.startswith('fail '):
                cur['fail'] = l[5:]
            elif l == 'done':
                cur['done'] = True
            elif l.startswith('exit '):
                _, a, b = l.split()
                cur['exit'] = (int(a), int(b))
            elif l.startswith('mismatch') or l == 'assume-false':
                cur['note'] = l
        if len(res) != len(chunks[i]):
            raise Failed('native replay of %s ended early' % entry)
        return res

    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(one, range(n)))
    return [parts[i % n][i // n] for i in range(len(cases))]


def known(pid):
    r = {}
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) check=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            r[m.group(2)] = m.group(3).strip()
    return r


def cross_check(dump, limit, secs):
    """Re-decides dumped queries with cvc5."""
    fs = sorted(glob.glob(dump + '/*.smt2'), key=lambda f: hashlib.sha256((str(SEED) + f).encode()).hexdigest())[:limit]
    end = time.time() + secs
    agree, other, bad = 0, 0, []

    def one(f):
        if time.time() > end:
            return None
        want = 'unsat' if ':status unsat' in open(f).read(200) else 'sat'
        try:
            o = subprocess.run(['cvc5', '--tlimit=20000', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40).stdout.strip()
        except subprocess.TimeoutExpired:
            return None
        if o not in ('sat', 'unsat'):
            return None
        return o == want, f

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(one, fs):
            if r is None:
                other += 1
            elif r[0]:
                agree += 1
            else:
                bad.append(r[1])
    return agree, other, bad


def main():
    pid = sys.argv[1]
    only = sys.argv[2:] or None
    ll = build()
    built = time.time() - T0
    es = {n: c for n, c in entries().items() if n.startswith(pid.lower() + '_')}
    if only:
        es = {n: c for n, c in es.items() if n in only}
    if not es:
        raise Failed('no entry for %s' % pid)
    kf = known(pid)
    out = os.path.join(B, 'run', pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    end = time.time() + BUDGET
    problems, found, kfound, total, samples = [], [], {}, {}, []
    src, nfuncs, checks, covers, per = set(), 0, {}, set(), []
    validated = abstract = 0
    for e in sorted(es):
        if found and time.time() - T0 > 120:
            break
        left = end - time.time()
        if left < 5:
            problems.append('%s: no time left' % e)
            continue
        d = os.path.join(out, e)
        dump = os.path.join(out, e + '-smt') if THOROUGH else None
        r = symex(ll, e, d, left, kf, dump)
        st = r['stats']
        for k, v in st.items():
            total[k] = max(total.get(k, 0), v) if k.startswith('max') else total.get(k, 0) + v
        src |= r['src']
        nfuncs = max(nfuncs, r['nfuncs'])
        covers |= r['covers']
        for k, v in r['checks'].items():
            c = checks.setdefault(k, [0, 0, 0])
            for i in range(3):
                c[i] += v[i]
        if r['rc'] != 0 or not st:
            problems.append('%s: the executor ended with %s (see %s/log)' % (e, r['rc'], d))
        for x in r['errors'][:3]:
            problems.append('%s: %s\n%s' % (e, x.get('msg'), x.get('bt', '')))
        for k in ('errors', 'unknown', 'abandoned'):
            if st.get(k):
                problems.append('%s: %d %s paths' % (e, st[k], k))
        # translation validation: the compiled program has to agree with every explored path
        ps = [p for p in r['paths'] if not p.get('abs')]
        abstract += len(r['paths']) - len(ps)
        nat = native(e, [p['inputs'] for p in ps], d, 'paths')
        for p, n in zip(ps, nat):
            obs = [(a, int(b)) for a, b in p['obs']]
            if n['exit'] == (0, 0) and n['done'] and n['obs'] == obs and n['reach'] == set(p['covers']):
                validated += 1
            elif n['fail'] and any(v['id'] == n['fail'] for v in r['viols']):
                pass
            else:
                problems.append('%s: compiled program and executor disagree on %s: native %s, executor %s' % (
                    e, json.dumps(p['inputs'])[:600], json.dumps([n['exit'], n['fail'], n['note'], n['obs'][:6], sorted(n['reach'])]),
                    json.dumps([obs[:6], p['covers']])))
        if ps:
            samples.append(dict(entry=e, inputs=[[a, c] for a, _, c in ps[len(ps) // 2]['inputs']][:12], observed=ps[len(ps) // 2]['obs'][:6],
                                reached=ps[len(ps) // 2]['covers']))
        vn = native(e, [v['inputs'] for v in r['viols']], d, 'viols')
        for i, (v, n) in enumerate(zip(r['viols'], vn)):
            ok = (n['fail'] == v['id']) if v['id'] != 'panic' else (n['exit'] is not None and n['exit'][1] != 0)
            if not ok:
                problems.append('%s: counterexample for %s does not reproduce: native %s, inputs %s %s' % (
                    e, v['id'], json.dumps([n['exit'], n['fail'], n['note']]), json.dumps(v['inputs'])[:600], v['where'][:1500]))
                continue
            if v['id'] in kf:
                kfound[v['id']] = v
                continue
            f = os.path.join(out, 'replay-%s-%d.txt' % (e, i))
            open(f, 'w').write(case_text(v['inputs']))
            found.append((e, v, f))
        if not r['viols']:
            miss = [c for c in es[e] if c not in r['covers']]
            if miss:
                problems.append('%s: never reached: %s (the check would be vacuous)' % (e, ', '.join(miss)))
        x = dict(entry=e, paths=r['npaths'], wall_s=round(r['wall'], 1), queries=st.get('queries', 0), steps=st.get('steps', 0))
        if dump:
            a, o, bad = cross_check(dump, 400, 120)
            x.update(cvc5_agrees=a, cvc5_no_answer=o)
            for b in bad:
                problems.append('%s: cvc5 disagrees on %s' % (e, b))
            if not bad:
                shutil.rmtree(dump, ignore_errors=True)
        per.append(x)
        print('%s: %d paths, %d checks decided by solver, %d by path, %d queries, %.1f s' % (
            e, r['npaths'], sum(c[0] for c in r['checks'].values()), sum(c[2] for c in r['checks'].values()), st.get('queries', 0), r['wall']), flush=True)
    for k in kf:
        if k not in kfound and not found and not problems and not only:
            problems.append('known finding %s was not observed any more: remove it from known_findings.txt' % k)
    # source lines of the crate that were executed symbolically
    files = {}
    fns = set()
    for f, l, n in src:
        files.setdefault(f.split('/src/', 1)[1], set()).add(l)
        fns.add(n)
    notes = json.load(open(os.path.join(V, 'bounds.json'))).get(pid, {})
    ev = dict(property=pid, tier='thorough' if THOROUGH else 'quick', seed=SEED, level='model_checking', wall_s=round(time.time() - T0, 1),
              violations=len(found),
              coverage=dict(
                  states=total.get('paths', 0), transitions=total.get('steps', 0), traces_validated_against_impl=validated, samples=samples,
                  exhaustive=not problems and not found,
                  explanation='states: symbolic path classes explored to their end; transitions: LLVM instructions executed symbolically; '
                              'each path class stands for all input values that satisfy its path condition',
                  bounds=notes.get('bounds', ''), outside=notes.get('outside', ''), entries=per,
                  paths_with_abstracted_floats=abstract,
                  checks={k: dict(proved_by_solver=v[0], failed=v[1], decided_by_path=v[2]) for k, v in sorted(checks.items())},
                  queries=total.get('queries', 0), query_cache_hits=total.get('cache_hits', 0), sat=total.get('sat', 0), unsat=total.get('unsat', 0),
                  solver_s=round(total.get('solver_us', 0) / 1e6, 2), longest_query_s=round(total.get('max_query_us', 0) / 1e6, 2),
                  assumed_away=total.get('assumed_away', 0), reached=sorted(covers),
                  functions_encoded=sorted(fns)[:400], llvm_functions_executed=nfuncs,
                  source_lines_encoded={f: len(x) for f, x in sorted(files.items())},
                  build_s=round(built, 1), known_findings=sorted(kfound)),
              assumptions=['rustc/LLVM compile the module and the native program alike', 'the executor models LLVM instructions and the listed libc calls faithfully '
                           '(validated by replaying every path natively)', 'allocation succeeds', 'clock_gettime is the only clock', 'hash map seeds are fixed']
              + notes.get('assumptions', []))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, v in sorted(kfound.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    for e, v, f in found[:8]:
        print('%s fails in %s (%s)\n%s  inputs: %s' % (v['id'], e, v['msg'], v['where'], json.dumps(v['inputs'])[:1500]))
    for x in problems[:10]:
        print('PROBLEM: ' + x)
    if found:
        keep = os.path.join(B, 'replay')
        os.makedirs(keep, exist_ok=True)
        e, v, f = found[0]
        t = os.path.join(keep, '%s-%s.txt' % (pid, e))
        shutil.copy(f, t)
        print('replay with: %s %s %s %s' % (NATIVE, e, t, 1 if THOROUGH else 0))
        print('VIOLATION property=%s replay=%s' % (pid, t))
        return 1
    return 2 if problems else 0


if __name__ == '__main__':
    try:
        if sys.argv[1:] == ['--setup']:
            build()
            sys.exit(0)
        rc = main()
    except Failed as x:
        print('PROBLEM: %s' % x)
        rc = 2
    sys.exit(rc)
