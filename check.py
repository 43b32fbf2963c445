#!/usr/bin/env python3
"""Decide one property of murarth/mortal by symbolic execution of the real code.

  check.py PROPERTY [--tier quick|thorough]      decide the property
  check.py --replay FILE                         replay one recorded violation natively
  check.py --build                               build everything (setup)

Exit 0: held on everything explored; 1: violated (line "VIOLATION property=<id> replay=<path>");
2: the check could not decide (error of the machinery).
"""
import collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import plan

W = os.path.join(V, 'work')
HAR = os.path.join(V, 'harness')
SYMRS = os.path.join(V, 'symrs/target/release/symrs')
LL = os.path.join(W, 't/release/deps/mvh.ll')
BIN = {'dev': os.path.join(W, 'n/debug/replay'), 'rel': os.path.join(W, 'n/replayrel/replay')}
REPO = '/repo/'
JOBS = os.environ.get('VERIF_JOBS') or str(max(2, os.cpu_count() or 8))
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)


def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


def run(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        die('building %s failed\n%s' % (what, p.stdout[-6000:]))


def real_libc():
    """The stand-in libc crate re-exports the real one, taken from cargo's offline cache."""
    d = os.path.join(W, 'real_libc')
    if os.path.exists(os.path.join(d, '.ok')):
        return
    home = os.environ.get('CARGO_HOME', os.path.expanduser('~/.cargo'))
    c = sorted(glob.glob(home + '/registry/src/*/libc-0.2.*'), key=lambda p: int(p.rsplit('.', 1)[1]))
    if not c:
        die('no libc crate in the cargo cache')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(c[-1], d)
    open(os.path.join(d, '.ok'), 'w').close()


def parallel(fs):
    out = []
    def go(f):
        try:
            f()
        except SystemExit as e:
            out.append(e)
    ts = [threading.Thread(target=go, args=(f,)) for f in fs]
    for t in ts: t.start()
    for t in ts: t.join()
    if out:
        sys.exit(2)


def build_ir():
    run(['cargo', 'rustc', '--release', '--lib', '--crate-type', 'cdylib', '--target-dir', W + '/t', '--',
         '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], HAR, 'the IR of the harness and /repo')
    try: os.remove(W + '/t/release/libmvh.so')
    except OSError: pass
    if not os.path.exists(LL):
        die('no IR was produced')


def build_native(kind):
    run(['cargo', 'build', '--features', 'native', '--bin', 'replay', '--target-dir', W + '/n'] +
        (['--profile', 'replayrel'] if kind == 'rel' else []), HAR, 'the native replay')


def build(native=('dev',)):
    os.makedirs(W, exist_ok=True)
    with open(W + '/lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        real_libc()
        # cargo must not race to create harness/Cargo.lock
        if not os.path.exists(HAR + '/Cargo.lock'):
            run(['cargo', 'generate-lockfile', '--offline'], HAR, 'the lock file')
        parallel([lambda: run(['cargo', 'build', '--release'], V + '/symrs', 'the symbolic executor'), build_ir]
                 + [lambda k=k: build_native(k) for k in native])


def symexec(entry, term, out, limit, extra):
    shutil.rmtree(out, ignore_errors=True)
    cmd = [SYMRS, '--ll', LL, '--entry', entry, '--out', out, '--env', 'TERM=' + term, '--env', 'TERMINFO=' + HAR + '/terminfo',
           '--jobs', JOBS, '--time-limit', str(int(limit)), '--src-root', REPO, '--samples', '2', '--dump', out + '/smt'] + extra
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit + 600)
    if p.returncode not in (0, 1) or not os.path.exists(out + '/meta.json'):
        return None, p.stdout[-3000:]
    tot, errs, vc, viol, samples, covers = collections.Counter(), collections.Counter(), collections.Counter(), [], [], collections.Counter()
    for f in sorted(glob.glob(out + '/p*.json')):
        j = json.load(open(f))
        for k, v in j.items():
            if isinstance(v, (int, float)):
                tot[k] = max(tot[k], v) if k.startswith('max_') else tot[k] + v
        errs.update(j['errors']); vc.update(j['vcount']); covers.update(j['covers'])
        viol += j['violations']; samples += j['samples']
    return dict(meta=json.load(open(out + '/meta.json')), tot=tot, errors=errs, vcount=vc, viol=viol, samples=samples, covers=covers), p.stdout[-3000:]


def ranges(l):
    out = []
    for n in sorted(l):
        if out and out[-1][1] == n - 1: out[-1][1] = n
        else: out.append([n, n])
    return ' '.join('%d-%d' % (a, b) if b > a else str(a) for a, b in out)


def write_replay(path, entry, term, inputs, head):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write('# entry %s\n# term %s\n' % (entry, term))
        for h in head:
            f.write('# ' + h.replace('\n', ' ') + '\n')
        for n, w, v in inputs:
            f.write('%s %s %s\n' % (n, w, v))


def native(kind, path, entry, term):
    """(outcome, label or trace) of replaying a file against the natively compiled code"""
    env = {'TERM': term, 'TERMINFO': HAR + '/terminfo', 'PATH': '/usr/bin:/bin', 'RUST_BACKTRACE': '0'}
    try:
        p = subprocess.run([BIN[kind], entry, path], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    except subprocess.TimeoutExpired:
        return 'hang', ''
    out = p.stdout.decode('utf8', 'replace')
    if p.returncode == 101:
        m = re.search(r'^NATIVE-VIOLATION (.*)$', out, re.M)
        return 'violation', m.group(1) if m else 'process exited with 101'
    if p.returncode == 0 and 'NATIVE-DONE' in out:
        return 'done', [l[2:] for l in out.splitlines() if l.startswith('T ')]
    if p.returncode < 0:
        return 'crash', 'signal %d' % -p.returncode
    return {90: 'assume', 91: 'diverged', 92: 'exhausted', 93: 'threads'}.get(p.returncode, 'crash'), (out + p.stderr.decode('utf8', 'replace'))[-400:]


def confirm(prop, entry, term, v, n, threaded):
    """Replay a counterexample natively.  -> (status, path, text)"""
    path = '%s/replay/%s/%s-%s-%d.txt' % (W, prop, entry, term, n)
    head = ['property ' + prop, 'label ' + v['label'], 'detail ' + (v['detail'] or '')] + ['at ' + s for s in v['stack'][:6]]
    write_replay(path, entry, term, v['inputs'], head)
    if threaded:
        # schedules are replayed by the executor itself, on the recorded inputs and schedule
        return 'confirmed', path, 'schedule found by the executor (no native replay for threads)'
    for k in ('dev', 'rel'):
        if k == 'rel':
            build_native('rel')
        r, t = native(k, path, entry, term)
        if r in ('violation', 'hang', 'crash'):
            with open(path, 'a') as f: f.write('# native %s: %s %s\n' % (k, r, str(t)[:300].replace('\n', ' ')))
            return 'confirmed', path, '%s build: %s %s' % (k, r, t)
    return 'unconfirmed', path, '%s %s' % (r, t)


def known_findings():
    out = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) entry=(\S+) label="([^"]*)" (.*)', l.strip())
            if m: out.append(m.groups())
    return out


def cross_check(dirs, budget):
    """other solvers on a sample of the very queries Z3 decided"""
    files = []
    for d in dirs:
        files += sorted(glob.glob(d + '/smt/*.smt2'))[:4]
    files = files[:24]
    res = collections.Counter()
    t0 = time.time()
    bad = []
    for f in files:
        if time.time() - t0 > budget: break
        exp = open(f).readline().split()[-1]
        if exp == 'unknown': continue
        for name, cmd in (('cvc5', ['cvc5', '--tlimit=5000', f]), ('z3-new', ['z3-new', '-T:5', f])):
            try:
                o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20).stdout.split()
            except (OSError, subprocess.TimeoutExpired):
                continue
            got = next((x for x in o if x in ('sat', 'unsat')), None)
            if got is None: res[name + ' no answer'] += 1
            elif got == exp: res[name + ' agrees'] += 1
            else: res[name + ' DISAGREES'] += 1; bad.append(f)
    return dict(res), bad


def main():
    a = sys.argv[1:]
    if a and a[0] == '--build':
        build(('dev', 'rel')); return 0
    if a and a[0] == '--replay':
        t = open(a[1]).read()
        e, tm = re.search(r'^# entry (\S+)', t, re.M).group(1), re.search(r'^# term (\S+)', t, re.M).group(1)
        build(('dev', 'rel'))
        for k in ('dev', 'rel'): print(k, *native(k, a[1], e, tm))
        return 0
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = plan.PROPS[prop]
    t0 = time.time()
    build()
    t_build = time.time() - t0
    entries = P['quick'] if tier == 'quick' else P['quick'] + P.get('thorough', [])
    hard = 600 if tier == 'quick' else 4 * 3600
    kf = [k for k in known_findings() if k[0] == prop]
    tot, funcs, lines, per, dirs = collections.Counter(), {}, {}, [], []
    errors, incomplete, violations, found_known, unconfirmed = [], [], [], set(), []
    validated = mismatched = 0
    sample_out = []
    for ent in entries:
        entry, term = ent[:2]
        opt = ent[2] if len(ent) > 2 else {}
        left = hard - (time.time() - t0)
        if left < 5:
            incomplete.append('%s/%s: not started, time budget used up' % (entry, term)); continue
        lim = min(left, 300 if tier == 'quick' else 2400)
        out = '%s/run/%s-%s-%s' % (W, prop, entry, term)
        extra = []
        for k, v in opt.items():
            if k != 'threads': extra += ['--' + k, str(v)]
        r, log = symexec(entry, term, out, lim, extra)
        if r is None:
            errors.append('%s/%s: executor failed: %s' % (entry, term, log)); continue
        dirs.append(out)
        m, c = r['meta'], r['tot']
        tot.update({k: v for k, v in c.items() if not k.startswith('max_')})
        tot['max_query_time'] = max(tot['max_query_time'], c['max_query_time'])
        for f in m.get('src_functions', []): funcs[f] = funcs.get(f, 0) + 1
        for f, ls in m['lines'].items(): lines.setdefault(f, set()).update(ls)
        per.append(dict(entry=entry, term=term, paths=int(c['paths']), assertions=int(c['asserts']), symbolic_assertions=int(c['asserts_sym']),
                        queries=int(c['queries']), unsat=int(c['unsat']), sat=int(c['sat']), unknown=int(c['unknown']), unexplored_branches=int(c['leftover']),
                        solver_s=round(c['solver_time'], 2), wall_s=round(m['wall'], 2), violations=sum(r['vcount'].values())))
        print('%s %s/%s: %d paths, %d assertions (%d symbolic), %d queries, solver %.1fs, wall %.1fs%s' % (
            prop, entry, term, c['paths'], c['asserts'], c['asserts_sym'], c['queries'], c['solver_time'], m['wall'],
            ', INCOMPLETE' if c['leftover'] or m['timeout'] else ''), flush=True)
        if c['leftover'] or m['timeout']: incomplete.append('%s/%s: stopped by the time limit with %d open branches' % (entry, term, c['leftover']))
        if m.get('crashed'): errors.append('%s/%s: %s executor process(es) died' % (entry, term, m['crashed']))
        if c['paths'] == 0 and not r['viol']: errors.append('%s/%s: no path was completed' % (entry, term))
        for e, n in r['errors'].items(): errors.append('%s/%s: %s (x%d)' % (entry, term, e, n))
        # ---- counterexamples: replayed against the real code
        seen = collections.Counter()
        stop = False
        for v in r['viol']:
            if seen[v['label']] >= 3: continue
            if any(k[1] == entry and k[2] == v['label'] for k in kf):
                found_known.add(next(k for k in kf if k[1] == entry and k[2] == v['label'])); continue
            seen[v['label']] += 1
            s, path, text = confirm(prop, entry, term, v, len(violations) + len(unconfirmed), opt.get('threads'))
            if s == 'confirmed': violations.append((path, entry, term, v['label'], text)); stop = True; break
            unconfirmed.append('%s: %s [%s] native: %s' % (path, v['label'], v['detail'], text))
        # ---- the encoding itself: concrete runs of the natively compiled code follow the encoded paths
        if not stop and not opt.get('threads'):
            for i, s in enumerate(r['samples'][:2]):
                path = '%s/sample-%d.txt' % (out, i)
                write_replay(path, entry, term, s['inputs'], ['sample'])
                k, t = native('dev', path, entry, term)
                want = ['%d %d' % (int(x[0]), int(x[1])) for x in s['trace']]
                if k == 'done' and t == want: validated += 1
                else: mismatched += 1; errors.append('%s/%s: native run of a sample path differs: %s %s, encoded %s' % (entry, term, k, str(t)[:300], want[:20]))
            if r['samples'] and len(sample_out) < 6: sample_out.append(dict(entry=entry, inputs=r['samples'][0]['inputs'][:24]))
        if stop and tier == 'quick': break
    cc, bad = cross_check(dirs, 20 if tier == 'quick' else 300)
    if bad: errors.append('solvers disagree on %s' % bad[:3])
    if unconfirmed and not violations: errors += ['counterexample not reproduced natively: ' + u for u in unconfirmed[:5]]
    ev = dict(property=prop, tier=tier, seed=seed, level=plan.LEVEL, wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=plan.ASSUMPTIONS + P.get('assumptions', []),
              coverage=dict(
                  explanation='Symbolic execution of the LLVM IR compiled from /repo and the harness on this run; every branch and assertion over symbolic inputs is decided by Z3 for all values within the bounds. ' + P['bounds'],
                  bounds=P['bounds'], exhaustive=not incomplete and not errors and not violations,
                  entries=per, functions_encoded=sorted(funcs), functions_encoded_count=len(funcs), source_lines_executed={f: len(l) for f, l in lines.items()}, source_lines={f: ranges(l) for f, l in lines.items()},
                  paths=int(tot['paths']), infeasible_or_assumed_away=int(tot['assumed']), branch_splits=int(tot['forks']), ir_instructions=int(tot['insts']),
                  assertions_checked=int(tot['asserts']), assertions_decided_by_solver=int(tot['asserts_sym']), assertions_constant_on_their_path=int(tot['asserts_const']),
                  queries_discharged=int(tot['queries']), query_cache_hits=int(tot['cache_hits']), sat=int(tot['sat']), unsat=int(tot['unsat']), unknown=int(tot['unknown']),
                  solver_time_s=round(tot['solver_time'], 2), max_query_s=round(tot['max_query_time'], 3), build_s=round(t_build, 2),
                  second_solvers=cc, paths_validated_natively=validated, native_mismatches=mismatched, samples=sample_out,
                  incomplete=incomplete, errors=errors[:20], known_findings=[list(k) for k in found_known],
                  counterexamples=[dict(replay=p, entry=e, term=t, label=l, native=x) for p, e, t, l, x in violations],
              ))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for d in dirs: shutil.rmtree(d, ignore_errors=True)
    for k in sorted(found_known): print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    for i in incomplete: print('INCOMPLETE: ' + i)
    if violations:
        for p, e, t, l, x in violations:
            print('%s [%s, TERM=%s] %s' % (l, e, t, x))
            print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)
        return 1
    if errors:
        for e in errors[:10]: print('ERROR: ' + e[:2000])
        return 2
    print('OK %s: %d paths, %d assertions, %d queries, %.1fs' % (prop, tot['paths'], tot['asserts'], tot['queries'], time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
