#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough]

Selects the property's harnesses (lib/plan.py), has Kani/CBMC decide them over /repo's current
source, replays counterexamples natively against the real build, writes evidence/PROPERTY.json.
Exit 0: held on everything explored. 1: VIOLATION printed. Anything else: error of the check."""
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import plan, models

T0 = time.time()
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
QUICK = TIER == 'quick'
MAIN_DEADLINE = 620 if QUICK else 5400      # seconds from start
ALL_DEADLINE = 860 if QUICK else 7200
HARNESS_TIMEOUT = 400 if QUICK else 1800
MEMORY = 10 << 30                          # address space of one process
B = os.path.join(HERE, '.build', PROP + ('' if QUICK else '-thorough'))
EV = os.path.join(HERE, 'evidence')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUSTC_WRAPPER='')
for v in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS'):
    ENV.pop(v, None)
NATIVE = dict(ENV, RUSTUP_TOOLCHAIN='stable')
CRATES = {'real': os.path.join(HERE, 'kani'),
          'model': os.path.join(B, 'mc', 'kani'), 'array': os.path.join(B, 'mc', 'kani-array'),
          'stack': os.path.join(B, 'mc-small', 'kani'), 'starr': os.path.join(B, 'mc-small', 'kani-array'),
          'pat': os.path.join(B, 'mc-pat', 'kani')}
# comparisons of 32 bytes (the byte set) in harnesses whose own loops are shorter
CBMC = {'stack': ['--cbmc-args', '--unwindset', 'memcmp.0:34'], 'pat': ['--cbmc-args', '--unwindset', 'memcmp.0:34']}
FLAGS = ['--output-format', 'terse', '--no-memory-safety-checks', '--no-assertion-reach-checks', '-Z', 'unstable-options']


def say(*a):
    print(f'[{time.time() - T0:6.1f}]', *a, flush=True)


def left():
    return ALL_DEADLINE - (time.time() - T0)


def die(code, *a):
    say(*a)
    sys.exit(code)


def sh(cmd, timeout, **kw):
    """Runs a command in its own process group; (exit code or None on timeout, output)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True, text=True, errors='replace', **kw)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


# ---------------------------------------------------------------- native side

REPLAY = {}


def build_replay(profiles):
    for prof in profiles:
        if prof in REPLAY:
            continue
        t = os.path.join(B, 'replay')
        rc, out = sh(['cargo', 'build', '--offline', '-q', '--target-dir', t] + (['--release'] if prof == 'release' else []), 500,
                     cwd=os.path.join(HERE, 'replay'), env=NATIVE)
        if rc != 0:
            print(out[-6000:])
            return
        REPLAY[prof] = os.path.join(t, 'debug' if prof == 'dev' else 'release', 'replay')


def replay(path):
    """What the counterexample does on the real build: profile -> message."""
    got = {}
    for prof, exe in REPLAY.items():
        rc, out = sh([exe, '--replay', path], 30, env=NATIVE)
        last = [l for l in out.splitlines() if 'REPRODUCED' in l]
        if rc is None:
            got[prof] = 'REPRODUCED: does not terminate (30 s)'
        elif rc == 3:
            got[prof] = last[-1] if last else 'REPRODUCED'
        elif rc != 0 and rc != 4:
            got[prof] = f'REPRODUCED: abnormal end ({rc})'
    return got


# ---------------------------------------------------------------- solver side

class Run:
    """One cargo-kani invocation over some harnesses of one crate."""

    def __init__(self, crate, names, tag, extra=(), jobs=JOBS, timeout=HARNESS_TIMEOUT):
        self.crate, self.names, self.tag = crate, names, tag
        self.dir = os.path.join(B, tag)
        os.makedirs(self.dir, exist_ok=True)
        self.json, self.log = os.path.join(self.dir, 'out.json'), os.path.join(self.dir, 'out.txt')
        for f in (self.json, self.log):
            if os.path.exists(f):
                os.remove(f)
        cmd = ['cargo', 'kani', '--exact'] + FLAGS + ['--target-dir', os.path.join(self.dir, 't'), '--harness-timeout', f'{int(timeout)}s']
        for n in names:
            cmd += ['--harness', n + '::check']
        if jobs:
            cmd += ['-j', str(jobs), '--export-json', self.json]
        cmd += list(extra) + CBMC.get(crate, [])
        self.f = open(self.log, 'w')
        self.p = subprocess.Popen(cmd, cwd=CRATES[crate], env=ENV, stdout=self.f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True,
                                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY)))

    def text(self):
        return open(self.log, errors='replace').read()

    def done(self):
        return self.p.poll() is not None

    def kill(self):
        if not self.done():
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()

    def results(self):
        """harness -> {status ok|fail|unwind|timeout|vacuous|error, time, failed}"""
        cur, res, name, rec = {}, {}, None, None
        for l in self.text().splitlines():
            m = re.match(r'Thread (\d+): Checking harness (\S+?)(?:::check)?\.\.\.', l)
            if m:
                cur[m[1]] = m[2]
                continue
            m = re.match(r'Checking harness (\S+?)(?:::check)?\.\.\.', l)  # one job: no thread numbers
            if m:
                rec = res[m[1]] = {'failed': [], 'cover': None, 'status': 'error', 'time': 0.0}
                continue
            m = re.match(r'Thread (\d+):\s*$', l)
            if m:
                name, rec = cur.get(m[1]), {'failed': [], 'cover': None, 'status': 'error', 'time': 0.0}
                if name:
                    res[name] = rec
                continue
            if rec is None:
                continue
            if l.startswith('Failed Checks:'):
                rec['failed'].append(l[14:].strip())
            m = re.match(r'\s*\*\* (\d+) of (\d+) cover properties satisfied', l)
            if m:
                rec['cover'] = (int(m[1]), int(m[2]))
            if 'CBMC timed out' in l:
                rec['status'] = 'timeout'
            if 'run out of memory' in l:
                rec['status'] = 'memory'
            if 'VERIFICATION:-' in l:
                if 'SUCCESSFUL' in l:
                    rec['status'] = 'ok' if rec['cover'] and rec['cover'][0] == rec['cover'][1] else 'vacuous'
                elif rec['failed'] and all('unwinding assertion' in f or 'recursion unwinding' in f for f in rec['failed']):
                    rec['status'] = 'unwind'
                elif rec['failed']:
                    rec['status'] = 'unsupported' if all('not currently supported by Kani' in f for f in rec['failed']) else 'fail'
            m = re.match(r'Verification Time: ([\d.]+)', l)
            if m:
                rec['time'] = float(m[1])
        return res


def wait(runs, deadline, stop_on_fail=True):
    first = None
    while True:
        alive = [r for r in runs if not r.done()]
        if not alive:
            return
        now = time.time() - T0
        if stop_on_fail and first is None and any(x['status'] == 'fail' for r in runs for x in r.results().values()):
            first = now
        if now > deadline or (first is not None and now > first + 25):
            for r in alive:
                r.kill()
            return
        time.sleep(1)


def playback(crate, name, tag, extra=(), timeout=250):
    """Reruns a failing harness for concrete values: list of value lists, one per failing check."""
    r = Run(crate, [name], tag, ['-Z', 'concrete-playback', '--concrete-playback=print'] + list(extra), jobs=0, timeout=timeout)
    return r


def values(text):
    out = []
    for blk in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', text, re.S):
        vals = [bytes(int(x) for x in v.split(',') if x.strip()).hex() for v in re.findall(r'^\s*vec!\[([^\]]*)\]', blk, re.M)]
        if vals not in out:
            out.append(vals)
    return out


def main():
    if PROP not in plan.PLAN:
        die(2, 'unknown property')
    shutil.rmtree(B, ignore_errors=True)
    os.makedirs(B)
    os.makedirs(EV, exist_ok=True)
    evf = os.path.join(EV, PROP + '.json')
    if os.path.exists(evf):
        os.remove(evf)
    git0 = subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout

    th = threading.Thread(target=build_replay, args=[['dev']])
    th.start()
    note = models.generate(HERE, B)
    th.join()
    if not REPLAY:
        die(2, 'the native replayer does not build against /repo')
    say('native replayer built')
    rc, out = sh([REPLAY['dev'], '--list'], 30)
    every = out.split()
    todo = plan.select(PROP, QUICK, every)
    if not todo:
        die(2, 'no harness selected')
    say(f'{PROP} {TIER}:', ', '.join(f'{len(v)} harnesses in crate {k}' for k, v in todo.items()))

    # 1. let the solver decide every harness
    runs, undecided = [], {}
    total = sum(plan.cost(v) for v in todo.values())
    for c, v in todo.items():
        runs.append(Run(c, v, 'k-' + c, jobs=JOBS if len(todo) == 1 else max(1, min(JOBS, round(JOBS * plan.cost(v) / total)))))
    wait(runs, MAIN_DEADLINE)
    # a crate that Kani cannot compile as a whole: group by group
    apart = []
    for r in runs:
        if r.done() and not r.results():
            say('no results from crate', r.crate, '- trying its modules separately')
            print(r.text()[-3000:])
            groups = {}
            for n in r.names:
                groups.setdefault('::'.join(n.split('::')[:2]), []).append(n)
            apart += [(r.crate, g, v) for g, v in groups.items()]
    more_runs = []
    for i in range(0, len(apart), JOBS):
        now = [Run(c, v, 'k-' + c + '-' + g.replace('::', '-'), jobs=1) for c, g, v in apart[i:i + JOBS]]
        wait(now, MAIN_DEADLINE)
        more_runs += now
    for r in more_runs:
        if r.done() and not r.results():
            note.append('not encoded on this tree (Kani could not compile it): ' + r.tag)
            undecided.update({n: 'not encoded' for n in r.names})
    res, js = {}, []
    for r in runs + more_runs:
        res.update({(r.crate, n): x for n, x in r.results().items()})
        try:
            js.append(json.load(open(r.json)))
        except Exception:
            pass
    failing = [k for k, x in res.items() if x['status'] == 'fail']
    say(f"decided {sum(x['status'] == 'ok' for x in res.values())}, failing {len(failing)}")

    # 2. loops that outgrew their bound: once more with a large one
    more = [k for k, x in res.items() if x['status'] == 'unwind']
    rerun_extra = {}
    if more and not failing:
        say('unwinding bound exceeded in', len(more), 'harnesses: retrying with 270')
        more = more[:24]
        rr = [Run(c, [n for d, n in more if d == c], 'u-' + c, ['--unwind', '270'], timeout=200) for c in sorted({c for c, _ in more})]
        wait(rr, min(ALL_DEADLINE - 130, time.time() - T0 + 300))
        for r in rr:
            for n, x in r.results().items():
                if x['status'] != 'timeout':
                    x['failed'] = x['failed'] or res[(r.crate, n)]['failed']
                    res[(r.crate, n)] = x
                    rerun_extra[(r.crate, n)] = ['--unwind', '270']
            try:
                js.append(json.load(open(r.json)))
            except Exception:
                pass
        failing = [k for k, x in res.items() if x['status'] == 'fail']

    # 3. counterexamples: concrete values, replayed on the real build
    violations, unreproduced, tried = [], [], set()
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']

    def chase(suspects):
        suspects.sort(key=lambda k: res[k]['time'])
        if suspects:
            build_replay(['dev', 'release'])
        while suspects and not violations and left() > 20:
            batch, suspects = suspects[:4], suspects[4:]
            tried.update(batch)
            pr = [(k, playback(k[0], k[1], f'p{i}', rerun_extra.get(k, []), timeout=min(250, left()))) for i, k in enumerate(batch)]
            wait([r for _, r in pr], ALL_DEADLINE - 20, stop_on_fail=False)
            for k, r in pr:
                vs = values(r.text())
                hit = False
                for i, v in enumerate(vs):
                    path = os.path.join(EV, 'replay', f'{PROP}-{k[1].replace("::", ".")}-{i}.txt')
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with open(path, 'w') as f:
                        f.write(f'# counterexample for {PROP}; re-execute with: replay --replay THIS_FILE\n')
                        for m in res[k]['failed']:
                            f.write('# ' + m + '\n')
                        f.write('harness ' + k[1] + '\n')
                        for x in v:
                            f.write('value ' + x + '\n')
                    got = replay(path)
                    if got:
                        with open(path, 'a') as f:
                            for p, m in got.items():
                                f.write(f'# {p}: {m}\n')
                        say(k[1], got)
                        violations.append((k[1], path, got))
                        hit = True
                        break
                if not hit:
                    unreproduced.append((k[1], len(vs), res[k]['failed']))
                    say('not reproduced:', k[1], len(vs), 'value sets', res[k]['failed'][:3], r.text()[-300:] if not vs else '')
                shutil.rmtree(r.dir, ignore_errors=True)

    chase(failing or [k for k, x in res.items() if x['status'] == 'unwind'])
    # nothing confirmed: go on with the harnesses that were cut off by the first counterexample
    again = set()
    while tried and not violations and left() > 180:
        rest = {c: [n for n in v if n not in undecided and (c, n) not in again and ((c, n) not in res or res[(c, n)]['status'] == 'error')]
                for c, v in todo.items()}
        again.update((c, n) for c, v in rest.items() for n in v if (c, n) in res)
        rest = {c: v for c, v in rest.items() if v}
        if not rest:
            break
        say('going on with', sum(map(len, rest.values())), 'harnesses')
        total = sum(plan.cost(v) for v in rest.values())
        rr = [Run(c, v, 'k-' + c, jobs=max(1, min(JOBS, round(JOBS * plan.cost(v) / total)))) for c, v in rest.items()]
        wait(rr, ALL_DEADLINE - 130)
        got = {(r.crate, n): x for r in rr for n, x in r.results().items()}
        if not got:
            break
        res.update(got)
        for r in rr:
            try:
                js.append(json.load(open(r.json)))
            except Exception:
                pass
        chase([k for k, x in got.items() if x['status'] == 'fail'])

    # 4. report
    for c, v in todo.items():
        for n in v:
            if n in undecided:
                continue
            x = res.get((c, n))
            if x is None:
                undecided[n] = 'no answer within the time limit'
            elif any(u[0] == n for u in unreproduced):
                undecided[n] = 'the counterexample of the encoding is not one of the real code'
            elif x['status'] not in ('ok', 'fail'):
                undecided[n] = x['status']
            elif x['status'] == 'fail' and not violations:
                undecided[n] = 'counterexample not replayed within the time limit'
    listed, fresh = [], []
    for h, p, got in violations:
        f = next((f for f in known if f['property'] == PROP and f['harness'] == h and f['message'] in ' '.join(got.values())), None)
        (listed if f else fresh).append((h, p, got, f))
    ok = sorted(n for (c, n), x in res.items() if x['status'] == 'ok')
    write_evidence(evf, todo, res, js, ok, undecided, note, fresh, unreproduced)
    git1 = subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout
    for n, w in sorted(undecided.items()):
        say('UNDECIDED', n, '-', w)
    keep_small()
    if git0 != git1:
        die(2, 'the working tree of /repo changed during the check')
    for h, p, got, f in listed:
        print(f'KNOWN-FINDING: property={PROP} {f["what"]}')
    if fresh:
        for h, p, got, _ in fresh[:1]:
            print(f'VIOLATION property={PROP} replay={p}', flush=True)
        sys.exit(1)
    if len(ok) * 4 < sum(map(len, todo.values())):
        die(3, 'most harnesses were not decided')
    say(f'held: {len(ok)} harnesses decided, {len(undecided)} undecided')
    sys.exit(0)


def keep_small():
    if not os.environ.get('VERIF_KEEP'):
        for d in os.listdir(B):
            p = os.path.join(B, d)
            if d.startswith(('k-', 'u-')):
                shutil.rmtree(os.path.join(p, 't'), ignore_errors=True)


def write_evidence(evf, todo, res, js, ok, undecided, note, fresh, unrep):
    funcs, queries, discharged, vccs, solver, symex, clauses = set(), 0, 0, 0, 0.0, 0.0, 0
    for j in js:
        for r in j['verification_results']['results']:
            for c in r.get('checks', []):
                if c.get('category') == 'cover':
                    continue
                queries += 1
                discharged += c['status'] == 'Success'
                f = (c.get('location') or {}).get('file', '')
                if '/repo/src/' in f or '/veb-tree/src/' in f:
                    funcs.add(re.sub(r'^<?', '', c.get('function') or '?')[:160] + ' @ ' + f.split('/src/')[-1])
        for r in j.get('cbmc', []):
            s = r.get('cbmc_stats') or {}
            vccs += int(s.get('vccs_generated') or 0)
            solver += float(s.get('runtime_decision_procedure_s') or 0)
            symex += float(s.get('runtime_symex_s') or 0)
    p = plan.PLAN[PROP]
    cov = {
        'explanation': 'Bounded model checking of the compiled Rust: every harness below was translated by Kani from '
                       "/repo's current source (MIR) and decided by CBMC/CaDiCaL for all values of its symbolic inputs, "
                       'with unwinding assertions on; each harness also has a cover statement at its end which the solver '
                       'had to satisfy, so none is vacuous. ' + p['explain'],
        'bounds': p['bounds'],
        'harnesses_decided': len(ok),
        'harnesses': {n: round(res[k]['time'], 1) for k in sorted(res) for n in [k[1]] if res[k]['status'] == 'ok'},
        'undecided': undecided,
        'queries_discharged': discharged,
        'queries': queries,
        'verification_conditions': vccs,
        'solver_s': round(solver, 1),
        'symbolic_execution_s': round(symex, 1),
        'functions_encoded': sorted(funcs),
        'counterexamples': [{'harness': h, 'replay': q, 'native': g} for h, q, g, _ in fresh],
        'unreproduced': [str(u) for u in unrep],
        'notes': note,
    }
    json.dump({'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'other', 'coverage': cov,
               'assumptions': plan.ASSUME + p['assume'], 'wall_s': round(time.time() - T0, 1), 'violations': len(fresh)},
              open(evf, 'w'), indent=1)


try:
    main()
except SystemExit:
    raise
except BaseException as e:  # noqa: an error of the check is never a verdict
    import traceback
    traceback.print_exc()
    sys.exit(2)
