"""Checks that need more than one build judged case by case."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor

MIRI = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'miri')
SUPPRESSIONS = 'race:libsqlite3.so\nmutex:libsqlite3.so\n'
SCENARIOS = 4


def miri(check, run):
    """Schedules of the registry under Miri: one seed is one schedule."""
    target = os.path.join(check.TARGET, 'miri')
    check.forget(target)
    seeds = 1500 if check.TIER == 'thorough' else 96
    first = (check.SEED - 1) * seeds
    seen = {}
    # The first run prepares the sysroot and compiles; a program that does not compile gives no answer.
    base = ['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet', '--']
    for scenario in range(SCENARIOS):
        for rate, share in (('0.01', 3), ('0.1', 3), ('0.4', 3)):
            n = seeds // share
            env = check.environment(CARGO_TARGET_DIR=target, MIRIFLAGS=f'-Zmiri-preemption-rate={rate} -Zmiri-many-seeds={first}..{first + n}')
            p = subprocess.run(base + [str(scenario)], cwd=MIRI, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=3000)
            orders = re.findall(r'^ORDER (\d+) (\d+)$', p.stdout, re.M)
            with run.lock:
                run.evaluations += len(orders)
                run.counters['miri_schedules'] = run.counters.get('miri_schedules', 0) + len(orders)
                for s, order in orders:
                    seen.setdefault(f'{s}:{order}', 0)
                    seen[f'{s}:{order}'] += 1
            if p.returncode != 0:
                text = p.stderr
                if re.search(r'panicked at|Undefined Behavior|error: .*deadlock|data race|memory leaked|abnormal termination', text):
                    m = re.search(r'(panicked at|error: )', text)
                    at = max(0, m.start() - 100) if m else 0
                    seed = re.findall(r'seed:? (\d+)', text)
                    with run.lock:
                        run.violations.append({'phase': f'miri scenario {scenario}', 'index': first, 'variant': 'miri',
                                               'detail': f'preemption rate {rate}, seeds tried {seed[-8:]}: {text[at:at + 1500]}'})
                    return
                raise check.NoAnswer(f'Miri could not run: {text[-1500:]}')
    with run.lock:
        run.counters['miri_distinct_orders'] = len(seen)
        run.distinct.update(k.encode() for k in seen)
        run.builds.append('miri (utility, sync)')


def threads(check, run):
    with ThreadPoolExecutor(3) as pool:
        sync = pool.submit(check.build, 'sync')
        tsan = pool.submit(check.build_tsan)
        schedules = pool.submit(miri, check, run)
        sync, tsan = sync.result(), tsan.result()
        schedules.result()
    # A violation settles the answer: the builds that follow would only find it again, slowly where threads hang.
    if run.violations:
        return check.finish(run, 'C17')
    run.everything({'sync': sync}, shards=3, trust_first=True, still_s=90.0)
    if run.violations:
        return check.finish(run, 'C17')
    suppressions = os.path.join(run.scratch, 'suppressions')
    with open(suppressions, 'w') as f:
        f.write(SUPPRESSIONS)
    log = os.path.join(run.scratch, 'tsan')
    env = check.environment(TSAN_OPTIONS=f'halt_on_error=0:exitcode=0:report_mutex_bugs=0:log_path={log}:suppressions={suppressions}')
    run.everything({'tsan': tsan}, shards=3, env=env, preexec=check.limits_tsan, spin_s=180.0, still_s=90.0, trust_first=True)
    for name in sorted(os.listdir(run.scratch)):
        if not name.startswith('tsan.'):
            continue
        for report in check.read(os.path.join(run.scratch, name)).split('==================\n'):
            if 'WARNING: ThreadSanitizer' in report:
                # SQLite is not instrumented: only reports with code of the repository among the accesses count.
                kind = 'tsan_reports' if '/repo/crates/' in report else 'tsan_reports_elsewhere'
                run.counters[kind] = run.counters.get(kind, 0) + 1
                if kind == 'tsan_reports' and run.counters[kind] <= 3:
                    run.violations.append({'phase': 'tsan', 'index': 0, 'variant': 'tsan report', 'detail': report[:3000]})
    return check.finish(run, 'C17')


def transcript(check, binary, out, shard, shards, only=None):
    code, stopped = check.worker('C18', binary, out, shard, shards, only=only)
    result, died = check.outcome(code, stopped, out)
    return result, died, check.read(os.path.join(out, 'transcript')).split('\n')[:-1]


def by_case(lines):
    cases = {}
    for line in lines:
        phase, index, rest = line.split(' ', 2)
        cases.setdefault((phase, int(index)), []).append(rest)
    return cases


def difference(a, b):
    """The first line in which the transcripts of one case differ."""
    for n in range(max(len(a), len(b))):
        x = a[n] if n < len(a) else '(nothing more)'
        y = b[n] if n < len(b) else '(nothing more)'
        if x != y:
            return x, y
    return None


def features(check, run):
    binaries = check.build_all(list(check.FEATURES))
    shards = check.SHARDS

    def one(shard):
        reference = None
        for variant, binary in binaries.items():
            out = os.path.join(run.scratch, f'{variant}-{shard}')
            result, died, lines = transcript(check, binary, out, shard, shards)
            if died:
                case = check.journal(out)
                if variant == 'default' or case is None:
                    raise check.NoAnswer(f'the {variant} build: {died}')
                again = os.path.join(run.scratch, f'{variant}-{shard}-again')
                _, died_again, _ = transcript(check, binary, again, 0, 1, case)
                if not died_again:
                    raise check.NoAnswer(f'the {variant} build: {died}, not reproducible')
                with run.lock:
                    run.violations.append({'phase': case[0], 'index': case[1], 'variant': variant,
                                           'detail': f'only the build with {variant}: {died_again}'})
                continue
            if result['truncated']:
                raise check.NoAnswer(f'the {variant} build ran out of time')
            run.merge(variant, result, out)
            if reference is None:
                reference = by_case(lines)
                with run.lock:
                    run.counters['transcript_lines'] = run.counters.get('transcript_lines', 0) + len(lines)
                    for line in lines[:: max(1, len(lines) // 2)]:
                        if shard == 0:
                            run.samples.append(line)
                continue
            with run.lock:
                run.counters['lines_compared'] = run.counters.get('lines_compared', 0) + len(lines)
            mine = by_case(lines)
            cases = [c for c in reference if reference[c] != mine.get(c)] + [c for c in mine if c not in reference]
            for case in cases[:6]:
                confirm(check, run, binaries, variant, case)

    from concurrent.futures import ThreadPoolExecutor as Pool
    with Pool(shards) as pool:
        list(pool.map(one, range(shards)))
    run.builds = list(binaries)
    return check.finish(run, 'C18')


def confirm(check, run, binaries, variant, case):
    """The same case alone, several times in each build: a difference counts when no run of one build gives what a run
    of the other gives (a result that depends on chance within one build is no difference between builds)."""
    texts = {}
    for v in ('default', variant):
        texts[v] = []
        for round in range(4):
            out = os.path.join(run.scratch, f'confirm-{v}-{variant}-{case[0]}-{case[1]}-{round}')
            _, died, lines = transcript(check, binaries[v], out, 0, 1, case)
            texts[v].append((died is None, by_case(lines).get(case, [])))
    if any(a != texts[v][0] for v in texts for a in texts[v]) or texts['default'][0] == texts[variant][0]:
        with run.lock:
            run.counters['cases_depending_on_chance'] = run.counters.get('cases_depending_on_chance', 0) + 1
        return
    x, y = difference(texts['default'][0][1], texts[variant][0][1]) or ('ends', 'dies')
    with run.lock:
        run.violations.append({'phase': case[0], 'index': case[1], 'variant': variant,
                               'detail': f'default features: {x} / {variant}: {y}'})


def replay_features(check, v, scratch):
    binaries = check.build_all(['default', v['variant']])
    lines = {}
    for name, binary in binaries.items():
        _, died, lines[name] = transcript(check, binary, os.path.join(scratch, name), 0, 1, (v['phase'], v['index']))
        print(name, died or '')
    found = difference(lines['default'], lines[v['variant']])
    print(found)
    return found is not None
