#!/usr/bin/env python3
"""Decides one property: builds the monitors from /repo's working tree, runs them and judges what they observed.

  check.py <property>                    quick or thorough run, by VERIF_TIER (VERIF_SEED seeds every random choice)
  check.py <property> --replay <file>    runs the recorded case of a violation again

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it did not. Exit 2: no answer (the
monitors could not be built or run).
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from tools import rules  # noqa: E402

REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(VERIF, 'target')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
SHARDS = min(8, os.cpu_count() or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
START = time.time()

FEATURES = {
    'default': [],
    'sync': ['sync'],
    'logging': ['logging'],
    'icu_extended': ['icu_extended'],
    'all': ['sync', 'logging', 'icu_extended'],
}


class NoAnswer(Exception):
    pass


def environment(**extra):
    env = dict(os.environ)
    env.setdefault('HOME', '/root')
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    for name in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN',
                 'CARGO_INCREMENTAL', 'CARGO_PROFILE_DEV_DEBUG', 'MIRIFLAGS'):
        env.pop(name, None)
    env.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0', VERIF_SEED=str(SEED),
               VERIF_TIER=TIER)
    env.update(extra)
    return env


def forget(target):
    """Cargo judges staleness by modification times; the crates of /repo are always compiled again."""
    for root, dirs, _ in os.walk(target):
        if os.path.basename(root) == '.fingerprint':
            for d in dirs:
                if d.startswith('i18n') or d.startswith('monitor') or d.startswith('registry'):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            dirs[:] = []


def cargo(args, cwd, env, what, timeout=800):
    """One retry: the cargo home is shared, and a lock or a crowded machine must not decide anything."""
    for _ in (1, 2):
        p = subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        if p.returncode == 0:
            return p.stdout
    print(p.stdout[-6000:])
    raise NoAnswer(f'{what} could not be built')


def build(variant):
    target = os.path.join(TARGET, variant)
    forget(target)
    args = ['cargo', 'build', '--offline', '--quiet']
    if FEATURES[variant]:
        args += ['--features', ','.join(FEATURES[variant])]
    cargo(args, HARNESS, environment(CARGO_TARGET_DIR=target), f'the monitor with features {variant}')
    return os.path.join(target, 'debug', 'monitor')


def build_all(variants):
    with ThreadPoolExecutor(2) as pool:
        return dict(zip(variants, pool.map(build, variants)))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def build_tsan():
    """Everything, the standard library included, instrumented by ThreadSanitizer."""
    target = os.path.join(TARGET, 'tsan')
    forget(target)
    args = ['cargo', '+nightly', 'build', '--offline', '--quiet', '-Zbuild-std', '--target', 'x86_64-unknown-linux-gnu',
            '--features', 'tsan']
    cargo(args, HARNESS, environment(CARGO_TARGET_DIR=target, RUSTFLAGS='-Zsanitizer=thread'), 'the monitor with TSan')
    return os.path.join(target, 'x86_64-unknown-linux-gnu', 'debug', 'monitor')


def limits_tsan():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def cpu_of(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            fields = f.read().rsplit(')', 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


def read(path):
    try:
        with open(path, errors='replace') as f:
            return f.read()
    except OSError:
        return ''


def journal(out):
    parts = read(os.path.join(out, 'journal')).split()
    return (parts[0], int(parts[1])) if len(parts) == 2 and parts[1].isdigit() else None


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def watch(p, out, spin_s=45.0, still_s=150.0):
    """Waits for a worker. Returns None when it ended, otherwise what stopped it: no progress on one case while it
    burns processor time (endless loop), or no progress and no processor time at all (deadlock)."""
    last, cpu0, t0 = None, 0.0, time.time()
    while True:
        try:
            p.wait(timeout=0.2)
            return None
        except subprocess.TimeoutExpired:
            pass
        now = journal(out)
        cpu = cpu_of(p.pid)
        if now != last:
            last, cpu0, t0 = now, cpu, time.time()
            continue
        if cpu - cpu0 > spin_s:
            kill(p)
            return f'no end after {cpu - cpu0:.0f} s of processor time'
        if time.time() - t0 > still_s and cpu - cpu0 < 1.0:
            kill(p)
            return f'blocked for {time.time() - t0:.0f} s without using the processor'


def worker(prop, binary, out, shard, shards, only=None, env=None, preexec=limits, spin_s=45.0, still_s=150.0):
    os.makedirs(out, exist_ok=True)
    args = [binary, prop, out, str(shard), str(shards)]
    if only:
        args += [only[0], str(only[1])]
    env = dict(env or environment())
    memory = in_memory()
    if memory:
        env['MONITOR_SCRATCH'] = memory
    try:
        with open(os.path.join(out, 'log'), 'w') as log:
            p = subprocess.Popen(args, stdout=log, stderr=subprocess.STDOUT, env=env, preexec_fn=preexec, cwd=out)
            stopped = watch(p, out, spin_s, still_s)
    finally:
        if memory:
            shutil.rmtree(memory, ignore_errors=True)
    return p.returncode, stopped


def in_memory():
    """A directory in memory for the repositories, where the order of a directory's entries is that of their creation (and so
    differs from case to case), unlike on a disk. None where there is no room."""
    try:
        if shutil.disk_usage('/dev/shm').free > 256 << 20:
            return tempfile.mkdtemp(prefix='monitor-', dir='/dev/shm')
    except OSError:
        pass
    return None


def outcome(code, stopped, out):
    """(result or None, description of an abnormal end or None)"""
    if stopped:
        return None, stopped
    path = os.path.join(out, 'result.json')
    if code == 0 and os.path.exists(path):
        return json.load(open(path)), None
    tail = read(os.path.join(out, 'log'))[-1500:]
    if code is not None and code < 0:
        try:
            name = signal.Signals(-code).name
        except ValueError:
            name = str(-code)
        return None, f'the process died with {name}: {tail}'
    return None, f'the process ended with {code}: {tail}'


class Run:
    """Workers of one property, their merged coverage and what they found."""

    def __init__(self, prop, scratch):
        self.prop, self.scratch = prop, scratch
        self.evaluations, self.counters, self.samples, self.distinct = 0, {}, [], set()
        self.violations, self.truncated, self.builds, self.broken = [], False, [], None
        self.lock = threading.Lock()

    def merge(self, variant, result, out):
        with self.lock:
            self.evaluations += result['evaluations']
            self.truncated |= result['truncated']
            if result['broken']:
                self.broken = result['broken']
            for k, v in result['counters'].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for s in result['samples']:
                if len(self.samples) < 8:
                    self.samples.append(f'[{variant}] {s}')
            data = open(os.path.join(out, 'distinct.bin'), 'rb').read()
            self.distinct.update(data[i:i + 8] for i in range(0, len(data), 8))
            for v in result['violations']:
                self.violations.append(dict(v, variant=variant))

    def shard(self, variant, binary, shard, shards, trust_first=False, **kw):
        out = os.path.join(self.scratch, f'{variant}-{shard}')
        code, stopped = worker(self.prop, binary, out, shard, shards, **kw)
        result, died = outcome(code, stopped, out)
        if result:
            self.merge(variant, result, out)
        else:
            # Only an abnormal end that the same case brings about again, on its own, counts.
            case = journal(out)
            if 'FATAL: ThreadSanitizer' in died:
                raise NoAnswer(f'{variant}: {died}')
            if case is None:
                self.before_first(variant, binary, shard, shards, code, died, **kw)
                return
            confirmed = None
            for attempt in range(3):
                again = os.path.join(self.scratch, f'{variant}-{shard}-again{attempt}')
                code, stopped = worker(self.prop, binary, again, 0, 1, only=case, **kw)
                result, died_again = outcome(code, stopped, again)
                if died_again:
                    confirmed = died_again
                    break
                if result and result['violations']:
                    self.merge(variant, result, again)
                    confirmed = ''
                    break
            if confirmed is None and not trust_first:
                raise NoAnswer(f'a worker of {variant} ended abnormally in case {case}, not reproducible: {died}')
            if confirmed != '':
                with self.lock:
                    self.violations.append({'phase': case[0], 'index': case[1], 'variant': variant,
                                            'detail': confirmed or died})
        shutil.rmtree(out, ignore_errors=True)

    def before_first(self, variant, binary, shard, shards, code, died, **kw):
        """What the workload needs before its first case ends the process, again and again."""
        again = os.path.join(self.scratch, f'{variant}-{shard}-again')
        code_again, stopped = worker(self.prop, binary, again, shard, shards, **kw)
        crash = (101, -signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL)
        if stopped or code != code_again or code not in crash or journal(again) is not None:
            raise NoAnswer(f'a worker of {variant} ended before its first case: {died}')
        with self.lock:
            self.violations.append({'phase': 'setup', 'index': 0, 'variant': variant, 'detail': died})

    def everything(self, binaries, shards=SHARDS, **kw):
        for variant, binary in binaries.items():
            self.builds.append(variant)
            with ThreadPoolExecutor(shards) as pool:
                list(pool.map(lambda s: self.shard(variant, binary, s, shards, **kw), range(shards)))


def known_findings(prop):
    """Lines 'known: property=<id> case=<regular expression over the detail> <what fails>'."""
    found = []
    for line in read(KNOWN).splitlines():
        m = re.match(r'known: property=(\S+) case=/(.*)/ (.*)$', line)
        if m and m.group(1) == prop:
            found.append((re.compile(m.group(2)), m.group(3)))
    return found


def finish(run, prop, extra=None, assumptions=None):
    known = known_findings(prop)
    left, seen = [], {}
    for v in run.violations:
        for pattern, what in known:
            if pattern.search(v['detail']):
                seen[what] = seen.get(what, 0) + 1
                break
        else:
            left.append(v)
    for _, what in known:
        print(f'KNOWN-FINDING: property={prop} {what}')
    rule = rules.RULES[prop]
    missing = [c for c in rule.get('must_observe', []) if not run.counters.get(c)]
    coverage = {
        'evaluations': run.evaluations,
        'distinct_nontrivial': len(run.distinct),
        'rule': rule['rule'],
        'samples': run.samples or ['none'],
        'observed': run.counters,
        'builds': run.builds,
        'truncated_by_time': run.truncated,
    }
    coverage.update(extra or {})
    evidence = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': rule.get('level', 'exploration'), 'coverage': coverage,
        'assumptions': rules.ASSUMPTIONS + rule.get('assumptions', []) + (assumptions or []),
        'wall_s': round(time.time() - START, 1), 'violations': len(left),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write('\n')
    print(f'{prop} {TIER}: {run.evaluations} evaluations, {len(run.distinct)} distinct, builds {run.builds}, '
          f'{evidence["wall_s"]} s')
    if left:
        replay_dir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        for n, v in enumerate(left[:5]):
            path = os.path.join(replay_dir, f'{prop}-{n}.json')
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop, tier=TIER, seed=SEED), f, indent=1)
            print(f'  [{v["variant"]}] {v["phase"]} {v["index"]}: {v["detail"][:1200]}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if run.broken:
        raise NoAnswer(f'a monitor could not work: {run.broken}')
    if missing:
        raise NoAnswer(f'the monitors never observed {missing}')
    return 0


def replay(prop, path):
    global SEED, TIER
    v = json.load(open(path))
    SEED, TIER = v['seed'], v['tier']
    scratch = tempfile.mkdtemp(prefix='monitor-', dir=scratch_root())
    try:
        if v['variant'] not in FEATURES:
            print('this violation belongs to a run as a whole: run the check again')
            return 2
        if prop == 'C18':
            from tools import special
            if special.replay_features(sys.modules[__name__], v, scratch):
                print(f'VIOLATION property={prop} replay={path}')
                return 1
            return 0
        binary = build(v['variant'])
        out = os.path.join(scratch, 'replay')
        code, stopped = worker(prop, binary, out, 0, 1, only=(v['phase'], v['index']))
        print(read(os.path.join(out, 'log')))
        result, died = outcome(code, stopped, out)
        if died or result['violations']:
            print(died or result['violations'])
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def scratch_root():
    root = os.path.join(VERIF, 'scratch')
    os.makedirs(root, exist_ok=True)
    return root


def main():
    prop = sys.argv[1]
    if prop not in rules.RULES:
        print(f'unknown property {prop}')
        return 2
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            return replay(prop, sys.argv[3])
        scratch = tempfile.mkdtemp(prefix='monitor-', dir=scratch_root())
        try:
            run = Run(prop, scratch)
            special = rules.RULES[prop].get('special')
            if special:
                from tools import special as module
                return getattr(module, special)(sys.modules[__name__], run)
            run.everything(build_all(rules.RULES[prop].get('variants', ['default', 'sync'])))
            return finish(run, prop)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    except NoAnswer as error:
        print(f'no answer: {error}')
        return 2
    except Exception as error:  # whatever goes wrong here decides nothing
        traceback.print_exc(file=sys.stdout)
        print(f'no answer: {error!r}')
        return 2


if __name__ == '__main__':
    sys.exit(main())
