"""Building the harness, running it and TLC, and judging traces."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla'
CPUS = min(8, os.cpu_count() or 2)


# properties about concurrent calls: (some) executions are watched by the race detector
RACE = {'C10', 'C14', 'C25'}


class CheckError(Exception):
    """The check itself could not decide."""


def go_env(extra=None):
    env = dict(os.environ)
    env.update(HOME=env.get('HOME', '/root'), GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
    if os.path.isdir('/opt/veriftools/go1.27.3/bin'):
        env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env.get('PATH', '')
    env.setdefault('GOPATH', '/root/go')
    env.setdefault('GOMODCACHE', '/root/go/pkg/mod')
    env.setdefault('GOCACHE', '/root/.cache/go-build')
    for k in ('VERBOSE_LEVEL',):
        env.pop(k, None)
    env.update(extra or {})
    return env


class Run:
    """One run of a check: scratch directory, counters, deadline."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.states = self.transitions = 0          # of TLC, all runs
        self.model_states = self.model_transitions = 0
        self.accepted = 0
        self.undecided = 0
        self.steps = 0
        self.ops = {}
        self.samples = []
        self.notes = {}
        self.known = []
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(CPUS)
        self.n = 0

    def close(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)

    def sub(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, '%03d-%s' % (self.n, name))
        os.makedirs(d)
        return d

    def build(self):
        src = os.path.join(self.dir, 'harness')
        shutil.copytree(os.path.join(VERIF, 'harness'), src)
        mod = os.path.join(src, 'go.mod')
        s = open(mod).read().replace('=> /repo', '=> ' + REPO)
        open(mod, 'w').write(s)
        self.bin = os.path.join(self.dir, 'h')
        r = subprocess.run(['go', 'build', '-tags', 'verif', '-o', self.bin, '.'], cwd=src, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise CheckError('the harness does not build:\n' + r.stdout.decode('utf8', 'replace')[-4000:])
        self.race = None
        if self.prop in RACE:
            hr = os.path.join(self.dir, 'hr')
            r = subprocess.run(['go', 'build', '-race', '-tags', 'verif', '-o', hr, '.'], cwd=src, env=go_env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise CheckError('no build with the race detector:\n' + r.stdout.decode('utf8', 'replace')[-4000:])
            self.race = hr


def run_proc(cmd, cwd, env, limit, out):
    """Run with a time limit, output to a file; (code, timed out)."""
    with open(out, 'wb') as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=limit), False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return -9, True


def tlc(cwd, module, cfg, env, limit, args=(), workers=1, heap='2g'):
    for f in os.listdir(os.path.join(VERIF, 'spec')):
        if f.endswith(('.tla', '.cfg')) and not os.path.exists(os.path.join(cwd, f)):
            shutil.copy(os.path.join(VERIF, 'spec', f), cwd)
    out = os.path.join(cwd, 'tlc.out')
    e = dict(os.environ)
    e.update(env)
    cmd = ['java', '-Xmx' + heap, '-Xss16m'] + (['-XX:TieredStopAtLevel=1'] if workers == 1 else []) + [ '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-Djava.io.tmpdir=' + cwd,
           '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', os.path.join(cwd, 'states'), '-workers', str(workers), '-config', cfg] + list(args) + [module]
    code, late = run_proc(cmd, cwd, e, limit, out)
    text = open(out, errors='replace').read()
    return code, late, text


def counts(text):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    if not m:
        m2 = re.findall(r'The number of states generated: (\d+)', text)
        return (int(m2[-1]), int(m2[-1])) if m2 else (0, 0)
    return int(m[-1][0]), int(m[-1][1])


def validate(run, traces, name='val', limit=240, diag=False):
    """Traces accepted by Trace.tla: a set of indices; and TLC's text."""
    d = run.sub(name)
    path = os.path.join(d, 'traces.json')
    json.dump(traces, open(path, 'w'))
    env = {'TRACE': path}
    if diag:
        env['DIAG'] = '1'
    code, late, text = tlc(d, 'Trace.tla', 'Trace.cfg', env, limit)
    acc = {int(x) - 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', text)}
    gen, dist = counts(text)
    with run.lock:
        run.states += dist
        run.transitions += gen
    if 'Parsing or semantic analysis failed' in text or 'java.lang.OutOfMemoryError' in text:
        raise CheckError('TLC: ' + text[-3000:])
    shutil.rmtree(d, ignore_errors=True)
    return acc, late, text


def diagnose(text):
    ds = re.findall(r'<< *"DIAG",\s*(\d+),\s*(\d+),(.*?)>>\n(?=<<|\S)', text, re.S)
    return [(int(l), re.sub(r'\s+', ' ', x)[:1500]) for _, l, x in ds]


def rejected(run, traces, name, limit=240):
    """Indices of traces the specification does not accept, each confirmed on
    its own, with explanations."""
    acc, late, text = validate(run, traces, name, limit)
    rest = [k for k in range(len(traces)) if k not in acc]
    with run.lock:
        run.accepted += len(acc)
    res = []
    for k in rest:
        one = traces[k]
        large = len(json.dumps(one)) > 700000
        a, l, t = validate(run, [one], name + '-one', 120 if large else 60, diag=True)
        if a:
            with run.lock:
                run.accepted += 1
            continue
        if l and large:  # the time may have gone into explaining
            a, l, t = validate(run, [one], name + '-one', 120)
            if l:  # too large to judge: no verdict
                with run.lock:
                    run.undecided += 1
                continue
            if a:
                with run.lock:
                    run.accepted += 1
                continue
        if l:  # TLC cannot even print what is wrong: find the step
            lo, hi = 0, len(one['steps'])   # prefix of length lo is accepted
            while hi - lo > 1:
                mid = (lo + hi) // 2
                p = dict(one, steps=one['steps'][:mid])
                a2, l2, _ = validate(run, [p], name + '-cut', 30)
                if a2:
                    lo = mid
                else:
                    hi = mid
            p = dict(one, steps=one['steps'][:lo])
            if lo > 0 and not validate(run, [p], name + '-cut', 60)[0]:
                raise CheckError('TLC timed out on a trace')
            res.append((k, hi, ['step %d cannot be evaluated' % hi]))
        else:
            ds = diagnose(t)
            m = re.search(r'The depth of the complete state graph search is (\d+)', t)
            step = int(m.group(1)) if m else (ds[-1][0] if ds else 0)
            why = [x for l2, x in ds if l2 == step] or [x for _, x in ds]
            e = t.find('Error:')
            if e >= 0:
                why.append(t[e:e + 600])
                steps = re.findall(r'\bl = (\d+)', t)
                if steps:
                    step = max(step, int(steps[-1]))
            res.append((k, step, why))
        if len(res) >= 2:
            break
    return res


def from_log(path):
    """The trace that a dead process was recording."""
    tab, steps, pend = None, [], None
    with open(path, errors='replace') as f:
        for line in f:
            if not line.endswith('\n'):
                break
            tag, _, rest = line.rstrip('\n').partition(' ')
            if tag == 'T':
                tab, steps, pend = {'id': rest}, [], None
            elif tag == 'X':
                tab = json.loads(rest)
            elif tag == 'P':
                pend = json.loads(rest)
            elif tag == 'D':
                steps.append(json.loads(rest))
                pend = None
    if tab is None or pend is None:
        return None
    for k, v in (('enc', {}), ('strs', []), ('nums', []), ('ints', []), ('approx', False)):
        tab.setdefault(k, v)
    return tab, steps, pend


def harness(run, args, d, limit, race=False):
    """Run the harness; traces, with the step that killed it if it died. race:
    data races kill it."""
    out, log = os.path.join(d, 'traces.json'), os.path.join(d, 'log')
    code, late = run_proc([run.race if race else run.bin] + args + ['-out', out, '-log', log], d,
                          go_env({'TMPDIR': d, 'GOTRACEBACK': 'all', 'GORACE': 'halt_on_error=1 exitcode=66'}), limit, os.path.join(d, 'harness.out'))
    text = open(os.path.join(d, 'harness.out'), errors='replace').read()
    if code == 0:
        return json.load(open(out)), text
    if late or code in (-9, 3):
        raise CheckError('harness ended with %d (late: %s)\n%s' % (code, late, text[-2000:]))
    got = from_log(log)
    if got is None:
        raise CheckError('harness died outside of an operation (%d)\n%s' % (code, text[-2000:]))
    tab, steps, pend = got
    at = [i for i in (text.find(x) for x in ('WARNING: DATA RACE', 'panic:', 'fatal error:')) if i >= 0]
    msg = text[min(at or [0]):][:1500 if race else 600]
    pend.update(panic='the process died: ' + msg, obs=[])
    tab['steps'] = steps + [pend]
    return [tab], text


def account(run, traces):
    with run.lock:
        for t in traces:
            run.steps += len(t['steps'])
            for s in t['steps']:
                run.ops[s['op']] = run.ops.get(s['op'], 0) + 1
        if len(run.samples) < 3 and traces:
            t = traces[len(run.samples) % len(traces)]
            run.samples.append({'trace': t['id'], 'steps': [brief(s) for s in t['steps'][:12]]})


def brief(s):
    r = {}
    for k, v in s.items():
        if k in ('obs', 'raws', 'txt', 'hm', 'outs'):
            continue
        x = json.dumps(v)
        r[k] = v if len(x) < 200 else x[:200] + '...'
    return r


class Violation(Exception):
    def __init__(self, trace, step, why, origin):
        self.trace, self.step, self.why, self.origin = trace, step, why, origin


def judge(run, traces, name, origin):
    account(run, traces)
    for k, step, why in rejected(run, traces, name):
        raise Violation(traces[k], step, why, origin)


def random_shard(run, profile, seed, start, n, race=False):
    d = run.sub('gen-' + profile)
    traces, _ = harness(run, ['gen', '-profile', profile, '-seed', str(seed), '-from', str(start), '-traces', str(n)], d, 600, race)
    if race:
        raced(run, traces)
    judge(run, traces, 'trace-' + profile, {'gen': [profile, seed, start, n]})
    shutil.rmtree(d, ignore_errors=True)


def raced(run, traces):
    with run.lock:
        r = run.notes.setdefault('race_detector', {'traces': 0, 'steps': 0})
        r['traces'] += len(traces)
        r['steps'] += sum(len(t['steps']) for t in traces)


def replay_shard(run, behaviours, name, race=False):
    """Run operations on the real code and judge what it did."""
    d = run.sub('rep-' + name)
    path = os.path.join(d, 'in.json')
    json.dump(behaviours, open(path, 'w'))
    traces, _ = harness(run, ['replay', '-in', path], d, 600, race)
    if race:
        raced(run, traces)
    judge(run, traces, 'replay-' + name, {'replay': name})
    shutil.rmtree(d, ignore_errors=True)
    return traces


def gather(run, tasks, more=None):
    """Run tasks (functions) in parallel; the first violation wins over errors.
    more: a function run meanwhile, for further tasks."""
    fs = [run.pool.submit(t) for t in tasks]
    err = vio = None
    if more:
        try:
            for ts in more():
                fs += [run.pool.submit(t) for t in ts]
        except Violation as v:
            vio = v
        except Exception as e:
            err = e
    for f in fs:
        try:
            f.result()
        except Violation as v:
            vio = vio or v
            for g in fs:
                g.cancel()
        except Exception as e:
            if type(e).__name__ != 'CancelledError':
                err = err or e
        except BaseException as e:
            if type(e).__name__ != 'CancelledError':
                raise
    if vio:
        raise vio
    if err:
        raise err
