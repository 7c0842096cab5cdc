"""Search, minimise, replay, report."""
import hashlib
import importlib
import json
import os
import pickle
import pkgutil
import random
import re
import select
import signal
import subprocess
import sys
import traceback
from collections import Counter

from . import sim, state

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.__stdout__


def say(*a):
    OUT.write(' '.join(str(x) for x in a) + '\n')
    OUT.flush()


class Violation(Exception):
    """The property is broken: kind names the class of failure."""

    def __init__(self, kind, detail='', signature=None):
        if kind == 'unexpected-exception':
            # one class of failure per exception class, or plans would shrink to others
            m = re.search(r'\b\w*(Error|Exception|Interrupt|Fault|Iteration|Exit)\b', detail)
            kind += ' ' + m.group(0) if m else ''
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail
        self.signature = signature or kind


class Run(object):
    """Everything one simulated execution records."""

    def __init__(self, seed, script=None, strat=None, sites=()):
        self.seed = seed
        self.rng = random.Random('sched:%s' % seed)
        self.script = script         # None or {'phases': [{'trace', 'faults'}...]}
        self.strat = strat
        self.sites = sites
        self.phases = []
        self.steps = 0
        self.sim_ns = 0
        self.switches = 0
        self.ilv = 0
        self.pairs = set()
        self.faults = Counter()
        self.fault_keys = []
        self.probes = Counter()
        self.nontrivial = False
        self.keys = []
        self.threads = 0
        self.notes = {}

    def probe(self, name, n=1):
        self.probes[name] += n

    def strategy(self, tasks):
        r = self.rng
        k = self.strat or r.choice(['random', 'random', 'hot', 'hot', 'hot', 'pct'])
        if k == 'random' or (k == 'hot' and not self.sites):
            return {'kind': 'random', 'p': r.choice([.5, .3, .1, .05, .02, .005])}
        if k == 'hot' and r.random() < .3 and getattr(self.sites, 'groups', None):
            # anywhere within one or two functions
            g = [r.choice(self.sites.groups) for _ in range(r.choice([1, 1, 2]))]
            return {'kind': 'hot', 'sites': sorted(set(sum(g, []))), 'p': r.choice([.7, .4, .2, .05])}
        if k == 'hot':
            n = r.choice([1, 1, 2, 3, 6])
            return {'kind': 'hot', 'sites': [r.choice(self.sites) for _ in range(n)],
                    'p': r.choice([1.0, .5, .3])}
        if k == 'pct':
            span = r.choice([30, 100, 400, 2000])
            return {'kind': 'pct', 'span': span,
                    'points': [r.randrange(1, span) for _ in range(r.choice([1, 2, 3, 5]))]}
        return {'kind': 'serial'}

    def simulate(self, tasks, max_steps=400000, faults=None, streams=None, strategy=None,
                 on_fault=None):
        """Run `tasks` [(name, fn)] to completion under the scheduler."""
        idx = len(self.phases)
        cfg = {'max_steps': max_steps}
        if self.script is not None:
            ph = self.script['phases'][idx] if idx < len(self.script['phases']) else \
                {'trace': [], 'faults': []}
            cfg['trace'] = ph['trace']
            cfg['faults'] = ph['faults']
            if ph.get('kind'):
                cfg['strategy'] = {'kind': 'serial'}
        else:
            cfg['strategy'] = strategy or self.strategy(tasks)
            if faults:
                cfg['fault_policy'] = faults
        s = sim.Sched(cfg, random.Random(self.rng.getrandbits(64)))
        s.on_fault = on_fault
        for i, (name, fn) in enumerate(tasks):
            t = s.spawn(fn, name)
            if streams:
                t.rng = streams[i]
        drawn = {id(x): x for x in streams or ()}
        edges = {k: getattr(x, 'edges', 0) for k, x in drawn.items()}
        s.run()
        n = sum(getattr(x, 'edges', 0) - edges[k] for k, x in drawn.items())
        if n:
            self.faults['rng-edge'] += n
        self.phases.append({'trace': s.trace if self.script is None else cfg['trace'],
                            'faults': [f[:3] for f in s.fault_log]})
        self.steps += s.steps
        self.sim_ns += s.elapsed()
        self.switches += s.switches
        self.ilv = hash((self.ilv, s.ilv)) & 0xffffffffffff
        self.pairs |= s.pairs
        self.threads = max(self.threads, len(tasks))
        for f in s.fault_log:
            self.faults[f[2]] += 1
            self.fault_keys.append(f[3])
        if s.blocked_ct:
            self.probe('task_blocked_on_lock', s.blocked_ct)
        return s


class Check(object):
    """Base class; one subclass per property."""
    id = None
    title = ''
    level = 'exploration'
    quick = 400            # simulated runs, quick tier
    thorough = 6000
    focus = ()             # source files preferred for targeted preemption
    warm = 4
    real = ()              # components that ran real code
    stub = ()              # components replaced by a stand-in
    rule = ''
    assumptions = ()
    fault_kinds = ()
    mods = ()

    def setup(self):
        for m in self.mods:
            importlib.import_module(m)

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, run):
        """Run the plan; raise Violation if the property is broken."""
        raise NotImplementedError

    def shrink(self, plan):
        """Smaller candidate plans, most aggressive first."""
        return default_shrink(plan)

    def describe(self, plan):
        return plan


def default_shrink(plan):
    """Drop elements from every list found under the keys 'threads' (list of
    lists) and 'faults'/'ops' (lists)."""
    for key in ('faults', 'ops', 'rays', 'tiles'):
        v = plan.get(key)
        if isinstance(v, list) and v:
            step = max(1, len(v) // 2)
            while step >= 1:
                for i in range(0, len(v), step):
                    p = json.loads(json.dumps(plan))
                    del p[key][i:i + step]
                    yield p
                if step == 1:
                    break
                step //= 2
    th = plan.get('threads')
    if isinstance(th, list):
        if len(th) > 1:
            for i in range(len(th)):
                p = json.loads(json.dumps(plan))
                p['threads'][i] = []
                if th[i]:
                    yield p
        for i, ops in enumerate(th):
            if isinstance(ops, list):
                step = max(1, len(ops) // 2)
                while step >= 1 and ops:
                    for j in range(0, len(ops), step):
                        p = json.loads(json.dumps(plan))
                        del p['threads'][i][j:j + step]
                        yield p
                    if step == 1:
                        break
                    step //= 2


# --------------------------------------------------------------------------
def run_seed(check, base, i, tier, script=None, plan=None, sites=()):
    """Execute one seeded run.  Returns (run, plan, violation or None)."""
    seed = '%s:%s:%s' % (check.id, base, i)
    rng = random.Random(seed)
    if plan is None:
        check.index = i
        plan = check.gen(rng, tier)
        plan = json.loads(json.dumps(plan))
    run = Run(seed, script, plan.get('strategy'), sites)
    from . import simrand
    state.restart()
    simrand.State.glob = simrand.Stream('glob:' + seed)
    sim.S.out = 0
    sim.free_static_locks()
    so = sys.stdout
    from .boot import _Null
    sys.stdout = _Null()
    v = None
    try:
        check.execute(plan, run)
    except Violation as e:
        v = e
    except sim.StepLimit as e:
        v = Violation('no-progress', str(e))
    except Exception as e:
        # raised by the code under test outside a simulated task, where the
        # check expected none
        if not from_code_under_test(e):
            raise
        v = Violation('unexpected-exception', '%s: %s' % (type(e).__name__, e))
    finally:
        sys.stdout = so
        sim.S.cur = None
        sim.S.sched = None
    return run, plan, v


def from_code_under_test(e):
    from .boot import REPO
    root = os.path.realpath(REPO) + os.sep
    fr = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
    return any(f.startswith(root) for f in fr) and not fr[-1].startswith(VERIF + os.sep)


def digest(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True, default=str).encode()).hexdigest()[:16]


def fingerprint(run):
    return digest([run.phases, run.steps, run.switches, sorted(run.faults.items()), run.notes.get('obs')])


class Stats(object):
    def __init__(self):
        self.runs = 0
        self.steps = 0
        self.sim_ns = 0
        self.switches = 0
        self.ilv = set()
        self.keys = set()
        self.pairs = set()
        self.faults = Counter()
        self.fault_sites = set()
        self.probes = Counter()
        self.with_preempt = 0
        self.errors = []
        self.rechecks = 0
        self.recheck_bad = []
        self.threads = Counter()

    def add(self, run, plan):
        self.runs += 1
        self.steps += run.steps
        self.sim_ns += run.sim_ns
        self.switches += run.switches
        if run.switches > max(1, run.threads):
            self.with_preempt += 1
        self.threads[run.threads] += 1
        self.ilv.add(run.ilv)
        if run.nontrivial:
            self.keys.add(digest([run.ilv, run.keys, run.fault_keys]))
        self.pairs |= run.pairs
        self.faults.update(run.faults)
        self.fault_sites.update(run.fault_keys)
        self.probes.update(run.probes)

    def merge(self, o):
        self.runs += o.runs
        self.steps += o.steps
        self.sim_ns += o.sim_ns
        self.switches += o.switches
        self.ilv |= o.ilv
        self.keys |= o.keys
        self.pairs |= o.pairs
        self.faults.update(o.faults)
        self.fault_sites |= o.fault_sites
        self.probes.update(o.probes)
        self.with_preempt += o.with_preempt
        self.errors += o.errors
        self.rechecks += o.rechecks
        self.recheck_bad += o.recheck_bad
        self.threads.update(o.threads)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get('findings', []) if k['property'] == pid]


class Sites(list):
    """Weighted sites; groups: those of each function."""

    def __init__(self):
        list.__init__(self)
        self.groups = []


def pick_sites(check):
    """Sites reached during warm-up, weighted towards the files the property
    is anchored in and towards shared-state stores."""
    from . import instr
    out = Sites()
    groups = {}
    for i, (fn, line, kind, func) in enumerate(instr.SITES):
        if not sim.hit[i]:
            continue
        w = 1
        if any(fn.endswith(f) or f.endswith('/') and f in fn for f in check.focus):
            w = 8
        if kind != 's':
            w *= 2
        out.extend([i] * w)
        groups.setdefault((fn, func, w > 2), []).append(i)
    for (_, _, near), g in sorted(groups.items()):
        out.groups.extend([g] * (20 if near else 1))
    return out


# --------------------------------------------------------------------------
def worker(check, base, idxs, tier, sites, deadline, wfd, known):
    st = Stats()

    def send(tag, obj):
        b = pickle.dumps((tag, obj), 2)
        b = len(b).to_bytes(8, 'little') + b
        while b:
            n = os.write(wfd, b)
            b = b[n:]
    last = None
    nviol = 0
    for i in idxs:
        if sim.real_monotonic() > deadline:
            send('timeout', i)
            break
        last = i
        try:
            run, plan, v = run_seed(check, base, i, tier, sites=sites)
        except BaseException:
            send('error', (i, traceback.format_exc()))
            break
        st.add(run, plan)
        if v is not None:
            sig = match_known(known, v)
            if sig is not None:
                send('known', (sig, i))
                st.probes['known:%s' % sig] += 1
            else:
                send('violation', (i, v.kind, v.detail, plan, run.phases))
                nviol += 1
                if nviol >= 6:
                    break
        elif i % 50 == 0:
            # determinism: the same seed again must give the same execution
            f1 = fingerprint(run)
            run2, _, v2 = run_seed(check, base, i, tier, sites=sites)
            st.rechecks += 1
            if fingerprint(run2) != f1:
                st.recheck_bad.append(i)
    send('stats', st)
    os.close(wfd)
    os._exit(0)


def confirm(check, base, viol, tier):
    i, kind, detail, plan, phases = viol

    def f():
        run, _, v = run_seed(check, base, i, tier, script={'phases': phases}, plan=plan)
        return None if v is None else v.kind
    return in_child(f, 120) == kind


def match_known(known, v):
    for k in known:
        if k['signature'] == v.signature:
            return k['signature']
    return None


def search(check, base, tier, nruns, cap_s, known, jobs=None):
    jobs = jobs or int(os.environ.get('DST_JOBS', 0)) or os.cpu_count() or 4
    t0 = sim.real_monotonic()
    st = Stats()
    samples = []
    known_hit = {}
    # warm-up in this process: JIT, caches, and the set of reachable sites
    warm = min(check.warm, nruns)
    first_viol = None
    for i in range(warm):
        run, plan, v = run_seed(check, base, i, tier)
        st.add(run, plan)
        if len(samples) < 3:
            samples.append({'run': i, 'plan': check.describe(plan),
                            'schedule': [p['trace'][:12] for p in run.phases][:3],
                            'faults': [p['faults'] for p in run.phases][:3],
                            'steps': run.steps})
        if v is not None:
            s = match_known(known, v)
            if s is not None:
                known_hit[s] = known_hit.get(s, 0) + 1
                continue
            return st, samples, known_hit, (i, v.kind, v.detail, plan, run.phases), [], []
    sites = pick_sites(check)
    deadline = t0 + cap_s
    kids = {}
    todo = list(range(warm, nruns))
    for w in range(jobs):
        idxs = todo[w::jobs]
        if not idxs:
            continue
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                worker(check, base, idxs, tier, sites, deadline, wfd, known)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(wfd)
        kids[r] = [pid, b'']
    viols, errors, timeouts, doubtful = [], [], [], []
    hard = deadline + 60
    while kids:
        rl, _, _ = select.select(list(kids), [], [], 1.0)
        for r in rl:
            d = os.read(r, 1 << 20)
            if not d:
                pid, buf = kids.pop(r)
                os.close(r)
                _, status = os.waitpid(pid, 0)
                if status != 0:
                    errors.append('worker ended with status %s' % status)
                continue
            kids[r][1] += d
            buf = kids[r][1]
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], 'little')
                if len(buf) < 8 + n:
                    break
                tag, obj = pickle.loads(buf[8:8 + n])
                buf = buf[8 + n:]
                if tag == 'stats':
                    st.merge(obj)
                elif tag == 'violation':
                    # state left behind by earlier runs of that worker must not
                    # play a part: the run has to fail in a clean process too
                    if confirm(check, base, obj, tier):
                        viols.append(obj)
                    else:
                        doubtful.append(obj)
                elif tag == 'known':
                    known_hit[obj[0]] = known_hit.get(obj[0], 0) + 1
                elif tag == 'error':
                    errors.append('run %s: %s' % obj)
                elif tag == 'timeout':
                    timeouts.append(obj)
            kids[r][1] = buf
        if viols:
            # let nobody run on for long once something is found
            for r, (pid, _) in kids.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            for r, (pid, _) in list(kids.items()):
                os.close(r)
                os.waitpid(pid, 0)
            kids = {}
        if sim.real_monotonic() > hard and kids:
            for r, (pid, _) in kids.items():
                os.kill(pid, signal.SIGKILL)
            errors.append('workers exceeded the hard wall-clock limit')
            for r, (pid, _) in list(kids.items()):
                os.close(r)
                os.waitpid(pid, 0)
            kids = {}
    viols.sort(key=lambda v: v[0])
    if doubtful and not viols:
        errors.append('run %s: %s: %s only fails after other runs in the same process' % doubtful[0][:3])
    return st, samples, known_hit, (viols[0] if viols else None), errors, timeouts


# --------------------------------------------------------------------------
def in_child(fn, cap_s):
    """Run fn() in a forked child; returns its pickled result or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            b = pickle.dumps(fn(), 2)
        except BaseException:
            traceback.print_exc()
            b = pickle.dumps(None, 2)
        while b:
            n = os.write(w, b)
            b = b[n:]
        os._exit(0)
    os.close(w)
    buf = b''
    end = sim.real_monotonic() + cap_s
    while True:
        left = end - sim.real_monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return None


def minimise(check, base, viol, tier, budget_s=45.0):
    """Shrink plan, then schedule and faults, keeping the violation class."""
    i, kind, detail, plan, phases = viol
    t_end = sim.real_monotonic() + budget_s
    tries = [0]
    best = {'plan': plan, 'phases': phases, 'detail': detail}

    def attempt(p, ph):
        if sim.real_monotonic() > t_end:
            return None
        tries[0] += 1
        try:
            run, _, v = run_seed(check, base, i, tier, script={'phases': ph}, plan=p)
        except BaseException:
            return None
        if v is not None and v.kind == kind:
            return {'plan': p, 'phases': run.phases if False else ph, 'detail': v.detail}
        return None

    got = attempt(plan, phases)
    if got is None:
        return None, tries[0]
    best = got
    progress = True
    while progress and sim.real_monotonic() < t_end:
        progress = False
        # 1. the plan (operations, threads, fault list)
        for cand in check.shrink(best['plan']):
            if sim.real_monotonic() > t_end:
                break
            g = attempt(cand, best['phases'])
            if g is None:
                # the old schedule may no longer fit: try it without preemptions
                continue
            best = g
            progress = True
            break
        if progress:
            continue
        # 2. schedule events and scripted faults, ddmin style
        for pi in range(len(best['phases'])):
            for key in ('trace', 'faults'):
                ev = best['phases'][pi][key]
                n = 2
                while len(ev) >= 1 and sim.real_monotonic() < t_end:
                    size = max(1, (len(ev) + n - 1) // n)
                    reduced = False
                    for s in range(0, len(ev), size):
                        cand = ev[:s] + ev[s + size:]
                        ph = json.loads(json.dumps(best['phases']))
                        ph[pi][key] = cand
                        g = attempt(best['plan'], ph)
                        if g is not None:
                            best = g
                            ev = cand
                            reduced = True
                            progress = True
                            break
                    if not reduced:
                        if size == 1:
                            break
                        n = min(len(ev), n * 2)
    return best, tries[0]


def write_replay(check, base, viol, tier, best, minimised):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    i, kind, detail, plan, phases = viol
    path = os.path.join(d, '%s-seed%s-run%s.json' % (check.id, base, i))
    with open(path, 'w') as f:
        json.dump({'property': check.id, 'base_seed': base, 'run': i, 'tier': tier,
                   'violation': kind, 'detail': best['detail'], 'minimised': minimised,
                   'plan': best['plan'], 'phases': best['phases'],
                   'how': 'bash /verif/check.sh %s --replay %s' % (check.id, path)}, f, indent=1)
        f.write('\n')
    return path


def replay(check, path):
    with open(path) as f:
        d = json.load(f)
    run, plan, v = run_seed(check, d['base_seed'], d['run'], d.get('tier', 'quick'),
                            script={'phases': d['phases']}, plan=d['plan'])
    if v is None:
        say('replay: no violation (%s expected)' % d['violation'])
        return 0
    say('replay: %s' % v)
    say('violation kind: %s' % v.kind)
    from . import instr
    for pi, ph in enumerate(run.phases):
        for t in ph['trace'][:60]:
            say('  phase %d: task %s at its step %s -> run task %s' % (pi, t[0], t[1], t[2]))
        for t in ph['faults']:
            say('  phase %d: task %s at its step %s: injected %s' % (pi, t[0], t[1], t[2]))
    say('VIOLATION property=%s replay=%s' % (check.id, os.path.abspath(path)))
    return 1


def fresh_replay(pid, path, kind):
    """Replay in a fresh interpreter; True when the same class recurs."""
    try:
        p = subprocess.run(['/bin/bash', os.path.join(VERIF, 'check.sh'), pid, '--replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
    except Exception as e:
        say('replay run failed: %r' % e)
        return False
    out = p.stdout.decode('utf-8', 'replace')
    return p.returncode == 1 and ('violation kind: %s' % kind) in out


def evidence(check, base, tier, st, samples, wall, nviol, extra):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    from . import instr
    hours = max(wall, 1e-9) / 3600.0
    cov = {
        'evaluations': st.runs,
        'distinct_nontrivial': len(st.keys),
        'rule': check.rule,
        'samples': samples,
        'simulated_runs_per_hour': int(st.runs / hours),
        'seeds': 'VERIF_SEED=%s, run indices 0..%d' % (base, max(0, st.runs - 1)),
        'seeds_per_hour': int(st.runs / hours),
        'simulated_steps': st.steps,
        'simulated_time_s': round(st.sim_ns / 1e9, 3),
        'task_switches': st.switches,
        'runs_with_preemption': st.with_preempt,
        'distinct_interleavings': len(st.ilv),
        'distinct_interleavings_measure': 'distinct sequences of (task preempted, its local step, '
                                          'task chosen) over the whole run',
        'distinct_preemption_points': len(st.pairs),
        'faults_fired': dict(sorted(st.faults.items())),
        'distinct_fault_sites': len(st.fault_sites),
        'probes': dict(sorted(st.probes.items())),
        'tasks_per_run': {str(k): v for k, v in sorted(st.threads.items())},
        'determinism_rechecks': st.rechecks,
        'determinism_mismatches': len(st.recheck_bad),
        'components_real': list(check.real),
        'components_stub': list(check.stub),
    }
    cov.update(extra)
    d = {'property': check.id, 'tier': tier, 'seed': int(base), 'level': check.level,
         'coverage': cov, 'assumptions': list(check.assumptions), 'wall_s': round(wall, 2),
         'violations': nviol}
    with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


def load_check(pid):
    mod = importlib.import_module('dst.checks.%s' % pid.lower())
    c = mod.CHECK()
    from .boot import boot
    boot()
    import pytracer
    for m in pkgutil.walk_packages(pytracer.__path__, 'pytracer.', onerror=lambda n: None):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass        # a part that does not import is missed by its own check
    c.setup()
    state.snapshot()
    return c


def main(argv):
    pid = argv[0]
    if pid == 'SELFTEST':
        from .boot import boot
        boot()
        from . import selftest
        return selftest.main()
    tier = os.environ.get('VERIF_TIER', 'quick')
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    rp = None
    nruns = None
    a = argv[1:]
    while a:
        x = a.pop(0)
        if x == '--replay':
            rp = a.pop(0)
        elif x in ('quick', 'thorough'):
            tier = x
        elif x == '--runs':
            nruns = int(a.pop(0))
        elif x == '--seed':
            base = int(a.pop(0))
        elif x == '--one':
            check = load_check(pid)
            run, plan, v = run_seed(check, base, int(a.pop(0)), tier)
            say(json.dumps(plan)[:2000])
            say('steps', run.steps, 'switches', run.switches, 'probes', dict(run.probes),
                'faults', dict(run.faults))
            say('violation:', v)
            return 1 if v else 0
        else:
            raise SystemExit('unknown argument %s' % x)
    try:
        check = load_check(pid)
    except BaseException:
        traceback.print_exc()
        say('ERROR: the code under test could not be loaded')
        return 2
    if rp is not None:
        return replay(check, rp)
    known = load_known(pid)
    t0 = sim.real_monotonic()
    n = nruns or (check.quick if tier == 'quick' else check.thorough)
    cap = float(os.environ.get('DST_CAP', 0)) or (240.0 if tier == 'quick' else 700.0)
    st, samples, known_hit, viol, errors, timeouts = search(check, base, tier, n, cap, known)
    wall = sim.real_monotonic() - t0
    say('%s: %d simulated runs, %d steps, %d switches, %d distinct interleavings, faults %s, %.1fs'
        % (pid, st.runs, st.steps, st.switches, len(st.ilv), dict(st.faults), wall))
    extra = {'runs_planned': n, 'stopped_by_wall_clock': bool(timeouts),
             'instrumented_sites_reached': int(sum(sim.hit))}
    code = 0
    nviol = 0
    if viol is not None:
        i, kind, detail, plan, phases = viol
        say('violation in run %d (%s): %s' % (i, kind, detail))
        res = in_child(lambda: minimise(check, base, viol, tier), 120)
        best, minimised = None, False
        if res is not None and res[0] is not None:
            best, minimised = res[0], True
        path = None
        if best is not None:
            path = write_replay(check, base, viol, tier, best, True)
            if not fresh_replay(pid, path, kind):
                say('minimised replay did not reproduce in a fresh process; using the full trace')
                best = None
        if best is None:
            best = {'plan': plan, 'phases': phases, 'detail': detail}
            path = write_replay(check, base, viol, tier, best, False)
            if not fresh_replay(pid, path, kind):
                say('ERROR: violation of class %s did not replay; not reported' % kind)
                evidence(check, base, tier, st, samples, wall, 0, extra)
                return 2
        ev = sum(len(p['trace']) + len(p['faults']) for p in best['phases'])
        say('replay: %d schedule/fault events%s' % (ev, ' (minimised)' if minimised else ''))
        say(best['detail'])
        nviol = 1
        code = 1
    if errors:
        for e in errors[:3]:
            say('ERROR: %s' % e)
    for k in known:
        say('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    extra['known_findings_hit'] = known_hit
    evidence(check, base, tier, st, samples, wall, nviol, extra)
    if code == 1:
        say('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        return 2
    if st.recheck_bad:
        say('WARNING: nondeterministic runs %s' % st.recheck_bad[:5])
    return 0
