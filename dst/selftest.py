"""The simulator checked on toy programs before it is trusted with real ones."""
import os
import random
import threading

from . import sim, instr, simfs

TOY = '''
import threading
import time
class C(object):
    def __init__(self):
        self.n = 0
        self.lock = threading.Lock()
        self.a = threading.Lock()
        self.b = threading.Lock()
        self.r = threading.RLock()
        self.ev = threading.Event()
        self.cond = threading.Condition()
        self.ready = False
    def racy(self):
        self.n += 1
    def safe(self):
        with self.lock:
            self.n += 1
    def ab(self):
        with self.a:
            with self.b:
                self.n = self.n
    def ba(self):
        with self.b:
            with self.a:
                self.n = self.n
    def leak(self):
        self.lock.acquire()
        self.n = int(self.n)
        self.lock.release()
    def noleak(self):
        self.lock.acquire()
        try:
            self.n = int(self.n)
        finally:
            self.lock.release()
    def waits(self):
        with self.cond:
            while not self.ready:
                self.cond.wait()
            self.n += 1
    def signals(self):
        with self.cond:
            self.ready = True
            self.cond.notify_all()
    def sleeper(self):
        time.sleep(5)
        self.n += 1
    def spawns(self):
        ts = [threading.Thread(target=self.safe) for _ in range(3)]
        for t in ts: t.start()
        for t in ts: t.join()
        return self.n
'''


def load():
    g = {}
    exec(instr.instrument_source(TOY, '<toy>'), g)
    return g['C']


def run(fns, seed, cfg=None, **k):
    c = dict(cfg or {'strategy': {'kind': 'random', 'p': .3}})
    c.update(k)
    s = sim.Sched(c, random.Random(seed))
    for i, f in enumerate(fns):
        s.spawn(f, 't%d' % i)
    s.run()
    return s


def main():
    C = load()
    n = 0
    # a lost update is found, and its trace replays exactly
    found = None
    for seed in range(200):
        c = C()
        s = run([c.racy, c.racy], seed)
        if c.n == 1:
            found = (seed, s.trace)
            break
    assert found, 'lost update not found'
    for _ in range(3):
        c = C()
        run([c.racy, c.racy], 0, {'trace': found[1]})
        assert c.n == 1, 'trace does not replay'
        c = C()
        s = run([c.racy, c.racy], found[0])
        assert s.trace == found[1], 'same seed, other schedule'
    for seed in range(100):
        c = C()
        s = run([c.safe, c.safe, c.safe], seed)
        assert c.n == 3 and s.outcome is None
    # deadlocks are found and unwound
    dl = 0
    for seed in range(100):
        c = C()
        s = run([c.ab, c.ba], seed)
        dl += s.outcome == 'deadlock'
    assert 0 < dl < 100, dl
    # a leaked lock is a deadlock, a protected one is not
    site = {'max': 1, 'p': 1.0, 'kinds': ['memory'],
            'sites': [i for i, x in enumerate(instr.SITES) if x[0] == '<toy>']}
    c = C()
    s = run([c.leak, c.leak], 1, fault_policy=site)
    assert s.outcome == 'deadlock' and len(s.fault_log) == 1
    c = C()
    s = run([c.noleak, c.noleak], 1, fault_policy=site)
    assert s.outcome is None and len(s.fault_log) == 1
    # condition variables, timers, threads started by the code
    for seed in range(60):
        c = C()
        s = run([c.waits, c.signals, c.sleeper], seed)
        assert s.outcome is None and c.n == 2 and s.elapsed() >= 5e9, (s.outcome, c.n)
        assert all(t.error is None for t in s.tasks)
        c = C()
        s = run([c.spawns], seed)
        assert c.n == 3 and s.tasks[0].result == 3
    # file-system model
    with simfs.FS(1) as fs:
        fs.put('a', b'old')
        fs.arm({1: 'enospc'})
        try:
            with open(fs.path('a'), 'wb') as f:
                f.write(b'new')
            raise AssertionError('no ENOSPC')
        except OSError:
            pass
        fs.clear()
        fs.arm({2: 'crash'})
        try:
            f = open(fs.path('b'), 'wb', 0)
            f.write(b'12')
            f.write(b'34')
            raise AssertionError('no crash')
        except sim.SimCrash:
            pass
        fs.restart()
        assert fs.get('b') == b'12'
    lost = kept = 0
    for seed in range(40):
        with simfs.FS(seed) as fs:
            fs.put('a', b'old')
            with open(fs.path('t'), 'wb') as f:
                f.write(b'newdata')
            os.replace(fs.path('t'), fs.path('a'))
            fs.restart(True)
            v = fs.get('a')
            lost += v not in (b'old', b'newdata')
        with simfs.FS(seed) as fs:
            fs.put('a', b'old')
            with open(fs.path('t'), 'wb') as f:
                f.write(b'newdata')
                f.flush()
                os.fsync(f.fileno())
            os.replace(fs.path('t'), fs.path('a'))
            fs.restart(True)
            assert fs.get('a') in (b'old', b'newdata')
            kept += 1
    assert lost > 0 and kept == 40
    print('selftest: simulator ok')
    return 0
