"""The simulated scheduler, interrupts and failing calls.

Caller threads are real Python threads, of which exactly one runs at any time. Probes (probes.py) are
the points where the running thread may be preempted or hit by a fault; sys.monitoring CALL events of code under
meshless/ are, on demand, points where a call fails. The shipped files are neither changed nor hooked.
"""
import _thread
import sys
import threading

from . import base, ids, probes

mon = sys.monitoring
TOOL = 4
E = mon.events


class InjectedError(Exception):
    """An inner operation failing for a reason the code cannot know."""


class InjectedBase(BaseException):
    """An interrupt of a kind the code cannot know (like asyncio.CancelledError, GeneratorExit...)."""


class TaskKilled(BaseException):
    """Raised by the simulator to unwind tasks once a run is abandoned."""


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'InjectedError': InjectedError,
       'InjectedBase': InjectedBase}


class StepLimit(Exception):
    pass


class Sim(object):
    """One simulated execution.

    policy: see Policy. switches: explicit list to replay. faults are armed per operation by the running task through arm()/disarm().
    """

    def __init__(self, policy=None, switches=None, max_steps=3000000, record_points=False,
                 calls=False, keep_sites=False):
        self.policy = policy
        # a switch is [task, operation id, n-th point of that operation, next task]
        self.replay = None if switches is None else {(a, b, c): d for a, b, c, d in switches}
        self.switches = []          # what actually happened
        self.opid = {}
        self.local_n = {}
        self.step = 0
        self.max_steps = max_steps
        self.cur = None             # index of the running task
        self.runnable = []          # indices
        self.locks = {}
        self.ident = {}
        self.fault = {}             # task -> [countdown, kind, exc]
        self.fired = []
        self.points = {}            # task -> list of sites of the op in progress (record mode)
        self.record_points = record_points
        self.calls = calls
        self.abort = None
        self.done = []
        self.blocked = {}           # task -> SimLock it waits for
        self.sites = set()
        self.pairs = set()
        self.last_site = {}
        self.keep_sites = keep_sites
        self.codes = {}

    # ---- where preemption and faults can happen ------------------------------------------------------------
    def start_monitoring(self):
        self.local = E.CALL if self.calls else 0
        if not self.local:
            return
        mon.use_tool_id(TOOL, 'sim')
        mon.register_callback(TOOL, E.PY_START, self.on_start)
        mon.register_callback(TOOL, E.CALL, self.on_call)
        mon.set_events(TOOL, E.PY_START)

    def stop_monitoring(self):
        if not self.local:
            return
        mon.set_events(TOOL, 0)
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        for ev in (E.PY_START, E.CALL):
            mon.register_callback(TOOL, ev, None)
        mon.free_tool_id(TOOL)

    def on_start(self, code, off):
        if code.co_filename.startswith(base.PKG) and code not in self.codes:
            self.codes[code] = len(self.codes)
            mon.set_local_events(TOOL, code, self.local)
        return mon.DISABLE

    def on_probe(self, i):
        t = self.ident.get(_thread.get_ident())
        if t is not None and t == self.cur:
            self.point(t, i, 'line')

    def on_call(self, code, off, callee, arg0):
        if callee in (probes.probe, probes.value, ids.sim_id) or getattr(callee, '__name__', '') in ('__exit__', 'release'):
            return
        t = self.ident.get(_thread.get_ident())
        if t is not None and t == self.cur:
            self.point(t, (code, off), 'call')

    def point(self, t, site, kind):
        if self.abort is not None:
            raise TaskKilled()
        pts = self.points.get(t)
        if pts is not None:
            pts.append((kind, site))
        f = self.fault.get(t)
        if f is not None and f[1] == kind:
            f[0] -= 1
            if f[0] < 0 and (kind != 'line' or probes.SITES[site][4]) and not in_cleanup():
                del self.fault[t]
                self.fired.append((t, kind, f[2]))
                raise EXC[f[2]]('injected')
        if kind == 'call':
            return
        self.step += 1
        if self.step > self.max_steps:
            self.abort = 'steps'
            raise TaskKilled()
        n = self.local_n[t] = self.local_n.get(t, 0) + 1
        if len(self.runnable) > 1:
            if self.replay is not None:
                nxt = self.replay.get((t, self.opid.get(t), n))
                if nxt is not None and nxt not in self.runnable:
                    nxt = None
            else:
                nxt = self.policy.choose(self, t, site)
            if self.keep_sites:
                for o in self.runnable:
                    if o != t and o in self.last_site:
                        self.pairs.add((site, self.last_site[o]))
                self.last_site[t] = site
            if nxt is not None and nxt != t:
                self.switches.append([t, self.opid.get(t), n, nxt])
                self.switch(t, nxt)
                if self.abort is not None:
                    raise TaskKilled()

    # ---- handing over ----------------------------------------------------------------------------------
    def switch(self, t, nxt):
        self.cur = nxt
        self.locks[nxt].release()
        self.locks[t].acquire()

    def block(self, lock):
        """The running task waits for a SimLock: run somebody else until it is free."""
        t = self.ident.get(_thread.get_ident())
        while lock.owner is not None:
            self.runnable.remove(t)
            self.blocked[t] = lock
            if not self.runnable:
                self.abort = 'deadlock'
                # wake everybody so that the run can end
                self.release_all()
                raise TaskKilled()
            self.switch(t, self.policy_pick(t))
            if self.abort is not None:
                raise TaskKilled()

    def policy_pick(self, t):
        # deterministic: the next runnable one
        later = [r for r in self.runnable if r > t]
        return later[0] if later else self.runnable[0]

    def unblock(self, lock):
        for t, l in sorted(self.blocked.items()):
            if l is lock:
                del self.blocked[t]
                self.runnable.append(t)
                self.runnable.sort()

    def release_all(self):
        for i, l in self.locks.items():
            if i not in self.done and i != self.cur:
                self.runnable = sorted(set(self.runnable) | {i})
        self.blocked.clear()

    def run(self, tasks):
        n = len(tasks)
        self.runnable = list(range(n))
        main = _thread.allocate_lock()
        main.acquire()
        for i in range(n):
            self.locks[i] = _thread.allocate_lock()
            self.locks[i].acquire()

        def body(i):
            self.locks[i].acquire()
            self.ident[_thread.get_ident()] = i
            try:
                if self.abort is None:
                    tasks[i](self, i)
            except TaskKilled:
                pass
            except BaseException as e:                      # a harness bug: tasks catch what meshless raises
                self.abort = 'harness: %r' % (e,)
                import traceback
                self.tb = traceback.format_exc()
            finally:
                self.done.append(i)
                self.runnable = [r for r in self.runnable if r != i]
                if self.runnable:
                    nxt = self.policy_pick(i)
                    self.cur = nxt
                    self.locks[nxt].release()
                elif self.blocked:
                    if self.abort is None:
                        self.abort = 'deadlock'
                    nxt = sorted(self.blocked)[0]
                    self.runnable = sorted(self.blocked)
                    self.blocked.clear()
                    self.cur = nxt
                    self.locks[nxt].release()
                else:
                    main.release()

        CURRENT[0] = self
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)] if n > 1 else []
        for th in threads:
            th.start()
        self.start_monitoring()
        self.cur = 0
        self.locks[0].release()
        if n == 1:              # no other thread: nothing outside the simulation takes part in the run
            body(0)
        main.acquire()
        self.stop_monitoring()
        CURRENT[0] = None
        for th in threads:
            th.join(5)

    # ---- faults of the operation in progress --------------------------------------------------------------
    def arm(self, t, kind, n, exc):
        self.fault[t] = [n, kind, exc]

    def begin(self, t, opid):
        self.opid[t] = opid
        self.local_n[t] = 0

    def disarm(self, t):
        return self.fault.pop(t, None) is None


CURRENT = probes.CURRENT


def in_cleanup():
    """is the running code below a handler, a finally clause or a context manager's own method?"""
    f = sys._getframe(1)
    while f is not None:
        if (f.f_code.co_filename, f.f_lineno) in probes.CLEANUP:
            return True
        f = f.f_back
    return False


class SimLock(object):
    """Replaces locks made by meshless code: contention is decided by the simulator."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT[0]
        me = _thread.get_ident()
        if self.owner is not None:
            if self.reentrant and self.owner == me:
                self.count += 1
                return True
            if not blocking:
                return False
            if sim is None or me not in sim.ident:
                raise RuntimeError('deadlock: lock is held')
            if timeout is not None and timeout >= 0:
                return False                      # time passes: the holder is not running
            sim.block(self)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            if CURRENT[0] is not None:
                CURRENT[0].unblock(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        s = (self.count, self.owner)
        self.count, self.owner = 0, None
        if CURRENT[0] is not None:
            CURRENT[0].unblock(self)
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.count = s[0]


def patch_locks():
    """Locks created by meshless code (directly or through threading) become simulated ones."""
    real_lock, real_rlock = threading.Lock, threading.RLock

    def from_meshless():
        f = sys._getframe(2)
        for _ in range(3):
            if f is None:
                return False
            if f.f_code.co_filename.startswith(base.PKG):
                return True
            f = f.f_back
        return False

    def Lock(*a, **k):
        return SimLock() if from_meshless() else real_lock(*a, **k)

    def RLock(*a, **k):
        return SimLock(True) if from_meshless() else real_rlock(*a, **k)
    threading.Lock, threading.RLock = Lock, RLock


class Policy(object):
    """Seeded choice of who runs next. Parameters are drawn per run (swarm style).

    kind 'random': switch with probability p at each point, more likely at sites not met before in this run.
    kind 'pct': priorities with d change points placed uniformly over the expected number of steps.
    kind 'target': preempt a task at chosen points (drawn uniformly over distinct lines), run another task for a
                   while, come back.
    """

    def __init__(self, rng, conf):
        self.rng = rng
        self.c = conf
        self.seen = set()
        self.kind = conf['kind']
        self.hold = 0
        if self.kind == 'pct':
            self.prio = dict(enumerate(conf['prio']))
            self.change = {c: i for i, c in enumerate(conf['change'])}
        if self.kind == 'target':
            # target: [task, operation id, n, which other task, for how many points]
            self.targets = {(a[0], a[1], a[2]): a[3:] for a in conf['targets']}
            self.back = None

    def choose(self, sim, t, site):
        r = self.rng
        if self.kind == 'random':
            p = self.c['p']
            if site not in self.seen:
                self.seen.add(site)
                p = max(p, self.c['pnew'])
            if r.random() < p:
                o = [x for x in sim.runnable if x != t]
                return o[r.randrange(len(o))]
            return None
        if self.kind == 'pct':
            k = self.change.get(sim.step)
            if k is not None:
                self.prio[t] = -1 - k
            best = max(sim.runnable, key=lambda x: self.prio.get(x, 0))
            return best if best != t else None
        if self.kind == 'target':
            if self.back is not None and self.back[0] == t:
                self.back[1] -= 1
                if self.back[1] <= 0:
                    o = self.back[2]
                    self.back = None
                    if o in sim.runnable:
                        return o
            a = self.targets.get((t, sim.opid.get(t), sim.local_n[t]))
            if a is not None:
                o = [x for x in sim.runnable if x != t]
                nxt = o[a[0] % len(o)]
                self.back = [nxt, a[1], t]
                return nxt
            return None
