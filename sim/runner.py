"""Forked execution, worker processes, seeded batches, minimisation, replay files and evidence."""
import copy
import gc
import json
import os
import pickle
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import base
from .base import HarnessError

CHILD_TIMEOUT = 240         # wall clock; a run takes about a second
CHILD_CPU = 70


class NoProgress(Exception):
    """a simulated run did not end, or its process was ended by the code under test"""


class Zygote(object):
    """A process in the state right after the imports, of which every simulated process is a fork. The request is unpickled
    in the fork, so the memory a simulated process starts with (and with it addresses and their reuse) depends on the
    request alone, not on what ran before."""

    def __init__(self):
        req, res, ctl = os.pipe(), os.pipe(), os.pipe()
        self.doc = os.memfd_create('request')
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            for fd in (req[1], res[0], ctl[0]):
                os.close(fd)
            try:
                self.serve(req[0], self.doc, res[1], ctl[1])
            finally:
                os._exit(0)
        for fd in (req[0], res[1], ctl[1]):
            os.close(fd)
        self.req, self.res, self.ctl = req[1], res[0], ctl[0]
        os.set_blocking(self.res, False)
        for _ in range(3):
            self.call(os.getpid, ())            # the first rounds leave their mark on free lists

    @staticmethod
    def serve(req, doc, res, ctl):
        nul = os.open('/dev/null', os.O_RDWR)
        os.dup2(nul, 0)
        os.dup2(nul, 1)
        while True:
            head = os.read(req, 8)
            if len(head) < 8:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(ctl)
                    data = os.pread(doc, int.from_bytes(head, 'little'), 0)
                    os.close(req)
                    os.close(doc)
                    if os.environ.get('VERIF_STDERR') is None:
                        os.dup2(nul, 2)
                    os.close(nul)
                    signal.alarm(CHILD_TIMEOUT + 5)
                    resource.setrlimit(resource.RLIMIT_CPU, (CHILD_CPU, CHILD_CPU + 2))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    try:
                        fn, args = pickle.loads(data)
                        out = pickle.dumps((True, fn(*args)), protocol=4)
                    except BaseException:
                        out = pickle.dumps((False, traceback.format_exc()), protocol=4)
                    with os.fdopen(res, 'wb') as f:
                        f.write(out)
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            os.write(ctl, pid.to_bytes(8, 'little'))
            os.write(ctl, os.waitpid(pid, 0)[1].to_bytes(8, 'little'))
            del head, pid           # the state of the memory is the same at every fork

    def call(self, fn, args, timeout=CHILD_TIMEOUT, expect_death=False):
        """fn(*args) in a process of its own; returns its (pickled) result"""
        data = pickle.dumps((fn, args), protocol=4)
        if os.pwrite(self.doc, data, 0) != len(data):
            raise HarnessError('request not written')
        os.write(self.req, len(data).to_bytes(8, 'little'))
        pid = int.from_bytes(self.control(), 'little')
        buf = []
        end = time.time() + timeout
        late = False
        while True:
            left = end - time.time()
            if left <= 0 and not late:
                late = True
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            rd, _, _ = select.select([self.res, self.ctl], [], [], max(left, 1))
            over = self.ctl in rd
            while True:
                try:
                    b = os.read(self.res, 1 << 20)
                except BlockingIOError:
                    break
                if not b:
                    raise HarnessError('the process simulated processes are forked from ended')
                buf.append(b)
            if over:
                break
        status = int.from_bytes(self.control(), 'little')
        if late:
            raise NoProgress('a simulated run did not end')
        if not buf:
            code = os.waitstatus_to_exitcode(status)
            if expect_death and code == 77:
                return ('died', status)
            if code == -signal.SIGXCPU:
                raise NoProgress('a simulated run did not end')
            if code != -signal.SIGKILL:
                raise NoProgress('the process of a simulated run ended with %d' % code)
        data = b''.join(buf)
        try:
            ok, val = pickle.loads(data)
        except Exception:
            raise HarnessError('simulated process died: status %s' % status)
        if not ok:
            raise HarnessError(val)
        return val

    def control(self):
        b = os.read(self.ctl, 8)
        if len(b) != 8:
            raise HarnessError('the process simulated processes are forked from ended')
        return b


class Ctx(object):
    def __init__(self, seed, tier, top, zygote):
        self.zygote = zygote
        self.seed = seed
        self.tier = tier
        self.top = top
        self.n = 0
        self.cache = {}
        self.forks = 0

    def newdir(self):
        # a fixed-length path: file name lengths are part of what the code under test sees
        self.n += 1
        d = os.path.join(self.top, 'r%07d' % self.n)
        os.mkdir(d)
        return d

    def fork(self, fn, *args, **kw):
        self.forks += 1
        return self.zygote.call(fn, args, **kw)

    def cached(self, key, make):
        key = base.digest(key)
        if key not in self.cache:
            if len(self.cache) > 4000:
                self.cache.clear()
            self.cache[key] = make()
        return self.cache[key]


class Result(dict):
    """viol: None or [class, message]; known: list of [finding id, message]; stats; sig; digest"""
    __getattr__ = dict.get


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v


# ---- worker ---------------------------------------------------------------------------------------------------

def worker_main(prop):
    """Reads jobs (json lines) from stdin, writes results to the original stdout."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    base.import_code()
    from . import checks
    gc.collect()
    gc.freeze()
    gc.disable()
    zygote = Zygote()
    top = tempfile.mkdtemp(prefix='w', dir=sys.stdin.readline().rstrip('\n'))
    os.chdir(top)
    ctx = None
    check = checks.all_checks()[prop]()
    for line in sys.stdin:
        job = json.loads(line)
        if ctx is None or (ctx.seed, ctx.tier) != (job['seed'], job['tier']):
            ctx = Ctx(job['seed'], job['tier'], top, zygote)
        res = dict(job=job)
        try:
            t0 = time.time()
            plan = job.get('plan')
            if plan is not None and 'regen' in plan:
                job['idx'], plan = plan['regen'], None
            if plan is None:
                rng = base.rng_for(job['seed'], prop, job['idx'])
                plan = check.gen(rng, job['idx'], ctx)
            plan = json.loads(json.dumps(plan, default=str))        # the same objects in the search and in a replay
            r = check.run(plan, ctx)
            res.update(r)
            if r.get('viol') or r.get('known') or job.get('want_plan'):
                res['plan'] = r.get('plan') or plan
            else:
                res.pop('plan', None)
            res['t'] = time.time() - t0
        except NoProgress as e:
            res['viol'] = ['no progress', str(e)]
            res['plan'] = plan if plan is not None else dict(regen=job['idx'])
        except BaseException:
            res['error'] = traceback.format_exc()
            res['plan'] = plan
        out.write(json.dumps(res, default=str) + '\n')
        out.flush()


class Worker(object):
    def __init__(self, prop, hashseed, rundir, preload=None):
        # a fixed environment: it is part of the memory the simulated processes start with
        env = {k: os.environ[k] for k in ('VERIF_REPO', 'VERIF_STDERR') if k in os.environ}
        env.update(PATH='/usr/bin:/bin', PYTHONHASHSEED=str(hashseed), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8',
                   MPLBACKEND='Agg', PYTHONMALLOC='pymalloc', PYTHONWARNINGS='ignore', HOME='/nonexistent')
        if preload:
            env['LD_PRELOAD'] = preload
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(base.VERIF, 'sim', 'main.py'), '--worker', prop],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/',
                                  start_new_session=True)
        self.p.stdin.write(rundir.encode() + b'\n')
        self.p.stdin.flush()
        self.buf = b''
        self.busy = 0

    def send(self, job):
        self.p.stdin.write((json.dumps(job) + '\n').encode())
        self.p.stdin.flush()
        self.busy += 1

    def read_ready(self):
        b = os.read(self.p.stdout.fileno(), 1 << 20)
        if not b:
            raise HarnessError('a worker process ended')
        self.buf += b
        out = []
        while b'\n' in self.buf:
            line, self.buf = self.buf.split(b'\n', 1)
            out.append(json.loads(line))
            self.busy -= 1
        return out

    def call(self, job, timeout=700):
        self.send(job)
        end = time.time() + timeout
        while time.time() < end:
            rd, _, _ = select.select([self.p.stdout], [], [], 1)
            if rd:
                o = self.read_ready()
                if o:
                    return o[0]
        raise HarnessError('worker timeout')

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


class Pool(object):
    N = 8

    def __init__(self, check, n=None, seeds=None):
        self.check = check
        self.rundir = tempfile.mkdtemp(prefix='msim-', dir=base.SCRATCH)
        n = n or self.N
        pre = None
        if check.preload:
            from . import shim
            pre = shim.build(self.rundir)
        self.w = [Worker(check.id, k if check.hashseeds else 0, self.rundir, pre) for k in (seeds or range(n))]

    def close(self):
        for w in self.w:
            w.stop()
        shutil.rmtree(self.rundir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def batch(pool, check, seed, tier, count, wall, on_result, start=0):
    """Runs indices start..start+count over the workers; index i always runs on worker i % n (and, for checks that
    compare interpreters, also on the next one). Stops handing out work after the wall limit."""
    n = len(pool.w)
    queues = [[] for _ in range(n)]
    for i in range(start, start + count):
        queues[i % n].append((i, 0))
        if check.hashseeds:
            queues[(i + 1) % n].append((i, 1))
        elif i % 37 == 5:
            queues[(i + 3) % n].append((i, 1))          # determinism sample: the same run on another worker
    for q in queues:
        q.sort()
        q.reverse()
    t0 = time.time()
    stopped = False
    for k, w in enumerate(pool.w):
        for _ in range(2):
            if queues[k]:
                i, rep = queues[k].pop()
                w.send(dict(seed=seed, tier=tier, idx=i, rep=rep))
    last = time.time()
    while any(w.busy for w in pool.w):
        rd, _, _ = select.select([w.p.stdout for w in pool.w if w.busy], [], [], 5)
        if not rd and time.time() - last > 600:
            raise HarnessError('no result from the workers for 600 s')
        for k, w in enumerate(pool.w):
            if w.p.stdout in rd:
                last = time.time()
                for res in w.read_ready():
                    if on_result(res):
                        stopped = True
                    if time.time() - t0 > wall:
                        stopped = True
                    if queues[k] and not stopped:
                        i, rep = queues[k].pop()
                        w.send(dict(seed=seed, tier=tier, idx=i, rep=rep))
    return not stopped


# ---- minimisation -------------------------------------------------------------------------------------------------

def evaluate(workers, check, seed, tier, idx, plan):
    """the result of one plan; with two workers also compared between their interpreters"""
    rs = [w.call(dict(seed=seed, tier=tier, idx=idx, rep=0, plan=plan)) for w in workers]
    res = rs[0]
    for r in rs:
        if r.get('error'):
            return r
        if r.get('viol') and not res.get('viol'):
            res = r
    if not res.get('viol') and len(rs) == 2 and res.get('canon') is not None:
        m = check.compare(rs[0]['canon'], rs[1]['canon'])
        if m:
            res['viol'] = ['interpreters', m]
    return res


def minimise(workers, check, seed, tier, plan, cls, budget=60, limit=400):
    """Greedy: keep a smaller plan whenever it still shows the same class of violation."""
    end = time.time() + budget
    tried = 0
    best = plan
    msg = None
    progress = True
    while progress and time.time() < end and tried < limit:
        progress = False
        for cand in check.shrinks(best):
            if time.time() > end or tried >= limit:
                break
            tried += 1
            res = evaluate(workers, check, seed, tier, -1, cand)
            if res.get('viol') and res['viol'][0] == cls:
                best = res.get('plan') or cand
                msg = res['viol'][1]
                progress = True
                break
    return best, msg, tried


def drop_each(lst, chunk_first=True):
    """smaller versions of a list: halves first, then single elements from the end"""
    n = len(lst)
    if n > 3 and chunk_first:
        yield lst[:n//2]
        yield lst[n//2:]
    for i in range(n - 1, -1, -1):
        yield lst[:i] + lst[i+1:]


# ---- the command ---------------------------------------------------------------------------------------------------

def known_findings():
    p = os.path.join(base.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def run_check(check, tier, seed, log=print):
    t0 = time.time()
    conf = check.budget[tier]
    stats, sigs, digests, samples = {}, set(), {}, []
    state = dict(viol=None, known={}, errors=[], runs=0, nondet=None, nontrivial=set(), mism=0, reps=0)

    def on_result(res):
        job = res['job']
        if res.get('error'):
            state['errors'].append((job['idx'], res['error']))
            return True
        if job['rep']:
            state['reps'] += 1
        else:
            state['runs'] += 1
            merge(stats, res.get('stats') or {})
            if res.get('sig'):
                sigs.add(res['sig'])
                if res.get('nontrivial', True):
                    state['nontrivial'].add(res['sig'])
            if res.get('sample') is not None and len(samples) < 6:
                samples.append(res['sample'])
        d = digests.setdefault(job['idx'], {})
        d[job['rep']] = res.get('digest')
        if len(d) == 2 and d[0] != d[1]:
            state['mism'] += 1
            state['nondet'] = job['idx']
        for f, m in res.get('known') or []:
            state['known'].setdefault(f, []).append(m)
        if check.hashseeds and res.get('canon') is not None:
            c = canon.setdefault(job['idx'], {})
            c[job['rep']] = (res['canon'], res.get('plan'))
            if len(c) == 2:
                m = check.compare(c[0][0], c[1][0])
                if m and state['viol'] is None:
                    state['viol'] = (job['idx'], ['interpreters', m], c[0][1] or c[1][1])
                    return True
                canon.pop(job['idx'])
        if res.get('viol') and (state['viol'] is None or job['idx'] < state['viol'][0]):
            state['viol'] = (job['idx'], res['viol'], res.get('plan'))
            return True
        return state['viol'] is not None

    canon = {}
    rc = 0
    with Pool(check) as pool:
        wall = conf['wall']
        complete = batch(pool, check, seed, tier, conf['runs'], wall, on_result)
        explored = time.time() - t0
        if state['viol'] is not None:
            idx, viol, plan = state['viol']
            log('run %d of seed %d: %s: %s' % (idx, seed, viol[0], viol[1]))
            n = len(pool.w)
            pair = [idx % n, (idx + 1) % n] if check.hashseeds else [0]
            ws = [pool.w[k] for k in pair]
            if plan is None:
                plan = ws[0].call(dict(seed=seed, tier=tier, idx=idx, rep=0, want_plan=True))['plan']
            best, msg, tried = plan, viol[1], 0
            try:
                again = evaluate(ws, check, seed, tier, idx, plan)
                if again.get('viol') and again['viol'][0] == 'no progress':
                    viol = again['viol']
                elif again.get('viol'):
                    cls = again['viol'][0]
                    best, m2, tried = minimise(ws, check, seed, tier, again.get('plan') or plan, cls,
                                               budget=conf.get('min', 40))
                    msg = m2 or again['viol'][1]
                    viol = [cls, msg]
                else:
                    log('note: the violation did not show again when the recorded run was repeated')
            except HarnessError as e:
                log('note: minimisation stopped: %s' % e)
            path = write_replay(check, seed, idx, viol, best, tried, pair)
            log('VIOLATION property=%s replay=%s' % (check.id, path))
            log('  %s: %s' % (viol[0], msg))
            rc = 1
    if rc == 0 and state['errors']:
        for i, e in state['errors'][:3]:
            log('harness error in run %s:\n%s' % (i, e))
        rc = 2
    if state['mism'] and not check.hashseeds:
        log('note: run %s differed when repeated (see determinism_mismatches)' % state['nondet'])
    listed = {f['id']: f for f in known_findings() if f['property'] == check.id}
    for f in sorted(state['known']):
        if f not in listed:
            log('harness error: finding %s is not listed' % f)
            rc = rc or 2
        elif rc == 0:
            log('KNOWN-FINDING: property=%s %s (%d runs)' % (check.id, listed[f]['what'], len(state['known'][f])))
    wall_s = time.time() - t0
    runs = state['runs']
    cov = dict(evaluations=runs, distinct_nontrivial=len(state['nontrivial']), rule=check.rule, samples=samples,
               runs_per_hour=int(runs/max(explored, 1e-9)*3600), distinct_signatures=len(sigs),
               determinism_reruns=state['reps'], determinism_mismatches=state['mism'],
               batch_completed=complete, workers=Pool.N, real_components=check.real, stub_components=check.stub,
               known_findings={k: len(v) for k, v in state['known'].items()})
    cov.update({k: v for k, v in stats.items()})
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level, coverage=cov, wall_s=round(wall_s, 2),
              assumptions=check.assumptions, violations=1 if rc == 1 else 0)
    os.makedirs(os.path.join(base.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(base.VERIF, 'evidence', check.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    log('%s %s: %d runs, %d distinct non-trivial, %.1f s, exit %d' % (check.id, tier, runs, len(state['nontrivial']),
                                                                     wall_s, rc))
    return rc


def write_replay(check, seed, idx, viol, plan, tried, pair):
    d = os.path.join(base.VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-seed%d-run%d.json' % (check.id, seed, idx))
    with open(p, 'w') as f:
        json.dump(dict(property=check.id, seed=seed, run=idx, violation=viol, minimisation_steps=tried, hash_seeds=pair,
                       plan=plan), f,
                  indent=1, default=str)
    return p


def replay(check, path, log=print):
    doc = json.load(open(path))
    with Pool(check, seeds=doc.get('hash_seeds') or [0]) as pool:
        res = evaluate(pool.w, check, doc['seed'], 'quick', doc['run'], doc['plan'])
    if res.get('error'):
        log(res['error'])
        return 2
    v = res.get('viol')
    if v:
        log('%s: %s' % (v[0], v[1]))
        log('recorded: %s: %s' % tuple(doc['violation']))
        log('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    log('the replay file does not reproduce a violation on this tree')
    return 0


def clone(x):
    return copy.deepcopy(x)
