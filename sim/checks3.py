"""Storage: reading decks and printing files while the (simulated) storage fails, tears writes or the process dies."""
import os
import pickle
import re
import random
import shutil

from . import base, engine, interp, prints, shim, world
from .checks import Check
from .runner import clone, drop_each

READ_FAULTS = {
    'open': [('errno', e) for e in ('EIO', 'EMFILE', 'ENFILE', 'EACCES', 'ENOENT', 'ESTALE', 'ENOMEM')] + [('eintr', 0)]*2,
    'read': [('errno', 'EIO'), ('errno', 'EIO'), ('errno', 'ESTALE'), ('errno', 'ENOMEM')] + [('eintr', 0), ('short', None)]*3,
    'close': [('errno', 'EIO'), ('errno', 'ESTALE')],
    'fstat': [('errno', 'EIO'), ('errno', 'ENOMEM'), ('errno', 'ESTALE')],
    'stat': [('errno', 'EIO'), ('errno', 'EACCES'), ('errno', 'ENOENT'), ('errno', 'ENOMEM')],
    'lseek': [('errno', 'EIO'), ('errno', 'ESPIPE')],
}
WRITE_FAULTS = {
    'open': [('errno', e) for e in ('EIO', 'EMFILE', 'EACCES', 'ENOSPC', 'EROFS', 'EDQUOT', 'EISDIR')] + [('eintr', 0)]*2 +
            [('kill_before', 0), ('kill_after', 0)],
    'write': [('errno', e) for e in ('EIO', 'ENOSPC', 'EDQUOT', 'EFBIG')] + [('partial_errno', 'ENOSPC'), ('partial_errno', 'EIO')] +
             [('eintr', 0), ('short', None), ('short', None)] + [('kill_before', 0), ('kill_after', 0), ('torn_kill', None)],
    'close': [('lost_close', e) for e in ('EIO', 'ENOSPC', 'EDQUOT')]*2 + [('kill_before', 0), ('kill_after', 0)],
    'fstat': [('errno', 'EIO'), ('errno', 'ENOMEM')],
    'lseek': [('errno', 'EIO'), ('kill_before', 0)],
    'rename': [('errno', 'EIO'), ('errno', 'EACCES'), ('errno', 'ENOSPC'), ('kill_before', 0), ('kill_after', 0)],
    'unlink': [('errno', 'EIO'), ('errno', 'EACCES'), ('kill_before', 0), ('kill_after', 0)],
    'fsync': [('errno', 'EIO'), ('errno', 'ENOSPC'), ('kill_before', 0)],
    'truncate': [('errno', 'EIO'), ('kill_before', 0), ('kill_after', 0)],
    'stat': [('errno', 'EIO'), ('errno', 'EACCES'), ('kill_before', 0)],
    'read': [('errno', 'EIO'), ('eintr', 0), ('short', None)],
}
TRANSPARENT = ('eintr', 'short')


def pick_script(rng, events, table, n, kill=0.):
    """faults at events of a healthy run: uniform over the kinds of event, then first, last or any occurrence"""
    occ = {}
    for i, (kind, _) in enumerate(events):
        if kind in table:
            occ.setdefault(kind, []).append(i)
    out = {}
    for _ in range(n):
        if not occ:
            break
        kind = rng.choice(sorted(occ))
        o = occ[kind]
        r = rng.random()
        i = o[0] if r < 0.3 else o[-1] if r < 0.5 else rng.choice(o)
        if rng.random() < kill:
            act, arg = rng.choice(['kill_before', 'kill_after']), 0
        else:
            act, arg = rng.choice(table[kind])
        if arg is None:
            arg = rng.choice([0, 1, 2, 7, 80, rng.randrange(1, 5000)])
        out[i] = [i, act, arg]
        if rng.random() < 0.25 and act not in ('kill_before', 'kill_after', 'torn_kill'):   # it keeps failing
            for j in range(i + 1, i + rng.choice([2, 4, 30])):
                if j < len(events) and events[j][0] == kind:
                    out[j] = [j, act, arg]
    return [out[i] for i in sorted(out)][:60]


def tree(root):
    """{relative name: content} of everything below a directory"""
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read()
        for f in dirs:
            out[os.path.relpath(os.path.join(d, f), root) + '/'] = None
    return out


def changed(a, b, but=()):
    return sorted(k for k in set(a) | set(b) if k not in but and a.get(k, 0) != b.get(k, 0))


def processes(plan, ctx, where, child):
    """runs the processes of a plan one after the other on the same storage; the records survive a crash"""
    recs = []
    for t in range(len(plan['tasks'])):
        log = os.path.join(where, 'log%d' % t)
        out = ctx.fork(child, plan, where, t, log, expect_death=True)
        done = []
        if os.path.exists(log):
            with open(log, 'rb') as f:
                while True:
                    try:
                        done.append(pickle.load(f))
                    except EOFError:
                        break
        started = [d for d in done if 'start' in d]
        ended = [d for d in done if 'start' not in d]
        recs += ended
        if isinstance(out, tuple) and out[0] == 'died':
            code = os.waitstatus_to_exitcode(out[1])
            if code != shim.DEAD or len(started) != len(ended) + 1:
                raise base.HarnessError('process ended with %s' % code)
            s = started[-1]
            recs.append(dict(t=t, k=s['start'], op=s['op'], exc=None, out=None, bad=[], died=True, before=s['before'],
                             after=tree(os.path.join(where, 'store'))))
    return recs


def errors(op, rec):
    """the faults that struck and that the code cannot hide (interrupted calls are only retried for open, read, write)"""
    out = []
    for i in rec.get('hits') or []:
        at, act, arg = op['script'][i]
        kind = rec['kinds'][at]
        if act == 'short' or (act == 'eintr' and kind in ('open', 'read', 'write')):
            continue
        out.append([kind, act, arg])
    return out


class Log(object):
    def __init__(self, path):
        self.f = open(path, 'wb', buffering=0)

    def __call__(self, d):
        self.f.write(pickle.dumps(d, protocol=4))


class Stored(Check):
    preload = True
    level = 'fault_enumeration'
    stub = ['storage: files are real, in a scratch directory, behind an interposed libc layer that decides every call\'s outcome']

    def run(self, plan, ctx):
        where = ctx.newdir()
        try:
            os.mkdir(os.path.join(where, 'store'))
            recs = processes(plan, ctx, where, self.child)
            viol, extra = self.judge(plan, recs, ctx, where)
            info = dict(steps=sum(r.get('events', 0) for r in recs), switches=[], fired=[], abort=None)
            for r in recs:
                info['switches'] += r.get('switches', [])
                if r.get('switches') is not None and r.get('par'):
                    info['steps'] += r['steps']
            return self.result(plan, recs, info, viol, extra)
        finally:
            shutil.rmtree(where, ignore_errors=True)

    def fine(self, op):
        return op and [op.get(k) for k in ('dir', 'how', 'script', 'fn', 'name', 'spec', 'old', 'size')]

    def sample(self, plan):
        return [[{k: v for k, v in op.items() if k not in ('mat', 'tasks')} for op in ops] for ops in plan['tasks']]

    def shrinks(self, plan):
        for i in range(len(plan['tasks'])):
            if len(plan['tasks']) > 1:
                p = clone(plan)
                del p['tasks'][i]
                yield p
        for p in Check.shrinks(self, plan):
            yield p
        for t, ops in enumerate(plan['tasks']):
            for k, op in enumerate(ops):
                if op.get('script'):
                    for l in drop_each(op['script']):
                        p = clone(plan)
                        p['tasks'][t][k]['script'] = l
                        yield p

    def count(self, extra, op, rec):
        st = extra['stats']
        if rec.get('died'):
            st['faults_injected']['process crash'] = st['faults_injected'].get('process crash', 0) + 1
        for i in rec.get('hits', []) or []:
            at, act, arg = op['script'][i]
            kind = rec['kinds'][at] if at < len(rec['kinds']) else '?'
            key = '%s:%s' % (kind, act if act in TRANSPARENT else '%s %s' % (act, arg) if isinstance(arg, str) else act)
            st['faults_injected'][key] = st['faults_injected'].get(key, 0) + 1
        st['io_events'] += rec.get('events', 0)


# =====================================================================================================================
class C07(Stored):
    id = 'C07'
    rule = ('A run = 1-3 processes reading 1-2 decks (1-4 files each, included files nested; also shells, several parts, coincident '
            'points and triangles without area) 2-8 times, by absolute and relative '
            'paths, with 0-3 storage faults per read (errors of open, read, seek, stat, fstat, close, short and interrupted '
            'reads, process crashes; once or repeatedly) placed over the I/O calls of the healthy read, decks being rewritten '
            'in between, also with unchanged size and time stamp. Non-trivial: at least one fault struck or a deck was '
            'rewritten. Distinct: by operations with their fault scripts.')
    assumptions = ['a read that returns fewer bytes at the end of the file than the file has is not injected: it is '
                   'indistinguishable from a shorter deck',
                   'fault points: uniform over kinds of I/O call, then over occurrences (first, last, any)']
    budget = {'quick': dict(runs=1600, wall=150), 'thorough': dict(runs=40000, wall=700)}

    def gen(self, rng, idx, ctx):
        plan = dict(specs=[], tasks=[], lams=[], setup=[])
        nd = rng.choice([1, 1, 2])
        holds = {}
        for d in range(nd):
            plan['specs'].append(world.gen_mesh(rng, src='deck', size=rng.choice(['tiny']*6 + [None]*4 + ['big'])))
            if rng.random() < 0.5:
                plan['specs'][-1]['deck']['include'] = rng.choice([1, 2, 3])
            if rng.random() < 0.25:
                self.odd(rng, plan['specs'][-1])
            holds[d] = len(plan['specs']) - 1
        ops = [dict(op='write', dir=d, spec=holds[d]) for d in range(nd)]
        n = rng.choice([2, 3, 4, 6])
        for _ in range(n):
            d = rng.randrange(nd)
            if rng.random() < 0.3:
                s = clone(plan['specs'][holds[d]])
                what = rng.choice(['scale', 'scale', 'pids', 'other', 'order'])
                if what == 'scale':
                    f = rng.choice([0.5, 2., 1.25, 0.8])
                    s['pts'] = [[f*v for v in p] for p in s['pts']]
                    if s['deck']['orphans']:
                        what = 'other'
                elif what == 'pids':
                    r = random.Random(rng.randrange(2**31))
                    s['deck']['pids'] = [r.randint(1, s['deck']['npid']) for _ in s['deck']['pids']]
                elif what == 'order':
                    rng.shuffle(s['deck']['eorder'])
                    s['tris'] = [t[1:] + t[:1] for t in s['tris']]
                if what == 'other':
                    s = world.gen_mesh(rng, src='deck', size='tiny')
                plan['specs'].append(s)
                holds[d] = len(plan['specs']) - 1
                ops.append(dict(op='write', dir=d, spec=holds[d], old=rng.random() < 0.6))
            how = rng.choice(['abs', 'rel', 'cwd', 'cwd'])
            op = dict(op='read', dir=d, how=how, script=[])
            if rng.random() < 0.75:
                ev = self.profile(ctx, plan['specs'][holds[d]], how)
                nf = rng.choice([1, 1, 2, 3])
                op['script'] = pick_script(rng, ev, READ_FAULTS, nf, 0.04)
            ops.append(op)
            if op['script'] and rng.random() < 0.7:
                ops.append(dict(op='read', dir=d, how=rng.choice([how, how, 'abs', 'rel', 'cwd']), script=[]))
        plan['tasks'] = [ops]
        if rng.random() < 0.25:
            k = rng.randrange(1, len(ops))
            plan['tasks'] = [ops[:k], ops[k:]]
        plan['tasks'].append([dict(op='read', dir=d, how=rng.choice(['abs', 'rel', 'cwd']), script=[]) for d in range(nd)])
        return plan

    @staticmethod
    def odd(rng, s):
        """meshes that are read as they are, however odd they look"""
        pts, tris = s['pts'], s['tris']
        for what in rng.sample(['same', 'near', 'flat', 'shell', 'scale', 'parts'], rng.choice([1, 1, 2])):
            if what in ('same', 'near'):                        # grid points in the same place, or nearly
                e = 0. if what == 'same' else rng.choice([1e-4, 1e-3, 5e-3])
                i, j = rng.sample(range(len(pts)), 2)
                pts[i] = [round(pts[j][0] + e, 4)] + list(pts[j][1:])
            elif what == 'flat':                                # a triangle without area
                a, b, c = rng.choice(tris)
                f = rng.choice([0.5, 0.25, 1., 2.])
                pts[c] = [pts[a][k] + f*(pts[b][k] - pts[a][k]) for k in range(len(pts[a]))]
            elif what == 'shell':
                s['pts'] = pts = [list(p[:2]) + [round(rng.uniform(-2, 2), 3)] for p in pts]
            elif what == 'scale':
                f = rng.choice([1e-3, 0.01, 1e3])
                s['pts'] = pts = [[f*v for v in p] for p in pts]
            elif not s['deck']['orphans']:                      # a second part that shares no node with the first
                n, m, d = len(pts), len(tris), s['deck']
                free = [k for k in range(1, 4*(n + m)) if k not in d['nids'] and k not in d['eids']]
                pts += [[v + 40*(k == 0) for k, v in enumerate(p)] for p in pts]
                tris += [[k + n for k in t] for t in tris]
                d['nids'] += free[:n]
                d['eids'] += free[-m:]
                d['pids'] += d['pids']
                d['gorder'] += [k + n for k in d['gorder']]
                d['eorder'] += [k + m for k in d['eorder']]
                if 'cp' in d:
                    d['cp'] += d['cp']

    def profile(self, ctx, spec, how):
        where = ctx.newdir()
        try:
            os.mkdir(os.path.join(where, 'store'))
            plan = dict(specs=[spec], tasks=[[dict(op='write', dir=0, spec=0), dict(op='read', dir=0, how=how, script=[])]])
            recs = processes(plan, ctx, where, child_read)
            return [[k, 0] for k in recs[-1]['kinds']]
        finally:
            shutil.rmtree(where, ignore_errors=True)

    @staticmethod
    def child(*a):
        return child_read(*a)

    def judge(self, plan, recs, ctx, where):
        extra = dict(stats=dict(faults_injected={}, io_events=0, reads=0, reads_raised=0, reads_under_fault_exact=0),
                     nontrivial=False)
        holds = {}
        for r in recs:
            op = plan['tasks'][r['t']][r['k']]
            what = 'read %d of process %d' % (r['k'], r['t'])
            if op['op'] == 'write':
                holds[op['dir']] = op['spec']
                if op.get('old') is not None:
                    extra['nontrivial'] = True
                continue
            self.count(extra, op, r)
            c = changed(r['before'], r['after'])
            if r['exc'] or r.get('died'):
                # a failed read may leave a diagnostic dump of the deck reader (pyNastran_crash.bdf)
                c = [f for f in c if f in r['before'] and not f.endswith('pyNastran_crash.bdf')]
            if c:
                return ['files changed', '%s: %s' % (what, c[:3])], extra
            if r.get('died'):
                extra['nontrivial'] = True
                continue
            if op['dir'] not in holds:
                continue
            extra['stats']['reads'] += 1
            fired = r['hits']
            hard = errors(op, r)
            if fired:
                extra['nontrivial'] = True
            if r['exc'] is None:
                if r['conn']:
                    cls = 'wrong mesh returned'
                    return [cls, '%s: %s%s' % (what, r['conn'], '; faults %s' % hard if hard else '')], extra
                if r['open']:
                    return ['file left open', '%s: %d' % (what, r['open'])], extra
                if fired:
                    extra['stats']['reads_under_fault_exact'] += 1
            else:
                extra['stats']['reads_raised'] += 1
                if not hard:
                    return ['read raised', '%s raised %s without an error of the storage (%s)' % (what, r['exc'],
                                                                                                op['script'])], extra
        return None, extra


def child_read(plan, where, t, log):
    from meshless.espim.read_mesh import read_mesh
    store = os.path.join(where, 'store')
    log = Log(log)
    holds = {}
    keep = []
    noted = os.path.join(where, 'holds')            # which deck a directory holds, from the earlier processes
    if os.path.exists(noted):
        with open(noted, 'rb') as f:
            holds = pickle.load(f)
    for k, op in enumerate(plan['tasks'][t]):
        d = os.path.join(store, 'd%d' % op['dir'])
        rec = dict(t=t, k=k, op=op['op'], exc=None, out=None, bad=[])
        if op['op'] == 'write':
            stamps = {}
            if os.path.isdir(d):
                for f in os.listdir(d):
                    st = os.stat(os.path.join(d, f))
                    stamps[f] = (st.st_atime_ns, st.st_mtime_ns)
                    os.unlink(os.path.join(d, f))
            world.write_deck(plan['specs'][op['spec']], d)
            if op.get('old'):
                for f, s in stamps.items():
                    if os.path.exists(os.path.join(d, f)):
                        os.utime(os.path.join(d, f), ns=s)
            holds[op['dir']] = op['spec']
            with open(noted, 'wb') as f:
                pickle.dump(holds, f)
            log(dict(start=k, op=op['op'], before=None))
            log(rec)
            continue
        if op['how'] == 'cwd' and os.path.isdir(d):
            os.chdir(d)
            path = 'main.bdf'
        else:
            os.chdir(store)
            path = os.path.join(d, 'main.bdf') if op['how'] == 'abs' else 'd%d/main.bdf' % op['dir']
        rec['before'] = tree(store)
        log(dict(start=k, op=op['op'], before=rec['before']))
        st = shim.Storage(store, op['script'])
        mesh = None
        try:
            with st:
                mesh = read_mesh(path)
        except BaseException as e:
            rec['exc'] = [type(e).__name__, str(e)[:160]]
        rec['open'] = st.open_files
        rec['after'] = tree(store)
        rec['events'] = len(st.events)
        rec['kinds'] = [e[0] for e in st.events]
        rec['hits'] = st.fired
        if rec['exc'] is None and op['dir'] in holds:
            try:
                rec['conn'] = world.check_topology(mesh, plan['specs'][holds[op['dir']]])
            except Exception as e:
                rec['conn'] = 'incomplete: %r' % (e,)
            rec['out'] = 'ok'
            keep.append(mesh)
        log(rec)
    return None


# =====================================================================================================================
class C08(Stored):
    id = 'C08'
    rule = ('A run = 1-3 processes making 3-10 printing calls (with and without file) in 1-2 directories over earlier, torn, longer, '
            'damaged (same size and time stamp) or foreign files, each with 0-3 storage faults (errors of open, write, seek, fstat; full disk; partial, short, '
            'interrupted and torn writes; data lost at close; process crash before, after and inside a write), some interrupted '
            'at a statement, some from two simulated threads; the last process repeats the calls on healthy storage. '
            'Non-trivial: a fault struck or a file existed before. Distinct: by operations with their fault scripts.')
    assumptions = ['crashes are process crashes: what write() accepted survives; power loss is not claimed (the code never syncs)',
                   'a failing close loses what the last write delivered (delayed allocation, NFS)']
    budget = {'quick': dict(runs=900, wall=150), 'thorough': dict(runs=20000, wall=700)}

    def gen(self, rng, idx, ctx):
        plan = dict(specs=[], tasks=[], lams=[], setup=[])
        ops = []
        names = rng.sample(prints.NAMES, 3)
        nd = rng.choice([1, 1, 2])
        d = 0
        calls = []
        for _ in range(rng.choice([1, 2, 3])):
            op = prints.gen_print(rng, name=rng.choice(names), file=rng.random() < 0.85)
            if rng.random() < 0.3:
                op['kw']['header'] = '# ' + 'long header '*rng.choice([400, 1000, 6000])
            if rng.random() < 0.2:
                op['kw'].pop('print_file')      # the default
            calls.append(op)
        n = rng.choice([3, 5, 8])
        while len(ops) < n:
            r = rng.random()
            if r < 0.12 and nd > 1:
                d = 1 - d
                ops.append(dict(op='chdir', dir=d))
            elif r < 0.27:
                c = rng.choice(calls)
                fn = prints.filename(c) if rng.random() < 0.75 else 'print_%s.txt' % rng.choice(names + ['k0_s1', 'other'])
                ops.append(dict(op='file', name=fn, size=rng.choice([0, 1, 50, 9000, 60000]), seed=rng.randrange(99)))
            elif r < 0.36:
                ops.append(self.par(rng, names))
            else:
                op = clone(rng.choice(calls))
                if rng.random() < 0.2:
                    op['name'] = rng.choice(names)
                if rng.random() < 0.6 and op['kw'].get('print_file', True):
                    op['script'] = self.script(rng, self.profile(ctx, op))
                elif rng.random() < 0.12:
                    op['fault'] = dict(kind='line', n=int(10**rng.uniform(0, 2)),
                                       exc=rng.choice(['KeyboardInterrupt', 'MemoryError']))
                ops.append(op)
                if (op.get('script') or op.get('fault')) and rng.random() < 0.7:
                    again = clone(op)
                    again.pop('script', None)
                    again.pop('fault', None)
                    ops.append(again)
                elif op['kw'].get('print_file', True) and rng.random() < 0.3:
                    # the file is damaged behind the library's back, its size and time stamp possibly unchanged
                    ops.append(dict(op='file', name=prints.filename(op), how=rng.choice(DAMAGE), seed=rng.randrange(99), size=0,
                                    old=rng.choice([None, None, 'same', 'newer'])))
                    again = clone(op)
                    again.pop('script', None)
                    again.pop('fault', None)
                    ops.append(again)
        plan['tasks'] = [ops]
        if rng.random() < 0.3:
            k = rng.randrange(1, len(ops))
            plan['tasks'] = [ops[:k], ops[k:]]
        last = []
        seen = set()
        for op in calls:
            if rng.random() < 0.8:
                op = clone(op)
                if prints.filename(op) not in seen:
                    seen.add(prints.filename(op))
                    last.append(op)
        if last:
            plan['tasks'].append(last)
        for t, o in enumerate(plan['tasks']):
            for k, op in enumerate(o):
                op['id'] = 100*t + k
        return plan

    def profile(self, ctx, op):
        """the I/O calls of the healthy printing call"""
        def make():
            where = ctx.newdir()
            try:
                os.mkdir(os.path.join(where, 'store'))
                p = dict(specs=[], lams=[], tasks=[[{k: v for k, v in op.items() if k != 'script'}]])
                return [[k, 1] for k in processes(p, ctx, where, child_print)[-1]['kinds']]
            finally:
                shutil.rmtree(where, ignore_errors=True)
        return ctx.cached(['events', op['fn'], op['mat'], op['kw'], op['name'], op.get('subs'), op.get('collect')], make)

    def script(self, rng, ev):
        s = pick_script(rng, ev, WRITE_FAULTS, rng.choice([1, 1, 1, 2, 3]))
        if ev and any(a in ('short', 'eintr') for _, a, _ in s) and rng.random() < 0.6:
            # a retried write makes a further event
            s.append([len(ev) - 1] + list(rng.choice([('errno', 'ENOSPC'), ('short', 3), ('eintr', 0), ('torn_kill', 5)])))
            s = sorted({x[0]: x for x in s}.values())
        return s

    def par(self, rng, names):
        tasks = []
        used = set()
        for t in range(2):
            ops = []
            for _ in range(rng.choice([1, 2])):
                op = prints.gen_print(rng, name=names[t], file=True)
                op['id'] = 1000 + 10*t + len(ops)
                ops.append(op)
            tasks.append(ops)
        return dict(op='par', tasks=tasks, seed=rng.randrange(2**31), policy=dict(kind='random', p=rng.choice([0.01, 0.05, 0.3]), pnew=0.2))

    @staticmethod
    def child(*a):
        return child_print(*a)

    def text(self, op, ctx):
        return ctx.cached(['print', op['fn'], op['mat'], op.get('kw'), op['name'], op.get('subs'), op.get('collect')],
                          lambda: ctx.fork(prints.solo, op))

    def judge(self, plan, recs, ctx, where):
        extra = dict(stats=dict(faults_injected={}, io_events=0, calls_returned=0, calls_raised=0, files_checked=0,
                                concurrent_sections=0), nontrivial=False)
        cwd = {}
        debris = set()
        for r in recs:
            op = plan['tasks'][r['t']][r['k']]
            if op['op'] == 'chdir':
                cwd[r['t']] = op['dir']
                continue
            if op['op'] == 'file':
                extra['nontrivial'] = True
                continue
            pre = 'd%d/' % cwd.get(r['t'], 0)
            if op['op'] == 'par':
                extra['stats']['concurrent_sections'] += 1
                if r.get('died'):
                    raise base.HarnessError('death in a concurrent section')
                if r['abort']:
                    return ['no progress', r['abort']], extra
                want = {}
                for q in r['par']:
                    o = op['tasks'][q['t']][q['k']]
                    exc, text = self.text(o, ctx)
                    if exc is not None:
                        continue
                    what = 'mprint_as_%s(%s) in thread %d' % (o['fn'], o['name'], q['t'])
                    if q['exc'] is not None:
                        return ['raised', '%s: %s' % (what, q['exc'])], extra
                    want[pre + prints.filename(o)] = q['out']
                for f, text in sorted(want.items()):
                    extra['stats']['files_checked'] += 1
                    if r['after'].get(f) != text.encode('utf-8'):
                        return ['file is not the returned text', '%s after concurrent printing: %s' % (
                            f, diff(r['after'].get(f), text))], extra
                maybe = set(pre + prints.filename(o) for ops in op['tasks'] for o in ops)
                c = changed(r['before'], r['after'], sorted(maybe) + sorted(debris))
                if c:
                    return ['other files changed', 'concurrent printing: %s' % c[:3]], extra
                continue
            self.count(extra, op, r)
            what = 'mprint_as_%s(%s), call %d of process %d' % (op['fn'], op['name'], r['k'], r['t'])
            mine = pre + prints.filename(op)
            wants = op['kw'].get('print_file', True)
            if r.get('hits') or r.get('died') or r.get('struck'):
                extra['nontrivial'] = True
            c = changed(r['before'], r['after'], ([mine] if wants else []) + sorted(debris))
            ok = not r.get('died') and r['exc'] is None
            if not ok and wants:
                # what a failed or killed call leaves behind (a temporary file, say) is its own business later on
                debris.update(x for x in c if x not in r['before'] and not re.search(r'(^|/)print_[^/]*\.txt$', x))
            if c and (ok or any(x in r['before'] for x in c) or not wants):
                return ['other files changed', '%s: %s' % (what, c[:3])], extra
            if r.get('died'):
                continue
            if ok:
                extra['stats']['calls_returned'] += 1
                if wants:
                    extra['stats']['files_checked'] += 1
                    if not isinstance(r['out'], str) or r['after'].get(mine) != r['out'].encode('utf-8'):
                        return ['file is not the returned text', '%s: %s%s' % (
                            what, diff(r['after'].get(mine), r['out']),
                            '; faults %s' % [op['script'][i] for i in r['hits']] if r.get('hits') else '')], extra
                continue
            extra['stats']['calls_raised'] += 1
            if not errors(op, r) and not r.get('struck'):
                exc, text = self.text(op, ctx)
                if exc is None:
                    return ['raised', '%s raised %s without an error of the storage' % (what, r['exc'])], extra
        return None, extra


DAMAGE = ['flip', 'swap', 'nul', 'longer', 'shorter', 'newline', 'empty']


def damage(data, how, r):
    if how == 'empty':
        return b''
    if how == 'nul':
        return bytes(len(data)//2) + data[len(data)//2:] if r.random() < 0.5 else bytes(len(data))
    if how == 'longer':
        return data + bytes(r.randrange(32, 127) for _ in range(r.choice([1, 100, 9000])))
    if how == 'newline':
        return data + b'\n'
    if not data:
        return b'x'
    k = r.randrange(len(data))
    if how == 'flip':
        return data[:k] + bytes([65 + (data[k] + 1) % 26]) + data[k + 1:]
    if how == 'swap':
        return data[k:] + data[:k]
    return data[:k]


def diff(data, text):
    if data is None:
        return 'no such file'
    if not isinstance(text, str):
        return 'returned %r' % type(text).__name__
    want = text.encode('utf-8')
    for i, (a, b) in enumerate(zip(data, want)):
        if a != b:
            return 'byte %d of %d differs, %d expected' % (i, len(data), len(want))
    return '%d bytes, %d expected' % (len(data), len(want))


def child_print(plan, where, t, log):
    store = os.path.join(where, 'store')
    log = Log(log)

    def go(d):
        os.makedirs(os.path.join(store, 'd%d' % d), exist_ok=True)
        os.chdir(os.path.join(store, 'd%d' % d))
    go(0)
    it = interp.Interp(dict(plan, tasks=[[]]), where, False)
    for k, op in enumerate(plan['tasks'][t]):
        rec = dict(t=t, k=k, op=op['op'], exc=None, out=None, bad=[])
        before = tree(store)
        log(dict(start=k, op=op['op'], before=before))
        if op['op'] == 'chdir':
            go(op['dir'])
        elif op['op'] == 'file':
            r = random.Random(op['seed'])
            was, st = b'', None
            if op.get('how') and os.path.isfile(op['name']):
                st = os.stat(op['name'])
                with open(op['name'], 'rb') as f:
                    was = f.read()
            with open(op['name'], 'wb') as f:
                f.write(damage(was, op['how'], r) if op.get('how') else bytes(r.randrange(32, 127) for _ in range(op['size'])))
            if st is not None and op.get('old'):
                plus = 10**9*(3600 if op['old'] == 'newer' else 0)
                os.utime(op['name'], ns=(st.st_atime_ns + plus, st.st_mtime_ns + plus))
        elif op['op'] == 'par':
            its = interp.Interp(dict(plan, tasks=op['tasks']), where, False)
            pol = engine.Policy(random.Random(op['seed']), op['policy'])
            sim = engine.Sim(policy=pol)
            sim.run([(lambda s, i, ops=ops: its.run_ops(ops, s, i)) for ops in op['tasks']])
            rec.update(par=its.recs, out=base.digest([q['out'] for q in its.recs]), abort=sim.abort, switches=sim.switches, steps=sim.step)
        else:
            st = shim.Storage(store, op.get('script') or [])
            box = []
            with st:
                if op.get('fault'):
                    sim = engine.Sim(switches=[])
                    sim.run([lambda s, i: box.append(it.exec(op, s, 0, 0))])
                else:
                    box.append(it.exec(op, None, 0, 0))
            q = box[0]
            rec.update(exc=q['exc'], out=q['out'], struck=bool(q.get('fired')))
            rec.update(events=len(st.events), kinds=[e[0] for e in st.events], hits=st.fired)
        rec['before'] = before
        rec['after'] = tree(store)
        log(rec)
    return None


ALL = (C07, C08)
