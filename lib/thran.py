"""Pipeline dispatchers: boot, dispatch, wait, halt and the worker loop are evaluated as ordered value graphs,
each against every party it talks to played by a stand-in (assume-guarantee): the host against workers that
pick their jobs up at once, late or in another order; the worker against a host that wakes it for a job, for
nothing and for the end."""
import random
import ckan, vg
from vg import P, Graph
from kern import sgn
from absev import Abs, Aborted
from proj import Broken

SLEEP, EXECUTE, TERMINATE, ACK = 0, 1, 2, 3
JOB = ('state', 'func', 'args', 'job', 'n_job', 'flag')


class Hang(Exception):
    pass


class T:
    """one process; which = 'thread' or 'serial'"""

    def __init__(self, mod, which, n, host, eager, seed):
        self.mod, self.n, self.host, self.eager = mod, n, host, eager
        self.rnd = random.Random(seed)
        g = Graph()
        m = self.m = ckan.CM(g, mod, 5 + seed, 0, 1, 2)
        self.base = m.stub
        self.ab = Abs(mod, m, self.stub, 1 << 12)
        self.gn = lambda k: m.rnd.h(3, vg.crc(k))
        gl = mod.globals.get(which)
        if gl is None or not gl.get('init'):
            raise Broken(f'dispatcher {which} not found')
        m.ginit(self.gn(which), gl['init'], gl['ty'])
        self.disp = mod.structs['pipeline_dispatcher']
        self.at = self.gn(which)
        self.me = m.rnd.h(971, 1)
        self.now = self.me
        self.workers = {}      # record -> {}
        self.order = []
        self.init = set()
        self.held = set()
        self.bad = []
        self.reg = []
        self.fail = None
        self.ran = []
        self.polls = 0
        self.dead = []
        self.mode = 'host'
        self.mgr = None
        self.argn = {}
        put = self.ab.put

        def note(pit, a, v, ity, e):
            put(pit, a, v, ity, e)
            self.wrote(a % P)
        self.ab.put = note
        self.which = which

    # -- helpers -----------------------------------------------------------
    def func(self, k):
        a = self.m.load((self.at + self.disp.off(k)) % P)
        n = self.m.fns.get(a)
        if n is None:
            raise Broken(f'{self.which}.{k} is no function')
        return self.mod.func(n)

    def np(self):
        return sgn(self.m.load((self.at + self.disp.off('n_pipeline')) % P))

    def ps(self, k):
        for n in ('pipeline_state', 'pipeline_state_t'):
            if n in self.mod.structs:
                return self.mod.structs[n].off(k)
        raise Broken('record of a worker not found')

    def f(self, w, k):
        return self.m.geti((w + self.ps(k)) % P)

    def setw(self, w, k, v):
        a = (w + self.ps(k)) % P
        self.m.mem[a] = v % P
        self.m.fty.pop(a, None)

    def issue(self, s):
        if s not in self.bad:
            self.bad.append(s)

    def go(self, k, *a):
        """error text or ''"""
        self.polls = 0
        self.mode = k
        try:
            self.ret = self.ab.call(self.func(k), [x % P for x in a])
            return ''
        except Aborted:
            return 'error exit'
        except Hang as x:
            return f'never returns ({x})'
        except Broken as x:
            if 'loop does not end' in str(x):
                return 'never returns'
            raise

    # -- the environment ---------------------------------------------------
    def wrote(self, a):
        if self.mode in ('dispatch', 'halt', 'mgr'):
            for w in self.order:
                for k in JOB:
                    if a == (w + self.ps(k)) % P and w not in self.held:
                        self.issue(f'the {k} of a worker is written without its lock')

    def who(self, a, k):
        """worker whose mutex or condition lies at a"""
        for w in self.order:
            if (w + self.ps(k)) % P == a:
                return w
        return None

    def work(self, w):
        """worker w wakes up: runs its job as the worker loop does"""
        if self.workers[w].get('tail'):
            self.workers[w]['tail'] -= 1
            if not self.workers[w]['tail']:
                self.setw(w, 'state', SLEEP)
            return False
        if self.f(w, 'state') != EXECUTE or w in self.held or not self.workers[w].get('sig'):
            return False
        self.workers[w]['sig'] = False
        fn, fl = self.f(w, 'func'), self.f(w, 'flag')
        self.workers[w]['todo'] = False
        if fn:
            self.ran.append((fn, self.f(w, 'args'), sgn(self.f(w, 'job')), sgn(self.f(w, 'n_job')), w))
        if fl:
            self.m.mem[fl] = 1
            self.m.fty.pop(fl, None)
        if not self.eager and self.rnd.random() < .6:
            self.workers[w]['tail'] = self.rnd.randrange(1, 6)     # done, but not asleep yet: its lock stays taken
        else:
            self.setw(w, 'state', SLEEP)
        return True

    def poll(self, why):
        self.polls += 1
        if self.polls > 200:
            raise Hang(why)

    def let(self):
        """some worker may run now"""
        ws = [w for w in self.order if w not in self.dead]
        self.rnd.shuffle(ws)
        for w in ws:
            if self.work(w):
                return

    def stub(self, ab, pit, c, args, e):
        nm = c if isinstance(c, str) else ''
        if nm.startswith('pthread_') or nm.startswith('omp_'):
            return self.pth(ab, pit, nm, args, e)
        if 'strip_cmdline_int' in nm:
            k = self.m.cstr(args[2])
            self.argn.setdefault(k, []).append(sgn(args[3]))
            return {'--tpp': self.n, '--serial.n_pipeline': self.n, '--dispatch_to_host': self.host}.get(k, args[3]) % P
        if 'detect_old_style' in nm:
            return 0
        if 'nanodelay' in nm:
            self.poll('it waits for something that does not happen')
            if self.mode == 'boot':
                for w in self.order:
                    if self.f(w, 'state') == ACK and self.rnd.random() < .5:
                        self.setw(w, 'state', SLEEP)
            elif self.rnd.random() < .7:
                self.let()
            return 0
        if 'register_object' in nm:
            self.reg.append((nm, args[0]))
            return 0
        if not isinstance(c, str):
            self.job(c, args)
            return 0
        return self.base(ab, pit, c, args, e)

    def job(self, c, args):
        self.ran.append((c[1], args[0], sgn(args[1]), sgn(args[2]), None))
        if self.mode == 'mgr':
            w = self.order[0]
            if w not in self.held:
                self.issue('a job runs without the lock of its worker')
            fl = self.f(w, 'flag')
            if fl and self.m.mem.get(fl) != 0:
                self.issue('a job is reported complete before it has run')

    def pth(self, ab, pit, nm, args, e):
        if nm == self.fail:
            return 11
        m = self.m
        if nm == 'pthread_self':
            return self.now
        if nm == 'pthread_equal':
            return 1 if args[0] == args[1] else 0
        if nm in ('pthread_mutex_init', 'pthread_cond_init'):
            if args[0] in self.init:
                self.issue('a lock or condition is initialised twice')
            self.init.add(args[0])
            if args[1]:
                self.issue(f'{nm} with attributes')
            return 0
        if nm == 'pthread_create':
            w = args[3] % P
            if w in self.workers:
                self.issue('two workers share a record')
            if self.m.fns.get(args[2]) is None:
                raise Broken('worker function unknown')
            self.mgr = self.m.fns[args[2]]
            self.workers[w] = {'id': m.rnd.h(972, len(self.order))}
            for k in ('mutex', 'wake'):
                if (w + self.ps(k)) % P not in self.init:
                    self.issue(f'a worker starts before its {k} exists')
            if self.f(w, 'state') == SLEEP:
                self.issue('a worker counts as asleep before it has started')
            if self.f(w, 'state') in (EXECUTE, TERMINATE):
                self.issue('a worker starts in a wrong state')
            self.order.append(w)
            m.mem[args[0] % P] = self.workers[w]['id']
            if args[0] % P != (w + self.ps('handle')) % P:
                self.issue('the handle of a worker is stored in the wrong place')
            if self.eager:
                self.setw(w, 'state', SLEEP)
            return 0
        if nm in ('pthread_mutex_lock', 'pthread_mutex_trylock'):
            w = self.who(args[0], 'mutex')
            if w is None or w in self.dead:
                self.issue('a lock of no worker is taken')
                return 0
            if w in self.held:
                if nm.endswith('trylock'):
                    self.poll('it tries a lock it holds')
                    return 16
                raise Hang('it takes a lock twice')
            if self.mode == 'mgr':
                self.held.add(w)
                return 0
            tail = self.workers[w].get('tail', 0)
            if tail > 1 and nm.endswith('trylock'):
                self.workers[w]['tail'] = tail - 1
                self.poll('it looks for a free worker for ever')
                return 16
            if tail:
                self.workers[w]['tail'] = 0
                self.setw(w, 'state', SLEEP)
            if nm.endswith('trylock'):
                self.poll('it looks for a free worker for ever')
                if self.f(w, 'state') == EXECUTE and self.workers[w].get('sig'):
                    r = self.rnd.random()
                    if r < .4:
                        return 16               # the worker runs its job
                    if r < .8:
                        self.work(w)            # it has just finished
            elif self.f(w, 'state') == EXECUTE:
                self.work(w)
                self.workers[w]['tail'] = 0
                if not self.workers[w].get('todo'):
                    self.setw(w, 'state', SLEEP)
            self.held.add(w)
            self.workers[w]['got'] = True
            self.workers[w]['sig'] = self.workers[w].get('sig') and self.f(w, 'state') == EXECUTE
            return 0
        if nm == 'pthread_mutex_unlock':
            w = self.who(args[0], 'mutex')
            if w is None or w not in self.held:
                self.issue('a lock that is not held is released')
                return 0
            self.held.discard(w)
            if self.eager and self.mode != 'mgr':
                self.work(w)
            return 0
        if nm in ('pthread_cond_signal', 'pthread_cond_broadcast'):
            w = self.who(args[0], 'wake')
            if w is None or w in self.dead:
                self.issue('the condition of no worker is signalled')
            elif w in self.held or self.f(w, 'state') in (EXECUTE, TERMINATE):
                self.workers[w]['sig'] = True
                if self.eager:
                    self.work(w)
            return 0
        if nm == 'pthread_cond_wait':
            w = self.who(args[0], 'wake')
            if self.mode != 'mgr' or w is None or self.who(args[1], 'mutex') != w:
                self.issue('waits on the wrong condition or lock')
                raise Hang('wrong wait')
            if w not in self.held:
                self.issue('waits without the lock')
            return self.wait(w)
        if nm == 'pthread_join':
            ws = [w for w in self.order if self.workers[w]['id'] == args[0]]
            if not ws or ws[0] in self.dead:
                self.issue('joins no running worker')
                return 0
            w = ws[0]
            if w in self.held:
                raise Hang('it waits for a worker whose lock it holds')
            if self.f(w, 'state') != TERMINATE:
                raise Hang('it waits for a worker that was not told to end')
            if not self.workers[w].get('sig'):
                raise Hang('it waits for a worker that was not woken')
            self.dead.append(w)
            return 0
        if nm in ('pthread_mutex_destroy', 'pthread_cond_destroy'):
            w = self.who(args[0], 'mutex' if 'mutex' in nm else 'wake')
            if w is None or w not in self.dead:
                self.issue('a lock or condition in use is destroyed')
            elif args[0] not in self.init:
                self.issue('a lock or condition is destroyed twice')
            self.init.discard(args[0])
            return 0
        if nm == 'omp_set_num_threads':
            self.argn['omp'] = sgn(args[0])
            return 0
        raise Broken(f'{nm} not modelled')

    # -- the worker against a host -----------------------------------------
    def script(self, w, acts):
        """run the worker loop; acts: list of 'job', 'nothing', 'nofunc', 'noflag', 'end'"""
        self.mode = 'mgr'
        self.acts = list(acts)
        self.want = []
        self.flags = []
        self.now = self.workers[w]['id']
        self.setw(w, 'state', ACK)
        self.k = 0
        self.polls = 0
        try:
            self.ret = self.ab.call(self.mod.func(self.mgr), [w])
            self.check_flags()
            err = ''
        except Aborted:
            err = 'error exit'
        except Hang as x:
            err = f'never returns ({x})'
        except Broken as x:
            if 'loop does not end' not in str(x):
                raise
            err = 'never returns'
        self.now = self.me
        return err

    def check_flags(self):
        for fl in self.flags:
            if self.m.mem.get(fl) != 1:
                self.issue('a finished job is not reported')
        if len(self.ran) != len(self.want) or [x[:4] for x in self.ran] != self.want:
            self.issue(f'{len(self.ran)} jobs run instead of {len(self.want)}' if len(self.ran) != len(self.want) else 'a job runs with wrong arguments')

    def wait(self, w):
        self.check_flags()
        if self.f(w, 'state') != SLEEP:
            self.issue('waits without being marked asleep')
        self.poll('its orders are used up')
        if not self.acts:
            raise Hang('it was told to end')
        a = self.acts.pop(0)
        self.k += 1
        h = self.m.rnd.h
        if a == 'end':
            self.setw(w, 'state', TERMINATE)
            return 0
        if a == 'nothing':
            return 0
        fn, ar = (0 if a == 'nofunc' else h(973, self.k)), h(974, self.k)
        fl = 0 if a == 'noflag' else h(975, self.k)
        job, nj = self.k * 3 + 1, self.k * 5 + 40
        for k, v in (('state', EXECUTE), ('func', fn), ('args', ar), ('job', job), ('n_job', nj), ('flag', fl)):
            self.setw(w, k, v)
        if fl:
            self.m.mem[fl] = 0
            self.flags.append(fl)
        if fn:
            self.want.append((fn, ar, job, nj))
        return 0


def where(t, k):
    f = t.func(k)
    return f'{f.file}:{f.line}'


def rounds(mod, cfg, R, which, n, host, eager, seed):
    """boot, a few dispatches, halt"""
    inst = f'{which}/{n}{"+host" if host else ""}/{"eager" if eager else "late"}/{seed}/{cfg}'
    t = T(mod, which, n, host, eager, seed)
    h = t.m.rnd.h
    nw = n - host if which == 'thread' else 0
    w = where(t, 'boot')

    def done(rule, k, msg):
        msg = msg or (t.bad[0] if t.bad else '')
        R(rule, f'{k}/{inst}', not msg, where(t, k), f'{which}.{k}: {msg}' if msg else '')
        return not msg
    for k, a in (('dispatch', (h(1, 1), h(1, 2), 8, 1)), ('wait', ()), ('halt', ())):
        e = t.go(k, *a)
        R('refused', f'{k}/unbooted/{inst}', e == 'error exit', where(t, k), f'{which}.{k} before boot is not refused' if e != 'error exit' else '')
    e = t.go('boot', 1 << 50, (1 << 50) + 64)
    if not e and len(t.order) != nw:
        e = f'{len(t.order)} workers for {n} pipelines'
    if not e and t.np() != n:
        e = f'{t.np()} pipelines instead of {n}'
    if not e and any(t.f(x, 'state') != SLEEP for x in t.order):
        e = 'returns before every worker is ready'
    if not e and [x[1] for x in t.reg] != [t.at]:
        e = 'the dispatcher is not registered for checkpoints'
    if not e and any(v != 1 for x in t.argn.values() for v in x):
        e = 'the default is not one pipeline on the host'
    if not done('boot', 'boot', e):
        return
    e = t.go('boot', 1 << 50, (1 << 50) + 64)
    R('refused', f'boot/twice/{inst}', e == 'error exit', w, f'{which}.boot twice is not refused' if e != 'error exit' else '')
    e = t.go('wait')
    R('refused', f'wait/idle/{inst}', e == 'error exit', where(t, 'wait'), f'{which}.wait without work is not refused' if e != 'error exit' else '')
    for rd in range(6):
        fn = (h(981, 0), h(981, 0), 0, h(981, 3), h(981, 3), h(981, 0))[rd]
        ar, sz, st = sgn(h(982, rd)) % (1 << 48), (48, 1, 128, 16, 48, 8)[rd], (1, 0, 1, 3, 1, 2)[rd]
        t.ran, t.bad = [], []
        e = t.go('dispatch', fn, ar, sz, st)
        if not done('jobs', 'dispatch', e):
            return
        if which == 'thread':
            t.now = h(983, 1)
            e1, e2, e3 = t.go('dispatch', fn, ar, sz, st), t.go('wait'), t.go('halt')
            t.now = t.me
            for k, x in (('dispatch', e1), ('wait', e2), ('halt', e3)):
                R('refused', f'{k}/stranger/{rd}/{inst}', x == 'error exit', where(t, k), f'{which}.{k} of another thread is not refused' if x != 'error exit' else '')
        for k, a in (('dispatch', (fn, ar, sz, st)), ('halt', ())):
            nr = len(t.ran)
            x = t.go(k, *a)
            x = '' if x == 'error exit' and len(t.ran) == nr else 'in spite of unfinished work'
            R('refused', f'{k}/busy/{rd}/{inst}', not x, where(t, k), f'{which}.{k} {x}' if x else '')
        t.bad = []
        e = t.go('wait')
        want = sorted((fn, (ar + i * sz * st) % P, i, n) for i in range(n)) if fn else []
        got = sorted(x[:4] for x in t.ran)
        bl = e
        if not e and got != want:
            ids = sorted(x[2] for x in t.ran)
            if len(got) < len(want):
                bl = f'{len(got)} of {len(want)} jobs have run when the wait ends'
            elif ids != list(range(n)) and fn:
                bl = f'jobs {ids} run instead of one of each of {n}'
            else:
                bl = 'a job gets wrong arguments'
        if not bl and which == 'thread' and any(t.f(x, 'state') == EXECUTE and not t.workers[x].get('tail') for x in t.order):
            bl = 'a worker still has a job'
        if not bl and host and which == 'thread' and fn and not any(x[4] is None for x in t.ran):
            bl = 'the host takes no job'
        if not done('jobs', 'wait', bl):
            return
        e = t.go('wait')
        R('refused', f'wait/again/{rd}/{inst}', e == 'error exit', where(t, 'wait'), f'{which}.wait twice is not refused' if e != 'error exit' else '')
    t.bad = []
    e = t.go('halt')
    if not e and len(t.dead) != nw:
        e = f'{nw - len(t.dead)} workers live on'
    if not e and t.init:
        e = 'locks or conditions are never destroyed'
    if not e and t.np() != 0:
        e = 'the dispatcher counts as booted'
    if not e and len(t.reg) != 2:
        e = 'the dispatcher stays registered'
    done('halt', 'halt', e)
    # a second life
    t.order, t.workers, t.dead, t.held, t.reg, t.bad = [], {}, [], set(), [], []
    e = t.go('boot', 1 << 50, (1 << 50) + 64)
    if not e and (len(t.order) != nw or t.np() != n):
        e = 'the dispatcher does not boot again'
    done('boot', 'boot', e)


def worker(mod, cfg, R, acts):
    t = T(mod, 'thread', 3, 1, True, 1)
    e = t.go('boot', 1 << 50, (1 << 50) + 64)
    if e or not t.mgr or not t.order:
        raise Broken('no worker')
    f = t.mod.func(t.mgr)
    e = t.script(t.order[0], acts)
    if not e and t.acts:
        e = 'ends without being told to'
    if not e and t.held:
        e = 'ends with its lock held'
    if not e and t.bad:
        e = t.bad[0]
    if not e and t.ret != 0:
        e = ''
    R('worker', f'{"-".join(acts)}/{cfg}', not e, f'{f.file}:{f.line}', f'worker: {e}' if e else '')


def limits(mod, cfg, R):
    for which in ('thread', 'serial'):
        mx = 272
        for n, ok in ((1, 1), (0, 0), (-1, 0), (2, 1), (mx + 1, 0), (1 << 20, 0)):
            t = T(mod, which, n, 1, True, 2)
            e = t.go('boot', 1 << 50, (1 << 50) + 64)
            good = (e == '') if ok else e == 'error exit'
            R('refused', f'boot/{which}/{n}/{cfg}', good, where(t, 'boot'), '' if good else f'{which}.boot with {n} pipelines: {e or "accepted"}')
    for fail in ('pthread_create', 'pthread_mutex_init', 'pthread_cond_init', 'pthread_join', 'pthread_mutex_destroy', 'pthread_cond_destroy'):
        t = T(mod, 'thread', 3, 1, True, 2)
        t.fail = fail
        e = t.go('boot', 1 << 50, (1 << 50) + 64)
        k = 'boot'
        if not e:
            k, e = 'halt', t.go('halt')
        good = e == 'error exit'
        R('error', f'{fail}/{cfg}', good, where(t, k), '' if good else f'thread.{k}: a failure of {fail} goes unnoticed')


def omp(mod, cfg, R):
    """the OpenMP helper"""
    gl = mod.globals.get('omp_helper')
    if gl is None or not gl.get('init'):
        raise Broken('omp_helper not found')
    S = next((mod.structs[n] for n in ('omp_container', 'omp_container_t') if n in mod.structs), None)
    if S is None:
        raise Broken('record of the OpenMP helper not found')
    for n, ok in ((1, 1), (2, 1), (5, 1), (272, 1), (0, 0), (-1, 0), (273, 0)):
        t = T.__new__(T)
        g = Graph()
        t.mod, t.n, t.host, t.eager, t.fail, t.mode, t.which = mod, n, 1, True, None, 'host', 'omp'
        t.argn, t.reg, t.polls, t.order, t.workers, t.dead, t.ran = {}, [], 0, [], {}, [], []
        m = t.m = ckan.CM(g, mod, 5, 0, 1, 2)
        t.base = m.stub
        t.ab = Abs(mod, m, t.stub, 1 << 12)
        t.at = m.rnd.h(3, vg.crc('omp_helper'))
        t.disp = S
        m.ginit(t.at, gl['init'], gl['ty'])
        f = t.func('boot')
        e = t.go('boot', 1 << 50, (1 << 50) + 64)
        if ok:
            if not e and (t.np() != n or t.argn.get('omp') != n):
                e = f'{t.np()} pipelines on {t.argn.get("omp")} threads instead of {n}'
            if not e:
                x = t.go('boot', 1 << 50, (1 << 50) + 64)
                e = '' if x == 'error exit' else 'booting twice is not refused'
        else:
            e = '' if e == 'error exit' else f'{n} pipelines are not refused'
        R('refused' if not ok else 'boot', f'omp/{n}/{cfg}', not e, f'{f.file}:{f.line}', f'omp_boot: {e}' if e else '')
