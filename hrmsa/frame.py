"""Obligation framework shared by the property rules."""
import time
import traceback

from . import terms as TM
from .terms import T, mk, show, TRUE, bdd, AND
from .load import AnalysisBroken, REPO, VERIF
from .engine import Engine, LV, State, Give_up
from .compare import in_range, retuned, Cmp, Undetermined, cut, KNOWN, KNOWN_PREFIX
from . import interp
from .rules.common import BOUND

OK, BAD, UND = 'ok', 'violation', 'undetermined'


class Result:
    __slots__ = ('status', 'ob', 'msg', 'loc', 'site')

    def __init__(self, status, ob, msg='', loc='', site=''):
        self.status = status
        self.ob = ob            # obligation name
        self.msg = msg
        self.loc = loc
        self.site = site        # stable identification of the construct

    def __repr__(self):
        return '%s %s [%s] %s' % (self.status, self.ob, self.loc, self.msg)


class Opaque:
    """Set of repository function names kept uninterpreted."""
    def __init__(self, names):
        self.key = frozenset(names)

    def __call__(self, fn):
        return fn.name in self.key


class Ctx:
    def __init__(self, prog, prop, tier='quick'):
        self.P = prog
        self.prop = prop
        self.tier = tier
        self.results = []
        self.jobs = []
        self.times = {}
        self.analysed = set()       # function usrs
        self.rules = []
        self.stmts = 0
        self.loops = 0
        self.events = 0
        self.known_names = {f.name for f in prog.fns.values()} | {f.q for f in prog.fns.values()}
        self.known_calls = set(BOUND)
        for n in self.known_names:
            self.known_calls.add(n)

    # ------------------------------------------------------------- results
    def ok(self, ob, msg='', loc='', site=''):
        self.results.append(Result(OK, ob, msg, loc, site))

    def bad(self, ob, msg, loc='', site=''):
        self.results.append(Result(BAD, ob, msg, loc, site))

    def und(self, ob, msg, loc='', site=''):
        self.results.append(Result(UND, ob, msg, loc, site))

    # ------------------------------------------------------------- lookups
    def cls(self, q, targ=None):
        cs = self.P.clsq.get(q, [])
        if targ:
            cs = [c for c in cs if targ in c.t.replace(' ', '')]
        if not cs:
            raise AnalysisBroken('class %s %s not found' % (q, targ or ''))
        return cs[0]

    def method(self, cq, name, targ=None, nparams=None):
        c = self.cls(cq, targ)
        f = self.P.find_method(c.usr, name, nparams)
        if f is None:
            raise AnalysisBroken('%s::%s not found' % (cq, name))
        return f

    def fn(self, q, nparams=None, targ=None):
        fs = self.P.byq.get(q, [])
        if nparams is not None:
            fs = [f for f in fs if len(f.j['params']) == nparams]
        if targ:
            fs = [f for f in fs if targ in f.usr]
        if not fs:
            raise AnalysisBroken('function %s not found' % q)
        return fs[0]

    # ------------------------------------------------------------- analysis
    def analyse(self, fn, concrete=None, opaque=None, args=None, st=None, this=('this',)):
        en = Engine(self.P, concrete=concrete or fn.cls, opaque=opaque)
        s, r = en.run(fn, this=this, args=args, st=st)
        self.stmts += en.stmts
        self.loops += en.nloops
        self.events += len(en.events)
        self.analysed.add(fn.usr)
        self.analysed |= en.inlined
        return en, s, r

    def out(self, en, s, r, name):
        """Value of one observable: 'ret', 'this.a.b', 'P0', 'P0.a', 'throws', 'calls'."""
        if name == 'ret':
            if isinstance(r, LV):
                r = en.read(s, r)
            if r is None:
                return mk('void')
            return self.content(en, s, r)
        if name == 'throws':
            return throw_cond(en)
        if name.startswith('ret.') or name.startswith('ret*'):
            v = r if isinstance(r, LV) else None
            if v is None:
                if r.op == 'ptr':
                    v = LV(*r.args)
                else:
                    x = r
                    for f in name.split('.')[1:]:
                        x = TM.fld(x, f)
                    return x
            for f in name.split('.')[1:]:
                v = v.f(f)
            return en.read(s, v)
        ps = name.split('.')
        if ps[0] == 'this':
            path = ('this',) + tuple(ps[1:])
        elif ps[0][0] == 'P':
            path = (('P', int(ps[0][1:])),) + tuple(ps[1:])
        else:
            raise AnalysisBroken('bad observable ' + name)
        en.deep = True
        try:
            return self.content(en, s, en.read(s, LV(path)))
        finally:
            en.deep = False

    def content(self, en, s, v):
        return en.content(s, v, roots=None)

    # ------------------------------------------------------------- jobs
    def ref(self, *a, **k):
        """Queue a reference-model obligation (see _ref)."""
        self.jobs.append((a[0], lambda: self._ref(*a, **k)))

    def getter(self, ob, fn, path):
        """Queue: the method returns exactly the member `path`, and writes nothing."""
        def run():
            f = fn() if callable(fn) else fn
            en, s, r = self.analyse(f, None, Opaque(()))
            if path.split('.')[0] not in {x['n'] for k, x in self.P.fields_of(f.cls)}:
                raise AnalysisBroken('%s has no member %s' % (f.cls, path))
            want, have = en.read(s, LV(('this',) + tuple(path.split('.')))), self.out(en, s, r, 'ret')
            if TM.is_bool(have):
                want = bdd(TM.atomize(want))
            self.compare(ob, 'ret', f, want, have)
            w = sorted({'.'.join(map(str, p[1:])) for p in en.wrote if p[0] == 'this'})
            if w:
                self.bad(ob + ':writes', 'accessor %s changes %s' % (f.q, ', '.join(w)), f.loc(), f.q)
        self.jobs.append((ob, run))

    def job(self, ob, f):
        """Queue an obligation decided by f()."""
        self.jobs.append((ob, f))

    def flush(self, workers=8):
        """Decide the queued obligations in forked workers."""
        import os
        import pickle
        import select
        jobs, self.jobs = self.jobs, []
        lim = 600 if self.tier == 'quick' else 800
        end = time.time() + lim
        run = {}
        todo = list(enumerate(jobs))
        done = {}
        while todo or run:
            while todo and len(run) < workers:
                i, (ob, f) = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        self.results = []
                        self.analysed = set()
                        self.stmts = self.loops = self.events = 0
                        t0 = time.time()
                        try:
                            f()
                        except AnalysisBroken as e:
                            self.und(ob, str(e))
                        except (Give_up, TM.Timeout) as e:
                            self.und(ob, 'analysis gave up: %s' % e)
                        except RecursionError:
                            self.und(ob, 'analysis recursion limit')
                        except Exception as e:
                            self.und(ob, 'internal: %s %s' % (e, traceback.format_exc()[-1500:]))
                        out = pickle.dumps(([(x.status, x.ob, x.msg, x.loc, x.site) for x in self.results],
                                            self.analysed, self.stmts, self.loops, self.events, time.time() - t0))
                    except BaseException as e:
                        out = pickle.dumps(([(UND, ob, 'internal: %r' % (e,), '', '')], set(), 0, 0, 0, 0.0))
                    with os.fdopen(w, 'wb') as fh:
                        fh.write(out)
                    os._exit(0)
                os.close(w)
                run[r] = (i, pid, ob, [])
            rd, _, _ = select.select(list(run), [], [], 1.0)
            for r in rd:
                b = os.read(r, 1 << 16)
                i, pid, ob, acc = run[r]
                if b:
                    acc.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del run[r]
                done[i] = b''.join(acc)
            if time.time() > end:
                import signal
                for r, (i, pid, ob, acc) in list(run.items()):
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    done[i] = b''
                run = {}
                for i, (ob, f) in todo:
                    done[i] = b''
                todo = []
        for i, (ob, f) in enumerate(jobs):
            try:
                rs, an, st, lo, ev, dt = pickle.loads(done[i])
            except Exception:
                self.und(ob, 'not decided within the time limit')
                continue
            self.results += [Result(*x) for x in rs]
            self.analysed |= an
            self.stmts += st
            self.loops += lo
            self.events += ev
            self.times[ob] = round(dt, 1)

    def _ref(self, ob, fn, spec, outs, concrete=None, opaque=(), pre=None, rewrite=None, args=None, recursive=False):
        """Reference-model obligation: the canonical values of the observables
        of `fn` equal those of the reference function `spec`.

        fn: Fn or a callable returning one (a vanished anchor makes the
        obligation undetermined).  opaque: names of repository functions that
        stay uninterpreted; they are opened when only one side calls them."""
        try:
            if callable(fn):
                fn = fn()
            sf = self.spec(spec)
            pf = self.spec(pre) if pre else None
        except AnalysisBroken as e:
            self.und(ob, str(e))
            return
        loc = fn.loc()
        names = set(opaque) - (set() if recursive else {fn.name})
        TM.DIMS.clear()
        TM.set_budget(250 if self.tier == 'quick' else 400)
        todo = list(outs)
        try:
            for rnd in range(4):
                op = Opaque(names)
                try:
                    en, s, r = self.analyse(fn, concrete, op, args=args)
                    off = 1 if fn.cls and fn.ent.get('m') != 's' else 0
                    sargs = ([LV(('this',))] if off else []) + [LV((('P', k),)) for k in range(len(fn.j['params']))]
                    if args:
                        for k, a in enumerate(args):
                            if a is not None:
                                sargs[k + off] = a
                    sargs = sargs[:len(sf.j['params']) + (1 if sf.cls else 0)]

                    def side(f):
                        x = Engine(self.P, concrete=None, opaque=op)
                        if off:
                            x.concrete = concrete or fn.cls
                            x.objcls[('this',)] = concrete or fn.cls
                        if f.cls:  # a constructor of a reference class
                            return (x,) + x.run(f, args=sargs[1:])
                        return (x,) + x.run(f, this=None, args=sargs)
                    e2, s2, r2 = side(sf)
                    pret = bdd(side(pf)[2]) if pf else TRUE
                    diff = names & (en.opaque_used ^ e2.opaque_used)
                    bad = []
                    for o in todo:
                        n = len(self.results)
                        self.compare(ob, o, fn, self.out(e2, s2, r2, o), self.out(en, s, r, o), pret, rewrite)
                        if self.results[-1].status != OK and diff and rnd < 3:
                            bad.append(o)
                            del self.results[n:]
                    todo = bad
                    if not todo:
                        return
                    names -= diff
                except (Give_up, TM.Timeout) as e:
                    for o in todo:
                        self.und('%s:%s' % (ob, o), 'analysis gave up: %s' % e, loc, fn.q)
                    return
                except RecursionError:
                    for o in todo:
                        self.und('%s:%s' % (ob, o), 'analysis recursion limit', loc, fn.q)
                    return
        finally:
            TM.set_budget(None)

    def compare(self, ob, o, fn, want, have, pre=TRUE, rewrite=None, loc=None):
        name = '%s:%s' % (ob, o)
        loc = loc or fn.loc()
        site = '%s:%s' % (fn.q, o)
        if rewrite:
            want, have = rewrite(want), rewrite(have)
        if want is not have:
            want, have = in_range(want, have)
        if want is have:
            self.ok(name, '', loc, site)
            return
        if remembers(have):
            self.und(name, 'not decided: what an earlier call left decides a branch', loc, site)
            return
        if want.free or have.free:
            self.und(name, 'not decided: value of a loop outside of it', loc, site)
            return
        verdict, text = interp.separate(want, have, pre)
        if verdict == 'diff':
            odd = interp.unmatched(want, have, self.known_calls | KNOWN, KNOWN_PREFIX)
            if odd:
                self.und(name, 'not decided: library call without a model: %s' % ', '.join(sorted(odd)), loc, site)
                return
        c = Cmp(self.known_calls, pre)
        try:
            with TM.budget(15 if verdict == 'diff' else None):
                ds = c.decide(want, have)
        except (Undetermined, TM.Timeout, KeyError, IndexError, RecursionError) as e:
            if verdict != 'diff' and not isinstance(e, Undetermined):
                raise
            if verdict == 'diff':
                self.bad(name, '%s of %s differs from its reference %s' % (o, fn.q, text), loc, site)
                return
            t = retuned(want, have)
            if t:
                self.bad(name, '%s of %s compares with %.6g where its reference compares with %.6g' % (o, fn.q, t[1], t[0]), loc, site)
            else:
                self.und(name, 'not decided: %s (random interpretation: %s %s)' % (e, verdict, text), loc, site)
            return
        if ds and verdict != 'diff' and not any(
                (verdict != 'same' or scalar(d.want) and scalar(d.have)) and settled(d, want, have) for d in ds):
            # the two are built differently, and no sampled meaning tells them apart
            t = retuned(want, have)
            if t:
                self.bad(name, '%s of %s compares with %.6g where its reference compares with %.6g' % (o, fn.q, t[1], t[0]), loc, site)
                return
            self.und(name, 'not decided: of different make at %s (random interpretation: %s %s)' % (
                ds[0].text(80), verdict, text), loc, site)
            return
        if ds:
            self.bad(name, '%s of %s differs from its reference: %s%s' % (
                o, fn.q, ds[0].text(), '; ' + text if verdict == 'diff' else ' [%s %s]' % (verdict, text)), loc, site)
        elif verdict == 'diff':
            self.und(name, 'not decided: the normal form and its interpretation disagree: ' + text, loc, site)
        else:
            self.ok(name, '', loc, site)

    def spec(self, name):
        name, _, targ = name.partition('<')
        fs = self.P.byq.get('spec::' + name, [])
        if targ:
            fs = [f for f in fs if targ in f.usr]
        if not fs:
            raise AnalysisBroken('reference function spec::%s not found' % name)
        return fs[0]


def remembers(t):
    """A condition looks at a variable kept between calls."""
    kept = {}

    def has(x):
        r = kept.get(x)
        if r is None:
            r = kept[x] = any(y.op == 'in' and y.args[0][0][0] == 'G'
                              and str(y.args[0][0][1]).startswith('static:') for y in TM.subterms(x))
        return r
    if not has(t):
        return False
    return any(x.op in ('lt0', 'eq0', 'atom', 'ex', 'eq', 'b') and has(x) for x in TM.subterms(t))


SCALAR = {'num', 'poly', 'b', 'lt0', 'eq0', 'fld', 'in', 'bv', 'lv', 'sum', 'size', 'str', 'enum', 'idx', 'ex'}


def scalar(t):
    """A number, a truth value or a named part: a difference in one is a difference of value."""
    return t.op in SCALAR


LOOPS = TM.BINDERS


def loops(t):
    return {x for x in TM.subterms(t) if x.op in LOOPS}


def settled(d, want, have):
    """The difference is one the normal form decides: every loop it depends on occurs in both terms (one that occurs in
    one of them may mean the same as another of a different range), and none of its values is carried around a loop
    (what such a value cannot be is not in its term)."""
    one = loops(want) ^ loops(have)
    for x in [d.want, d.have] + [l for l, v in d.cube]:
        if loops(x) & one or any(y.op in ('mu', 'first', 'phi', 'bphi') for y in TM.subterms(x)):
            return False
    return True


def throw_cond(en):
    r = TM.FALSE
    for s, t in en.throwlist:
        r = TM.OR(r, bdd(s.pc))
    return r
