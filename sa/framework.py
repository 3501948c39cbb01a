"""Rule framework: runs rules over every analysed configuration, collects findings and coverage.

A rule is a function rule(R, cfg) deciding one construct family.  It reports through R:
  R.good(what)            an obligation was discharged
  R.bad(key, fn, span, msg)  a specific construct violates the rule
  R.unsure(what)          the analysis could not decide (never an alarm)
"""
import signal, sys, time, traceback
from .interp import Interp, Budget, Outcome
from .anchors import Anchors
from .terms import *


class Late(BaseException):
    """the time of a rule is over"""


from . import terms as _t

RULES = {}


def rule(name, cfgs=None):
    def d(f):
        f.rname = name
        f.cfgs = cfgs
        RULES[name] = f
        return f
    return d


class Finding:
    def __init__(self, rule, key, fn, span, msg, cfg):
        self.rule, self.key, self.fn, self.span, self.msg, self.cfg = rule, key, fn, span, msg, cfg

    def where(self):
        if self.span:
            return f'{self.span[0]}:{self.span[1]}'
        return ''


class Run:
    """result of exploring one function"""

    def __init__(self, it, outs, fn):
        self.it, self.outs, self.fn = it, outs, fn

    @property
    def clean(self):
        """no call was left unmodelled and no path condition depends on a value the analysis lost"""
        c = getattr(self, '_clean', None)
        if c is None:
            c = not self.it.unmodelled and not any(lost(k) for o in self.outs for k in list(o.facts.truth) + list(o.facts.var))
            self._clean = c
        return c

    def follow(self, rounds=2, max_steps=60000):
        """obligations that fail for certain on a path going round each loop at most `rounds` times"""
        p, f, kw, args, st = self.again
        it = Interp(p, max_steps=max_steps, **kw)
        it.bounded = rounds
        try:
            it.analyse(f, args=args, st=st)
        except Budget:
            pass
        return it.refuted

    def oks(self):
        return [o for o in self.outs if o.ret.op == 'agg' and o.ret.a[1] == 0]

    def errs(self):
        return [o for o in self.outs if o.ret.op == 'agg' and o.ret.a[1] == 1]

    def other(self):
        return [o for o in self.outs if o.ret.op != 'agg']


class R:
    def __init__(self, progs, tier='quick'):
        self.progs = progs
        self.tier = tier
        self.anch = {c: Anchors(p) for c, p in progs.items()}
        self.findings = []
        self.goods = []
        self.unsures = []
        self.fns = set()
        self.callsites = set()
        self.paths = 0
        self.npaths = {}
        self.cur = None
        self.cfg = None
        self.times = {}
        self.cache = {}

    # ------------------------------------------------ reporting
    def good(self, what):
        self.goods.append((self.cur, self.cfg, what))

    def bad(self, key, fn, span, msg):
        k = f'{self.cur}:{key}'
        for f in self.findings:
            if f.key == k:
                return
        self.findings.append(Finding(self.cur, k, fn, span, msg, self.cfg))

    def unsure(self, what):
        self.unsures.append((self.cur, self.cfg, what))

    def expect(self, cond, key, fn, span, msg):
        if cond:
            self.good(key)
        else:
            self.bad(key, fn, span, msg)
        return cond

    # ------------------------------------------------ running
    def run(self, names):
        """apply the rules; one that takes too long is undecided (the limits are far above what the unchanged tree needs)"""
        end = [0]

        def late(*_):
            raise Late('time') if time.time() > end[0] else Budget('time')
        each, left = (120, 480) if self.tier == 'quick' else (600, 6000)
        signal.signal(signal.SIGALRM, late)
        for n in names:
            f = RULES[n]
            for cfg in self.progs:
                if f.cfgs and cfg not in f.cfgs:
                    continue
                self.cur, self.cfg = n, cfg
                t = time.time()
                g0, b0, u0 = len(self.goods), len(self.findings), len(self.unsures)
                try:
                    end[0] = t + max(5, min(2 * each, left)) - 0.1
                    signal.setitimer(signal.ITIMER_REAL, max(5, min(each, left)), each / 8)
                    f(self, cfg)
                    signal.setitimer(signal.ITIMER_REAL, 0)
                except (Budget, Late) as e:
                    self.unsure(f'budget exceeded in {e}')
                except Exception as e:
                    tb = traceback.extract_tb(sys.exc_info()[2])[-1]
                    self.unsure(f'analysis error {type(e).__name__}: {str(e)[:200]} at {tb.filename}:{tb.lineno}')
                    self.last_tb = traceback.format_exc()
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                self.times[(n, cfg)] = time.time() - t
                left -= time.time() - t

    def fn(self, cfg, key):
        return self.progs[cfg].find(key)

    def explore(self, cfg, key, overrides=None, args=None, st=None, max_steps=400000, ckey=None, **kw):
        """explore one function from arbitrary (or given) arguments -> Run or None"""
        p = self.progs[cfg]
        f = key if not isinstance(key, str) else p.find(key)
        if f is None:
            self.unsure(f'function {key} not found')
            return None
        ck = (cfg, f.path, ckey) if ckey else None
        if ck and ck in self.cache:
            return self.cache[ck]
        it = Interp(p, overrides=overrides or {}, max_steps=max_steps, **kw)
        again = (p, f, dict(overrides=overrides or {}, **kw), args, st.copy() if st is not None else None)
        try:
            outs = it.analyse(f, args=args, st=st)
        except Budget:
            self.unsure(f'{f.key}: path budget exceeded')
            r = None
            if ck:
                self.cache[ck] = r
            return r
        self.paths += len(outs)
        self.npaths[(cfg, f.key)] = len(outs)
        self.fns |= it.visited
        self.callsites |= {(c[0], c[1]) for c in it.callsites}
        if it.unmodelled:
            self.unsure(f'{f.key}: unmodelled calls {sorted(it.unmodelled)[:6]}')
        r = Run(it, outs, f)
        r.again = again
        if ck:
            self.cache[ck] = r
        return r

    def mismatch(self, run, key, got, want, o=None, msg='', span=None):
        """got is not want: an alarm unless the analysis lost precision on the way"""
        why = imprecise(got) or imprecise(want)
        if why or not run.clean:
            self.unsure(f'{key}: imprecise value ({why or "unmodelled calls"}): {cut(got)}')
            return
        self.bad(key, run.fn.key, span or run.fn.span, f'{msg}: computed {cut(got)}, required {cut(want)}')

    def same(self, run, key, got, want, msg='', o=None, span=None):
        if got is want:
            self.good(key)
            return True
        if o is not None and o.facts.truth_of(eq(got, want)) is True:
            self.good(key)
            return True
        self.mismatch(run, key, got, want, o, msg, span)
        return False


IMPRECISE_OPS = _t.VAGUE


ATOMS = set()   # terms whose inside does not count as imprecise (the rule reasons about them separately)


def _below(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or x in ATOMS:
            continue
        seen.add(x)
        yield x
        st.extend(_t._kids(x))


def imprecise(t):
    """a sub-term the analysis could not resolve to a function of the inputs, or None"""
    if not isinstance(t, T):
        return None
    for x in (_below(t) if ATOMS else subterms(t)):
        if x.op in IMPRECISE_OPS:
            return x.op
        if x.op == 'call' and x.a[0] == 'dyn':
            return 'dyn call'
    return None


def lost(t):
    return any(x.op in ('unk', 'poison', 'uninit', 'mutated') for x in subterms(t))


def cut(t, n=300):
    s = t if isinstance(t, str) else show(t) if isinstance(t, T) else repr(t)
    return s if len(s) <= n else s[:n] + '...'


def P(fn, i):
    """the i-th parameter of fn as a term"""
    return mk('param', fn.key, i)
