"""Obligations on the abstract states: the base class of all property
specifications, entry point set-up and the reporting of violations."""
import time
from .term import *
from .term import T
from .state import State, Split
from .ir import Inconclusive, BrokenTree
from . import interp as IN, models as MO

NSV = 'google::jwt_verify::'
IMPRECISE = {'unk', 'unkstr', 'opaque'}
MAXLEAVES = 3000


class Verdict(Exception):
    pass


def imprecise_term(t):
    for x in t.subs:
        if x.op == 'ret' and x.args[0] in IMPRECISE:
            return x
        if x.op == 'irange' and x.args and x.args[0] in ('undef', 'opaque'):
            return x
        if x.op == 'pred' and x.args and x.args[0] == 'undef':
            return x
        if x is TOP:
            return x
        if x.op == 'phi' and x.args[0] == 'v':
            return x
    return None


def imprecision(st):
    """The first value the analysis lost that the path's facts depend on."""
    for k in ('wild',):
        if st.ghost.get(k):
            return str(st.ghost[k])
    for a in st.atoms:
        x = imprecise_term(a)
        if x is not None:
            return show(x)
    for k, v in st.env.items():
        for y in (k, v):
            if isinstance(y, Term):
                x = imprecise_term(y)
                if x is not None:
                    return show(x)
    for l in st.lin + st.neq:
        x = imprecise_term(l) if isinstance(l, Term) else None
        if x is not None:
            return show(x)
    return None


_LOST = {}


def lost_term(t):
    r = _LOST.get(t)
    if r is None:
        r = _LOST[t] = any(x.op == 'ret' and x.args[0] in IMPRECISE or x is TOP for x in t.subs)
    return r


def lost(st):
    for a in st.atoms:
        if lost_term(a):
            return True
    for k, v in st.env.items():
        if isinstance(k, Term) and lost_term(k) or isinstance(v, Term) and lost_term(v):
            return True
    return any(isinstance(l, Term) and lost_term(l) for l in st.lin + st.neq)


def leaves(st, f, limit=MAXLEAVES):
    """Evaluate f under all refinements of the state its answer depends on:
    yields (refined state, answer)."""
    work = [st.fork()]
    out = []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise Inconclusive('obligation too large')
        try:
            r = f(s)
        except Split as e:
            c = e.cond
            while isinstance(c, Term) and c.op == 'not':
                c = c.args[0]
            for tr in (True, False):
                q = s.fork()
                if q.assume(c, tr):
                    q.note((None, None, c, tr))
                    work.append(q)
            continue
        out.append((s, r))
    return out


# ---------------------------------------------------------------- witnesses
WORDS = ['ES256', 'ES384', 'ES512', 'HS256', 'HS384', 'HS512', 'RS256', 'RS384', 'RS512', 'PS256', 'PS384', 'PS512', 'EdDSA',
         'EC', 'RSA', 'oct', 'OKP', 'P-256', 'P-384', 'P-521', 'Ed25519', 'none', 'HS', 'X25519']
CHARLEVEL = ('at', 'substr', 'cmp3', 'startswith', 'endswith')


def pool(extra=()):
    """Texts near the words the vocabulary knows."""
    r = {}
    ws = list(dict.fromkeys(list(extra) + WORDS))
    for w in ws:
        r[w] = 1
    for w in [''] + ws:
        for x in (w[:-1], w + 'x', w + '6', w.lower(), w.upper(), w[1:], 'x' + w):
            r[x] = 1
        for k in range(len(w)):
            r[w[:k] + 'x' + w[k + 1:]] = 1
    for f in 'EHRPX':
        for d in ('256', '384', '512', '257', '521', '1', 'A', ''):
            r[f + 'S' + d] = 1
    return list(r)


def unwitnessed(st):
    """None if the texts this path examines by the character can have some
    concrete value each, else the reason why the path is not believed."""
    names, chars, lits = {}, set(), {}
    for a, v in st.atoms.items():
        for x in a.subs:
            if x.op in CHARLEVEL:
                chars |= {y for y in x.args if isinstance(y, Term)}
        if a.op == 'seq' and isinstance(a.args[1], str) and a.args[0].op in ('init', 'pbstr') and a.args[1] in WORDS:
            names[a.args[0]] = 1
    for k, v in st.env.items():
        for y in (k, v):
            if isinstance(y, Term):
                for x in y.subs:
                    if x.op in CHARLEVEL:
                        chars |= {z for z in x.args if isinstance(z, Term)}
    for l in st.lin + st.neq:
        if isinstance(l, Term):
            for x in l.subs:
                if x.op in CHARLEVEL:
                    chars |= {z for z in x.args if isinstance(z, Term)}
    todo = [s for s in names if s in chars and st.norm(s) is s]
    if not todo:
        return None
    for a in st.atoms:
        for x in a.subs:
            lits.update((y, 1) for y in x.args if isinstance(y, str) and len(y) < 12)
    cand = pool(lits)
    s = st
    for t in todo:
        for c in cand:
            q = s.fork()
            if q.assume(mk_seq(q.norm(t), c), True):
                s = q
                break
        else:
            return 'no text found for %s on this path' % show(t)
    return None


class Spec(IN.Hooks):
    """Hooks that collect violations and count obligations."""
    props = ()

    def __init__(self, P, only=None):
        self.P = P
        self.only = only
        self.viol = {}
        self.notes = {}
        self.oblig = {}
        self.disch = {}
        self.sites = {}
        self.entry = None
        self.stats = {}
        self.t_viol = None
        self.I = None

    # -------------------------------------------------------------- results
    def want(self, prop):
        return self.only is None or prop in self.only

    def site(self, fr, i=None):
        i = i or (fr.inst if fr is not None else None)
        if fr is None or i is None:
            return '?', '?'
        fn, ln = fr.fn, i.line
        return fn.short, self.P.fname(fn, ln)

    def repo_site(self, st, fr, i=None):
        """The innermost repository construct on the call stack."""
        stack = st.stack
        for f in reversed(stack):
            if f.fn.repo:
                ii = f.inst if f is not fr else (i or f.inst)
                if ii is not None:
                    return f.fn.short, self.P.fname(f.fn, ii.line)
        return self.site(fr, i)

    def ob(self, prop, kind, ok=True, n=1):
        k = (prop, kind)
        self.oblig[k] = self.oblig.get(k, 0) + n
        if ok:
            self.disch[k] = self.disch.get(k, 0) + n

    def trace(self, st):
        r = []
        t = st.trace
        while t is not None:
            t, x = t
            fn, line, c, tr = x
            if fn is not None and not fn.repo:
                where = fn.short
            else:
                where = self.P.fname(fn, line) if fn is not None and line else '(obligation)'
            r.append('%s: %s%s' % (where, '' if tr else 'not ', show(c, 2)))
        r.reverse()
        return r

    def fail(self, prop, st, fr, msg, i=None, at=None, soft=None):
        """A violated obligation; a note when the path depends on something
        the analysis could not follow."""
        if not self.want(prop):
            return
        fn, where = at or (self.repo_site(st, fr, i) if fr is not None else ('?', '?'))
        imp = soft or (imprecision(st) if st is not None else None)
        if imp is None and st is not None:
            imp = unwitnessed(st)
        key = (prop, fn, where, msg)
        d = self.notes if imp else self.viol
        if key not in d:
            d[key] = {'property': prop, 'function': fn, 'where': where, 'what': msg, 'entry': self.entry,
                      'path': self.trace(st) if st is not None else [],
                      'callstack': [f.fn.short for f in st.stack] if st is not None else [],
                      'facts': st.facts_str()[:80] if st is not None else []}
            if imp:
                d[key]['imprecision'] = imp
            elif self.t_viol is None:
                self.t_viol = time.time()
        if self.t_viol is not None and time.time() - self.t_viol > 60:
            raise Inconclusive('stopped a minute after the first violation')

    def check(self, prop, kind, st, fr, f, msg, i=None, soft=None):
        """Obligation: f(st) is true under all refinements of st."""
        if not self.want(prop):
            return True
        bad = None
        for s, r in leaves(st, f):
            if not r or isinstance(r, str):
                bad = (s, r)
                if not imprecision(s):
                    break
        self.ob(prop, kind, bad is None)
        if bad is not None:
            m = bad[1] if isinstance(bad[1], str) else None
            self.fail(prop, bad[0], fr, msg + (': ' + m if m else ''), i, soft=soft)
        return bad is None

    # -------------------------------------------------------------- running
    def keep_lost(self, st):
        if not st.ghost.get('wild') and lost(st):
            st.ghost['wild'] = 'a value lost before a loop'

    def start(self):
        """The initial abstract state."""
        return State()

    def run(self, fn, args, st=None, entry=None, maxstates=None):
        self.entry = entry or fn.short
        I = IN.Interp(self.P, MO.Models(), self)
        if maxstates:
            I.MAXSTATES = maxstates
        st = st or self.start()
        a = [ptr(T('obj', n), 0) if isinstance(n, str) else n for n in args]
        I.run(fn, a, st)
        s = self.stats.setdefault(self.entry, {'states': 0, 'instructions': 0, 'exits': 0})
        s['states'] += I.nstates
        s['instructions'] += I.ninst
        s['exits'] += len(I.results)
        s['joins'] = s.get('joins', 0) + I.loopjoins
        self.sites.setdefault('functions', set()).update(x for x in I.visited_fns if self.P.fns[x].repo)
        self.sites.setdefault('calls', set()).update(I.visited_sites)
        if not I.results:
            raise Inconclusive('no path of %s reaches its end' % self.entry)
        return I

    # -------------------------------------------------------------- anchors
    def fn(self, name, ptext=None, params=None):
        fs = [f for f in self.P.find(NSV + name) if not f.decl]
        fs = [f for f in fs if f.dem[len(NSV) + len(name):][:1] in ('(', '[', '')]
        if ptext is not None:
            fs = [f for f in fs if ptext in f.ptext]
        if not fs:
            raise BrokenTree('entry point %s not found' % name)
        return fs[0]

    def off(self, struct, member, default=None):
        s = self.P.structs.get(NSV + struct)
        if s is None:
            raise BrokenTree('type %s not found' % struct)
        m = self.P.members(NSV + struct)
        if member in m:
            return m[member][0]
        if default is not None:
            return default
        raise BrokenTree('member %s::%s not found' % (struct, member))

    def enum(self, name='Status'):
        for k, v in self.P.enums.items():
            if k.endswith('jwt_verify::' + name):
                return v
        raise BrokenTree('enum %s not found' % name)


def str_field(obj, off):
    return T('init', obj, off, 'str')


def istr(st, s, c):
    """s equals the constant c (refining the state)."""
    return st.must(st.norm(mk_seq(s, c)))


def isempty(st, s):
    return st.must(eq0(mk_size(st.norm(s))))


def same(st, a, b):
    a, b = st.norm(a), st.norm(b)
    return st.must(mk_seq(a, b))


def whole(st, x, s):
    """x is all of s."""
    x, s = st.norm(x), st.norm(s)
    if x is s or (isinstance(x, str) and isinstance(s, str) and x == s):
        return True
    if isinstance(x, Term) and x.op == 'substr' and x.args[0] is s and x.args[1] == 0:
        return bool(st.decide(eq(x.args[2], st.norm(mk_size(s)))))
    return False


class Crash:
    """No access outside a buffer, bad index, failing assertion or escaping
    exception (reported under crash_prop)."""
    crash_prop = None

    def on_access(self, st, fr, obj, off, n, ext, what):
        if obj is None or ext is None:
            return
        p = self.crash_prop

        def f(s):
            o, k, e = s.norm(off), s.norm(n), s.norm(ext)
            if isinstance(k, int) and k == 0:
                return True
            return s.must(ge0(o)) and s.must(le(add(o, k), e))
        self.check(p, 'access', st, fr, f, '%s of %s bytes at offset %s of a buffer of %s bytes' % (what, show(n), show(off), show(ext)))

    def on_index(self, st, fr, k, n, what):
        self.check(self.crash_prop, 'index', st, fr, lambda s: s.must(ge0(s.norm(k))) and s.must(lt(s.norm(k), s.norm(n))),
                   '%s %s of %s elements' % (what, show(k), show(n)))

    def on_dangling(self, st, fr, o, what):
        self.fail(self.crash_prop, st, fr, 'reads characters of a string that no longer holds them')

    def on_abort(self, st, fr, i, what, detail):
        self.ob(self.crash_prop, 'no abort', False)
        self.fail(self.crash_prop, st, fr, 'can abort: %s %s' % (what, detail), i)


class Sweep:
    """Summary of a loop over a container: which elements have been finished.
    Ghost cells: the interval [lo, hi) looked at so far and the element in use;
    done(st, fr, k, second) states what must hold of an element that will not
    be looked at any more (it may partition before it changes anything)."""
    def __init__(self, spec, name, region, count, stride, done, cells=(0,), drop=None):
        self.drop = drop
        self.spec, self.name, self.region, self.count, self.stride, self.done = spec, name, region, count, stride, done
        self.cells = cells
        self.k = tuple('#%s.%s' % (name, x) for x in ('lo', 'hi', 'cur'))
        self.f = tuple('%s.%s' % (name, x) for x in ('second', 'loops', 'pass'))

    def get(self, st):
        g = st.ghost
        if self.k[0] not in g:
            return None
        n = lambda x: st.norm(x) if isinstance(x, Term) else x
        return tuple(n(g.get(x)) for x in self.k) + (g.get(self.f[0], 0),)

    def set(self, st, lo, hi, cur, second):
        g = st.ghost
        for k, v in zip(self.k, (lo, hi, cur)):
            if v is None:
                g.pop(k, None)
            else:
                g[k] = v
        if second:
            g[self.f[0]] = 1
        else:
            g.pop(self.f[0], None)

    def cur(self, st):
        s = self.get(st)
        return None if s is None else s[2]

    def touch(self, st, fr, off):
        k = st.norm(off)
        for c in self.cells:
            if isinstance(k, int):
                if (k - c) % self.stride == 0:
                    k = (k - c) // self.stride
                    break
            else:
                x = self.spec.I.exact(sub(k, c), self.stride)
                if x is not None:
                    k = x
                    break
        else:
            return
        s = self.get(st)
        loops = tuple(sorted(map(repr, st.loops)))
        if s is None:
            self.set(st, k, add(k, 1), k, 0)
            st.ghost[self.f[1]] = loops
            return
        lo, hi, cur, second = s
        if cur is not None and st.must(eq(cur, k)):
            return
        if cur is not None:
            self.finalise(st, fr)
            lo, hi, cur, second = self.get(st)
        if st.must(eq(k, hi)):
            self.set(st, lo, add(hi, 1), k, 0)
        elif st.must(eq(add(k, 1), lo)):
            self.set(st, k, hi, k, 0)
        elif st.must(eq(k, 0)):
            if not st.ghost.get(self.f[2]) and self.complete(st):
                st.ghost[self.f[2]] = 1
            self.set(st, k, add(k, 1), k, 0)
        elif st.must(le(lo, k)) and st.must(lt(k, hi)):
            self.set(st, lo, hi, k, 1)
        else:
            st.ghost['wild'] = 'order of ' + self.name
            return
        st.ghost[self.f[1]] = loops

    def elem(self, k):
        return T('deref', self.region, scale(k, self.stride))

    def finalise(self, st, fr):
        s = self.get(st)
        if s is None or s[2] is None:
            return
        lo, hi, cur, second = s
        self.done(st, fr, cur, bool(second or st.ghost.get(self.f[2])))
        self.set(st, lo, hi, None, 0)
        if self.drop is not None:
            for t in self.drop(cur):
                st.forget(t)

    def back(self, st, fr, key):
        if repr(key) in st.ghost.get(self.f[1], ()):
            s = self.get(st)
            self.finalise(st, fr)
            return s[2] if s is not None else None
        return None

    def _complete(self, st, must):
        if st.ghost.get(self.f[2]):
            return True
        s = self.get(st)
        n = st.norm(self.count)
        if s is None:
            return bool(must(eq(n, 0)))
        return bool(must(eq(s[0], 0)) and must(eq(s[1], n)))

    def complete(self, st):
        """All elements looked at (partitions)."""
        return self._complete(st, st.must)

    def completed(self, st):
        return self._complete(st, st.decide)
