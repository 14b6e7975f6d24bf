"""Abstract states: memory, facts, frames, ghost state."""
from .term import *
from .term import T
from . import lin as L


class Split(Exception):
    """The transfer function needs this condition decided: the abstract state
    is partitioned on it and the instruction is applied to both parts."""
    def __init__(self, cond):
        self.cond = cond


class Universe(Exception):
    """Partition on the declared finite universe of a string."""
    def __init__(self, term, consts):
        self.term, self.consts = term, consts


class Frame:
    __slots__ = ('fn', 'regs', 'args', 'ctx', 'allocas', 'inst', 'blk', 'idx', 'prev', 'ci', 'tag')

    def __init__(self, fn, args, ctx):
        self.fn, self.args, self.ctx = fn, args, ctx
        self.regs = {}
        self.allocas = []
        self.inst = None
        self.blk = self.idx = 0
        self.prev = None
        self.ci = {}
        self.tag = None

    def copy(self):
        f = Frame(self.fn, self.args, self.ctx)
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.inst = self.inst
        f.blk, f.idx, f.prev = self.blk, self.idx, self.prev
        f.ci = dict(self.ci)
        f.tag = self.tag
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.objs = {}
        self.env = {}
        self.atoms = {}
        self.lin = []
        self.neq = []
        self.fl = {}
        self.other = frozenset()
        self.stack = []
        self.ghost = {}
        self.cnt = {}
        self.loops = {}
        self.conc = {}
        self.trace = None
        self.cfg = None      # shared configuration (universe function)
        self._nm = {}
        self._dm = {}
        self.flog = []       # fresh symbols taken by the current instruction

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.objs = dict(self.objs)
        s.env = dict(self.env)
        s.atoms = dict(self.atoms)
        s.lin = list(self.lin)
        s.neq = list(self.neq)
        s.fl = dict(self.fl)
        s.other = self.other
        s.stack = self.stack[:-1] + [self.stack[-1].copy()] if self.stack else []
        s.ghost = dict(self.ghost)
        s.cnt = dict(self.cnt)
        s.loops = dict(self.loops)
        s.conc = dict(self.conc)
        s.trace = self.trace
        s.cfg = self.cfg
        s._nm = self._nm
        s._dm = self._dm
        s.flog = []
        return s

    # ------------------------------------------------------------ memory
    def get(self, obj, off):
        m = self.mem.get(obj)
        return None if m is None else m.get(off)

    def put(self, obj, off, v):
        m = self.mem.get(obj)
        if m is None:
            m = self.mem[obj] = {}
            self.owned.add(obj)
        elif obj not in self.owned:
            m = self.mem[obj] = dict(m)
            self.owned.add(obj)
        m[off] = v

    def pop(self, obj, off):
        m = self.mem.get(obj)
        if m is not None and off in m:
            if obj not in self.owned:
                m = self.mem[obj] = dict(m)
                self.owned.add(obj)
            return m.pop(off)
        return None

    def drop(self, obj):
        self.mem.pop(obj, None)
        self.objs.pop(obj, None)
        for pre in ('bufbytes', 'cr'):
            self.mem.pop(T(pre, obj), None)
        if obj.op == 'heap':
            for o in [o for o in self.mem if obj in o.objs]:
                self.mem.pop(o, None)
            # the name may be used again: facts about this incarnation end here
            if any(obj in a.objs for a in self.atoms):
                self.atoms = {a: v for a, v in self.atoms.items() if obj not in a.objs}
                self.dirty()
            if any(obj in l.objs for l in self.lin):
                self.lin = [l for l in self.lin if obj not in l.objs]
                self.dirty()
            if any(obj in l.objs for l in self.neq):
                self.neq = [l for l in self.neq if obj not in l.objs]
                self.dirty()

    norm2 = None

    def forget(self, t):
        """Drop the facts that mention t (a sound widening)."""
        def m(x):
            return isinstance(x, Term) and (t in x.subs or t in self.norm2(x).subs)
        self.norm2 = lambda x: (lambda y: y if isinstance(y, Term) else NULL)(self.norm(x))
        atoms = {a: v for a, v in self.atoms.items() if not m(a)}
        lin = [l for l in self.lin if not m(l)]
        neq = [l for l in self.neq if not m(l)]
        fl = {a: v for a, v in self.fl.items() if not m(a)}
        self.norm2 = None
        env = {}
        drop = {}
        for k, v in self.env.items():
            (drop if t in k.subs or isinstance(v, Term) and t in v.subs else env)[k] = v
        self.atoms, self.lin, self.neq, self.fl = atoms, lin, neq, fl
        if drop:
            self.env = env
        self.dirty(True)

    def note(self, what):
        self.trace = (self.trace, what)

    # ------------------------------------------------------------ facts
    def dirty(self, envchange=False):
        if envchange:
            self._nm = {}
        self._dm = {}

    def norm(self, t):
        if not isinstance(t, Term):
            return t
        if not self.env or t.subs.isdisjoint(self.env):
            return t
        r = self._nm.get(t)
        if r is None:
            r = t
            for _ in range(50):
                n = subst(r, self.env)
                if n is r or (not isinstance(n, Term) and n == r):
                    break
                r = n
                if not isinstance(r, Term):
                    break
            self._nm[t] = r
        return r

    def _related(self, l):
        """Linear facts connected with l."""
        facts = [self.norm(x) for x in self.lin]
        want = set(x for x, _ in lparts(l)[1])
        # facts about div atoms
        extra = []
        out = []
        todo = [(f, set(x for x, _ in lparts(f)[1])) for f in facts]
        done_div = set()
        ch = True
        while ch:
            ch = False
            rest = []
            for f, vs in todo:
                if vs & want or not vs:
                    out.append(f)
                    if not vs <= want:
                        want |= vs
                        ch = True
                else:
                    rest.append((f, vs))
            todo = rest
            for x in list(want):
                if x.op == 'div' and x not in done_div:
                    done_div.add(x)
                    r = sub(x.args[0], scale(x, x.args[1]))
                    out.append(r)
                    out.append(sub(x.args[1] - 1, r))
                    want |= set(y for y, _ in lparts(r)[1])
                    ch = True
        return out

    def entails_ge0(self, l):
        """l >= 0 follows from the facts."""
        l = self.norm(l)
        b = ge0(l)
        if isinstance(b, int):
            return bool(b)
        l = b.args[0]
        neg = sub(scale(l, -1), 1)
        rel = self._related(neg)
        if not rel:
            return False
        return L.empty(rel + [neg])

    def decide(self, c):
        if isinstance(c, int):
            return bool(c)
        c = self.norm(c)
        if isinstance(c, int):
            return bool(c)
        r = self._dm.get(c, 0)
        if r == 0:
            r = self._dm[c] = self._decide(c)
        return r

    def _decide(self, c):
        o = c.op
        if o == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        r = self.atoms.get(c)
        if r is not None:
            return r
        if o == 'and':
            a = self.decide(c.args[0])
            b = self.decide(c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if o == 'ge0':
            l = c.args[0]
            if self.entails_ge0(l):
                return True
            if self.entails_ge0(sub(scale(l, -1), 1)):
                return False
            # from disequalities
            return None
        if o == 'eq0':
            l = c.args[0]
            for n in self.neq:
                n = self.norm(n)
                if n is l or (isinstance(n, Term) and scale(n, -1) is l):
                    return False
            if self.entails_ge0(sub(l, 1)) or self.entails_ge0(sub(scale(l, -1), 1)):
                return False
            if self.entails_ge0(l) and self.entails_ge0(scale(l, -1)):
                return True
            c0, p = lparts(l)
            if len(p) == 1 and p[0][0].op == 'at' and abs(p[0][1]) == 1:
                s, i = p[0][0].args
                ch = -c0 * p[0][1]
                if i == 0:
                    for a, v in self.atoms.items():
                        if v and a.op == 'startswith' and a.args[0] is s and isinstance(a.args[1], str) and ord(a.args[1][0]) != ch:
                            return False
            return None
        if o == 'seq':
            a, b = c.args
            n = self.norm(mk_size(a))
            m = self.norm(mk_size(b))
            d = sub(n, m)
            if isinstance(d, int):
                if d != 0:
                    return False
            elif self.lin and self._decide_neq_quick(d):
                return False
            if isinstance(b, str):
                for x, v in self.atoms.items():
                    if x.op == 'startswith' and x.args[0] is a and isinstance(x.args[1], str) and b.startswith(x.args[1]) != v:
                        return False
                    if x.op == 'endswith' and x.args[0] is a and isinstance(x.args[1], str) and b.endswith(x.args[1]) != v:
                        return False
                return self._chars_known(a, b)
            return None
        if o in ('startswith', 'endswith'):
            s, p = c.args
            if isinstance(p, str):
                sw = o == 'startswith'
                for x, v in self.atoms.items():
                    if x.op == o and x.args[0] is s and isinstance(x.args[1], str):
                        q = x.args[1]
                        pre = q.startswith(p) if sw else q.endswith(p)
                        pre2 = p.startswith(q) if sw else p.endswith(q)
                        if v and pre:
                            return True
                        if v and not pre2:
                            return False
                        if not v and pre2:
                            return False
                if self.entails_ge0(sub(len(p) - 1, mk_size(s))):
                    return False
                if len(p) == 1 and isinstance(s, Term):
                    t = mk_at(s, sub(mk_size(s), 1) if o == 'endswith' else 0)
                    if isinstance(t, Term) and (self.entails_ge0(sub(t, ord(p) + 1)) or self.entails_ge0(sub(ord(p) - 1, t))):
                        return False
            return None
        if o in ('fge', 'fgt'):
            x, k = c.args
            iv = self.finterval(x)
            lo, los, hi, his = iv
            if o == 'fge':
                if lo >= k:
                    return True
                if hi < k or (hi == k and his):
                    return False
            else:
                if lo > k or (lo == k and los):
                    return True
                if hi <= k:
                    return False
            return None
        if o == 'peq':
            return None
        return None

    def _chars_known(self, a, b):
        """a == b from what is known about single characters of a."""
        n = len(b)
        full = self.norm(mk_size(a))
        full = isinstance(full, int) and full == n
        known = [None] * n
        for x, v in self.atoms.items():
            if not v or x.op not in ('startswith', 'endswith') or x.args[0] is not a or not isinstance(x.args[1], str):
                continue
            q = x.args[1]
            if x.op == 'startswith':
                for k, ch in enumerate(q[:n]):
                    known[k] = ch
            elif full:
                for k, ch in enumerate(q[-n:]):
                    known[n - len(q[-n:]) + k] = ch
        for y in slices_of(a):
            o, m = y.args[1:]
            if o + m > n:
                continue
            w = self.env.get(y)
            if isinstance(w, str):
                for k, ch in enumerate(w):
                    known[o + k] = ch
            else:
                c = mk_seq(y, b[o:o + m])
                if isinstance(c, Term) and self.atoms.get(c) is False:
                    return False
        for k in range(n):
            if known[k] is None:
                y = T('at', a, k)
                w = self.env.get(y)
                if isinstance(w, int):
                    known[k] = chr(w & 255)
                else:
                    for l in self.neq:
                        c0, p = lparts(l)
                        if len(p) == 1 and p[0][0] is y and abs(p[0][1]) == 1 and -c0 * p[0][1] == ord(b[k]):
                            return False
        if any(x is not None and x != y for x, y in zip(known, b)):
            return False
        if full and all(x is not None for x in known):
            return True
        return None

    def _decide_neq_quick(self, d):
        c = eq0(d)
        if isinstance(c, int):
            return c == 0
        if self.atoms.get(c) is False:
            return True
        l = c.args[0] if c.op == 'eq0' else None
        if l is None:
            return False
        return self.entails_ge0(sub(l, 1)) or self.entails_ge0(sub(scale(l, -1), 1))

    def finterval(self, x):
        inf = float('inf')
        if isinstance(x, (int, float)):
            return (float(x), False, float(x), False)
        iv = self.fl.get(x, (-inf, False, inf, False))
        if x.op == 'fmul' and x.args[1] > 0:
            k = x.args[1]
            a = self.finterval(x.args[0])
            lo, los, hi, his = iv
            l2, h2 = a[0] * k, a[2] * k
            if l2 > lo or (l2 == lo and a[1]):
                lo, los = l2, a[1]
            if h2 < hi or (h2 == hi and a[3]):
                hi, his = h2, a[3]
            iv = (lo, los, hi, his)
        return iv

    def must(self, c):
        """Decide or partition."""
        r = self.decide(c)
        if r is None:
            c = self.norm(c)
            while c.op == 'not':
                c = c.args[0]
            if c.op == 'and':
                for x in c.args:
                    if self.decide(x) is None:
                        self.must(x)
            if self.cfg:
                for t in c.args:
                    u = self.universe_of(t)
                    if u:
                        raise Universe(t, u)
            raise Split(c)
        return r

    def universe_of(self, t):
        if not isinstance(t, Term) or not self.cfg:
            return None
        if t.op in ('substr', 'at', 'size', 'lin', 'concat'):
            for s in t.subs:
                if s is not t and s.op in ('init', 'sym') and s not in self.other:
                    u = self.cfg(s)
                    if u:
                        raise Universe(s, u)
            return None
        if t in self.other:
            return None
        return self.cfg(t)

    def recheck(self, keyset):
        """Re-normalise facts after a substitution; False if contradictory."""
        at = {}
        for a, v in self.atoms.items():
            if a.subs.isdisjoint(keyset):
                at[a] = v
                continue
            n = self.norm(a)
            while isinstance(n, Term) and n.op == 'not':
                n, v = n.args[0], not v
            if isinstance(n, int):
                if bool(n) != v:
                    return False
                continue
            if n in at and at[n] != v:
                return False
            at[n] = v
        self.atoms = at
        ll = []
        for l in self.lin:
            n = self.norm(l)
            if isinstance(n, int):
                if n < 0:
                    return False
                continue
            ll.append(n)
        self.lin = ll
        nn = []
        for l in self.neq:
            n = self.norm(l)
            if isinstance(n, int):
                if n == 0:
                    return False
                continue
            nn.append(n)
        self.neq = nn
        self.dirty()
        # consistency between atoms and sizes
        for a, v in list(self.atoms.items()):
            if a.op in ('seq',) and v:
                return self.assume(a, True)
        return True

    def bind(self, k, v):
        stale = [x for x in self.env if x is not k and k in x.subs]
        self.env[k] = v
        self.dirty(True)
        if stale:
            # equations about terms that mention k speak of their new names
            old = [(x, self.env.pop(x)) for x in stale]
            self.dirty(True)
            for x, w in old:
                n = self.norm(x)
                w = self.norm(w) if isinstance(w, Term) else w
                if n is w or not isinstance(n, Term) and not isinstance(w, Term):
                    if n is not w and n != w:
                        return False
                    continue
                if n is x:
                    self.env[x] = w
                    self.dirty(True)
                elif isinstance(n, Term) and n.op != 'lin' and n.op != 'concat' and not (isinstance(w, Term) and n in w.subs):
                    if not self.bind(n, w):
                        return False
                elif isinstance(n, str) or isinstance(w, str) or isinstance(n, Term) and n.op == 'concat':
                    if not self.assume(mk_seq(n, w), True):
                        return False
                elif not self.assume(eq(n, w), True):
                    return False
        if k.op == 'nsplit' and v == 1 and isinstance(k.args[0], Term):
            x = self.norm(T('splitpart', k.args[0], k.args[1], 0))
            if isinstance(x, Term) and x.op == 'splitpart' and x not in self.norm(k.args[0]).subs:
                # the only part is the whole
                if not self.bind(x, self.norm(k.args[0])):
                    return False
        if k.op == 'size' and v == 0 and isinstance(k.args[0], Term):
            self.env[k.args[0]] = ''
            return self.recheck({k, k.args[0]})
        return self.recheck({k})

    def assume(self, c, truth=True):
        """Add a fact; False if the state becomes empty."""
        if isinstance(c, int):
            return bool(c) == truth
        c = self.norm(c)
        if isinstance(c, int):
            return bool(c) == truth
        if c.op == 'not':
            return self.assume(c.args[0], not truth)
        d = self.decide(c)
        if d is not None:
            return d == truth
        o = c.op
        if o == 'and':
            if truth:
                return self.assume(c.args[0], True) and self.assume(c.args[1], True)
            a, b = c.args
            if self.decide(a):
                return self.assume(b, False)
            if self.decide(b):
                return self.assume(a, False)
            self.atoms[c] = False
            self.dirty()
            return True
        if o == 'ge0':
            l = c.args[0]
            if not truth:
                l = sub(scale(l, -1), 1)
            self.lin.append(l)
            self.dirty()
            nn = self.neq
            self.neq = []
            for n in nn:
                n = self.norm(n)
                if not self._addneq(n):
                    return False
            # an equality implied (x>=0 and x<=0)?
            if self.entails_ge0(scale(l, -1)):
                return self._solve(l)
            return True
        if o == 'eq0':
            l = c.args[0]
            if truth:
                return self._solve(l)
            return self._addneq(l)
        if o == 'seq':
            a, b = c.args
            if not truth:
                self.atoms[c] = False
                self.dirty()
                return True
            # bind
            if isinstance(b, str):
                if a.op in ('concat',):
                    self.atoms[c] = True
                    self.dirty()
                    return True
                ok = self.bind(a, b)
            else:
                if a.id < b.id:
                    a, b = b, a
                if a in b.subs:
                    a, b = b, a
                if a in b.subs:
                    self.atoms[c] = True
                    self.dirty()
                    return True
                ok = self.bind(a, b)
            if not ok:
                return False
            sa, sb = T('size', a), self.norm(mk_size(b))
            ns = self.norm(sa)
            return True
        if o in ('startswith', 'endswith') and truth:
            self.atoms[c] = True
            self.dirty()
            p = c.args[1]
            return self.assume(ge0(sub(mk_size(c.args[0]), mk_size(p))), True)
        if o in ('fge', 'fgt'):
            x, k = c.args
            lo, los, hi, his = self.finterval(x)
            if o == 'fge':
                if truth:
                    lo, los = k, False
                else:
                    hi, his = k, True
            else:
                if truth:
                    lo, los = k, True
                else:
                    hi, his = k, False
            self.fl[x] = (lo, los, hi, his)
            self.dirty()
            return True
        self.atoms[c] = truth
        self.dirty()
        if o == 'isnull' and truth:
            pass
        return True

    def _addneq(self, l):
        if isinstance(l, int):
            return l != 0
        if self.entails_ge0(l):
            return self.assume(ge0(sub(l, 1)), True)
        if self.entails_ge0(scale(l, -1)):
            return self.assume(ge0(sub(scale(l, -1), 1)), True)
        self.neq.append(l)
        self.dirty()
        return True

    def _solve(self, l):
        """assume l == 0"""
        l = self.norm(l)
        if isinstance(l, int):
            return l == 0
        c, p = lparts(l)
        cand = [(x, k) for x, k in p if abs(k) == 1 and x.op not in BOOL]
        cand = [(x, k) for x, k in cand if not any(x in y.subs for y, _ in p if y is not x)]
        if cand:
            # prefer the newest atom
            x, k = max(cand, key=lambda z: z[0].id)
            e = scale(sub(l, scale(x, k)), -k)
            lo, hi = rng(x)
            if x.op == 'div':
                self.lin.append(sub(l, 0))
                self.lin.append(scale(l, -1))
                self.dirty()
                return True
            if not self.bind(x, e):
                return False
            ne = self.norm(e)
            for q in (sub(ne, lo), sub(hi, ne)):
                b = ge0(q)
                if isinstance(b, int):
                    if not b:
                        return False
                else:
                    if self.decide(b) is False:
                        return False
                    self.lin.append(b.args[0])
            self.dirty()
            return True
        self.lin.append(l)
        self.lin.append(scale(l, -1))
        self.dirty()
        return True

    # fresh symbols are numbered per state
    def fresh(self, name, site, *tail):
        k = (name, site)
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        self.flog.append(k)
        return T('ret', name, site, n, *tail)

    def facts_str(self):
        r = []
        for k, v in self.env.items():
            r.append('%s = %s' % (show(k), show(v)))
        for a, v in self.atoms.items():
            r.append(('' if v else 'not ') + show(a))
        for l in self.lin:
            r.append('%s >= 0' % show(l))
        for l in self.neq:
            r.append('%s != 0' % show(l))
        for x, iv in self.fl.items():
            r.append('%s in %s' % (show(x), iv))
        return r
