"""A small abstract interpreter for code that links elements into lists and
tables: integers are linear forms over symbols under linear facts, the heap is
a set of named elements, list segments of unknown length and tables of unknown
content.  The heap is materialised on demand and folded back at loop heads."""
from fractions import Fraction
from sa.ir import Inconclusive


# ------------------------------------------------------------------ linear forms
class Lin(tuple):
    """(const, ((symbol, coefficient), ...)) with sorted symbols; never constant."""
    __slots__ = ()


def sym(s):
    return Lin((0, ((s, 1),)))


def mk(c, d):
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    if not t:
        return c
    return Lin((c, t))


def ladd(a, b, m=1):
    """a + m*b"""
    if isinstance(a, int) and isinstance(b, int):
        return a + m * b
    if isinstance(a, int):
        c, d = a, {}
    else:
        c, d = a[0], dict(a[1])
    if isinstance(b, int):
        return mk(c + m * b, d)
    for s, k in b[1]:
        d[s] = d.get(s, 0) + m * k
    return mk(c + m * b[0], d)


def lscale(a, m):
    if isinstance(a, int):
        return a * m
    return mk(a[0] * m, {s: k * m for s, k in a[1]})


def lsyms(a):
    return [] if isinstance(a, int) else [s for s, _ in a[1]]


def lsubst(a, env):
    if isinstance(a, int):
        return a
    if not any(s in env for s, _ in a[1]):
        return a
    r = a[0]
    d = {}
    for s, k in a[1]:
        v = env.get(s)
        if v is None:
            d[s] = d.get(s, 0) + k
        elif isinstance(v, int):
            r += k * v
        else:
            r += k * v[0]
            for s2, k2 in v[1]:
                d[s2] = d.get(s2, 0) + k * k2
    return mk(r, d)


def isnum(v):
    return isinstance(v, (int, Lin)) and not isinstance(v, bool)


def show(v):
    if isinstance(v, Lin):
        r = ' '.join(('%+d*%s' % (k, s)) if abs(k) != 1 else ('+' if k > 0 else '-') + str(s) for s, k in v[1])
        return r + (' %+d' % v[0] if v[0] else '')
    return str(v)


# ------------------------------------------------------------------ facts
class Facts:
    """Conjunction of linear equalities (solved), inequalities and disequalities."""
    __slots__ = ('env', 'ges', 'nes', 'memo', 'bad')

    def __init__(self):
        self.env, self.ges, self.nes, self.memo, self.bad = {}, (), (), {}, False

    def copy(self):
        f = Facts()
        f.env, f.ges, f.nes, f.memo, f.bad = self.env, self.ges, self.nes, self.memo, self.bad
        return f

    def norm(self, l):
        return lsubst(l, self.env)

    def _tight(self, l):
        """l >= 0 with the coefficients divided by their gcd."""
        from math import gcd
        g = 0
        for _, k in l[1]:
            g = gcd(g, abs(k))
        if g > 1:
            return Lin((l[0] // g, tuple((s, k // g) for s, k in l[1])))
        return l

    def _infeasible(self, extra):
        """Fourier-Motzkin: is extra >= 0 inconsistent with the facts?"""
        want = set(lsyms(extra))
        todo = list(self.ges)
        use = [extra]
        ch = True
        while ch:
            ch = False
            rest = []
            for g in todo:
                ss = [s for s, _ in g[1]]
                if any(s in want for s in ss):
                    want.update(ss)
                    use.append(g)
                    ch = True
                else:
                    rest.append(g)
            todo = rest
        cons = {}
        for l in use:
            if isinstance(l, int):
                if l < 0:
                    return True
                continue
            l = self._tight(l)
            if l[1] not in cons or cons[l[1]] > l[0]:
                cons[l[1]] = l[0]
        while cons:
            cnt = {}
            for t in cons:
                for s, k in t:
                    p = cnt.setdefault(s, [0, 0])
                    p[k > 0] += 1
            # symbols bounded on one side only say nothing
            one = {s for s, p in cnt.items() if not p[0] or not p[1]}
            if one:
                cons = {t: c for t, c in cons.items() if not any(s in one for s, _ in t)}
                continue
            s = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x))
            pos, neg, new = [], [], {}
            for t, c in cons.items():
                k = dict(t).get(s)
                if k is None:
                    new[t] = c
                else:
                    (pos if k > 0 else neg).append((k, Lin((c, t))))
            for kp, p in pos:
                for kn, n in neg:
                    l = ladd(lscale(p, -kn), n, kp)
                    if isinstance(l, int):
                        if l < 0:
                            return True
                        continue
                    l = self._tight(l)
                    if l[1] not in new or new[l[1]] > l[0]:
                        new[l[1]] = l[0]
            cons = new
            if len(cons) > 400:
                return False
        return False

    def ge0(self, l):
        l = self.norm(l)
        if isinstance(l, int):
            return l >= 0
        r = self.memo.get(l)
        if r is None:
            r = False
            for g in self.ges:
                if g[1] == l[1] and g[0] <= l[0]:
                    r = True
                    break
            if not r:
                r = self._infeasible(ladd(-1, l, -1))
            self.memo[l] = r
        return r

    def eq0(self, l):
        l = self.norm(l)
        if isinstance(l, int):
            return l == 0
        return self.ge0(l) and self.ge0(lscale(l, -1))

    def ne0(self, l):
        l = self.norm(l)
        if isinstance(l, int):
            return l != 0
        if l in self.nes or lscale(l, -1) in self.nes:
            return True
        return self.ge0(ladd(-1, l)) or self.ge0(ladd(-1, l, -1))

    def decide(self, c):
        """True, False or None"""
        k, l = c
        if k == 'ge':
            if self.ge0(l):
                return True
            if self.ge0(ladd(-1, l, -1)):
                return False
            return None
        if self.ne0(l):
            return k == 'ne'
        if self.eq0(l):
            return k == 'eq'
        return None

    def assume(self, c):
        """Adds the condition; returns False if it contradicts the facts."""
        d = self.decide(c)
        if d is True:
            return True
        if d is False:
            self.bad = True
            return False
        k, l = c
        l = self.norm(l)
        self.memo = {}
        if k == 'ge':
            l = self._tight(l)
            self.ges = self.ges + (l,)
            if self.ge0(lscale(l, -1)):
                return self._solve(l)
            if self._nes_tight(l):
                return self.assume(('ge', ladd(-1, l)))
            return True
        if k == 'ne':
            if self.ge0(l):
                return self.assume(('ge', ladd(-1, l)))
            if self.ge0(lscale(l, -1)):
                return self.assume(('ge', ladd(-1, l, -1)))
            self.nes = self.nes + (l,)
            return True
        return self._solve(l)

    def _nes_tight(self, l):
        return l in self.nes or lscale(l, -1) in self.nes

    def _solve(self, l):
        cand = [(abs(k), s, k) for s, k in l[1]]
        best = None
        for a, s, k in cand:
            if a == 1:
                # prefer to eliminate the youngest symbol
                if best is None or _age(s) > _age(best[0]):
                    best = (s, k)
        if best is None:
            self.ges = self.ges + (l, lscale(l, -1))
            return True
        s, k = best
        rest = ladd(l, Lin((0, ((s, k),))), -1)
        v = lscale(rest, -k)
        e = {s: v}
        self.env = {x: lsubst(y, e) for x, y in self.env.items()}
        self.env[s] = v
        ges, seen = [], set()
        ok = True
        for g in self.ges:
            g = lsubst(g, e)
            if isinstance(g, int):
                if g < 0:
                    ok = False
                continue
            g = self._tight(g)
            if g not in seen:
                seen.add(g)
                ges.append(g)
        self.ges = tuple(ges)
        nes = []
        extra = []
        for n in self.nes:
            n = lsubst(n, e)
            if isinstance(n, int):
                if n == 0:
                    ok = False
                continue
            nes.append(n)
        self.nes = tuple(nes)
        self.memo = {}
        if not ok:
            self.bad = True
        return ok


def _age(s):
    """Younger symbols have larger numbers after '#'."""
    i = s.rfind('#')
    return int(s[i + 1:]) if i >= 0 else -1


# ------------------------------------------------------------------ forks
class Fork(Exception):
    def __init__(self, n):
        self.n = n


class Prune(Exception):
    pass


class Cut(Exception):
    """The path is not followed further; nothing is claimed about it."""

    def __init__(self, why):
        self.why = why


UNDEF = ('undef',)


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'regs', 'args', 'depth', 'visits')

    def __init__(self, fn, args, depth):
        self.fn, self.args, self.depth = fn, args, depth
        self.blk = self.idx = 0
        self.prev = None
        self.regs = {}
        self.visits = {}

    def copy(self):
        f = Frame(self.fn, self.args, self.depth)
        f.blk, f.idx, f.prev = self.blk, self.idx, self.prev
        f.regs = dict(self.regs)
        f.visits = dict(self.visits)
        return f


class State:
    def __init__(self):
        self.stack = []
        self.mem = {}
        self.facts = Facts()
        self.nodes = {}
        self.segs = {}
        self.maps = {}
        self.ghost = {}
        self.script = ()
        self.pos = 0
        self.path = None

    def copy(self):
        s = State.__new__(State)
        s.stack = list(self.stack)
        if s.stack:
            s.stack[-1] = s.stack[-1].copy()
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.nodes = dict(self.nodes)
        s.segs = dict(self.segs)
        s.maps = dict(self.maps)
        s.ghost = dict(self.ghost)
        s.script, s.pos, s.path = self.script, 0, self.path
        return s

    # choices -----------------------------------------------------------
    def choose(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.script):
            r = self.script[self.pos]
            self.pos += 1
            return r
        raise Fork(n)

    def norm(self, v):
        return self.facts.norm(v) if isinstance(v, Lin) else v

    def truth(self, c):
        """Truth of a condition on this path (the path forks if it is open)."""
        if isinstance(c, int):
            return bool(c)
        d = self.facts.decide(c)
        if d is not None:
            return d
        if self.choose(2) == 0:
            self.assume(c)
            return True
        self.assume(cnot(c))
        return False

    def assume(self, c):
        if not self.facts.assume(c):
            raise Prune()

    def known(self, c):
        return bool(c) if isinstance(c, int) else self.facts.decide(c) is True

    def step_note(self, what):
        self.path = (self.path, what)


def cnot(c):
    k, l = c
    if k == 'ge':
        return ('ge', ladd(-1, l, -1))
    return ('ne' if k == 'eq' else 'eq', l)


def iscond(v):
    return isinstance(v, tuple) and not isinstance(v, Lin) and len(v) == 2 and v[0] in ('ge', 'eq', 'ne')


def isptr(v):
    return isinstance(v, tuple) and not isinstance(v, Lin) and len(v) == 3 and v[0] == 'p'


BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


class Interp:
    """Interprets the IR; the heap is the subclass's."""
    MAXSTEPS = 4000000

    def __init__(self, prog):
        self.prog = prog
        self.nsym = 0
        self.steps = 0
        self.cuts = {}
        self.unknown = {}
        self.sites = set()
        self.fnsused = set()
        self.nstates = 0

    def fresh(self, name):
        self.nsym += 1
        return sym('%s#%d' % (name, self.nsym))

    # ------------------------------------------------------------ driver
    def explore(self, st):
        work = [st]
        while work:
            st = work.pop()
            self.nstates += 1
            while st is not None:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Inconclusive('step limit')
                n = st.copy()
                fr = n.stack[-1]
                i = fr.fn.blocks[fr.blk][fr.idx]
                try:
                    r = self.step(n, fr, i)
                except Fork as f:
                    for k in range(f.n - 1, 0, -1):
                        c = st.copy()
                        c.script = st.script + (k,)
                        work.append(c)
                    st = st.copy()
                    st.script = st.script + (0,)
                    continue
                except Prune:
                    break
                except Cut as c:
                    self.cuts[c.why] = self.cuts.get(c.why, 0) + 1
                    break
                if r is None:
                    break
                r.script = ()
                st = r

    def step(self, st, fr, i):
        f = getattr(self, 'i_' + i.o, None)
        if f is None:
            if i.o in BIN:
                f = self.i_bin
            else:
                if i.d is not None:
                    fr.regs[i.d] = self.opaque(st, i.t)
                fr.idx += 1
                return st
        return f(st, fr, i)

    def opaque(self, st, ty):
        if ty in ('float', 'double'):
            self.nsym += 1
            return ('fp', 'unk', self.nsym)
        v = self.fresh('unk')
        if ty == 'i1':
            return ('ne', v)
        return v

    def val(self, st, fr, v):
        k = v[0]
        if k == 'r':
            x = fr.regs.get(v[1], UNDEF)
        elif k == 'i':
            x, w = v[1], int(v[2])
            if w > 1 and x >= 1 << (w - 1):
                x -= 1 << w
            elif w == 1:
                x &= 1
        elif k == 'a':
            x = fr.args[v[1]]
        elif k == 'n':
            return 0
        elif k == 'g':
            return ('p', ('G', v[1]), v[2])
        elif k == 'f':
            return ('fp', 'const', v[1])
        elif k == 'cast':
            x = self.val(st, fr, v[1])
        elif k == 'agg':
            x = ('agg', {o: self.val(st, fr, w) for o, t, w in v[1] if t not in ('zero', 'bytes')})
        else:
            return UNDEF
        return st.norm(x)

    # ------------------------------------------------------------ control
    def i_br(self, st, fr, i):
        s = i.x['s']
        if not i.a:
            return self.goto(st, fr, s[0])
        t = self.cond(st, self.val(st, fr, i.a[0]))
        self.on_branch(st, fr, i, t)
        if i.line and fr.fn.repo:
            st.step_note('%s: %s' % (self.prog.fname(fr.fn, i.line), 'taken' if t else 'not taken'))
        return self.goto(st, fr, s[0] if t else s[1])

    def cond(self, st, c):
        if isinstance(c, int):
            return c & 1
        if iscond(c):
            return st.truth(c)
        if isptr(c):
            return True
        if isinstance(c, Lin):
            return st.truth(('ne', c))
        return st.choose(2) == 0

    def i_switch(self, st, fr, i):
        v = self.num(st, self.val(st, fr, i.a[0]))
        for c, b in i.x['cases']:
            if st.truth(('eq', ladd(v, c, -1))):
                return self.goto(st, fr, b)
        return self.goto(st, fr, i.x['def'])

    def goto(self, st, fr, b):
        src = fr.blk
        blk = fr.fn.blocks[b]
        vals = []
        n = 0
        for x in blk:
            if x.o != 'phi':
                break
            vals.append((x.d, self.val(st, fr, x.x['in'][src]) if src in x.x['in'] else UNDEF))
            n += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.prev, fr.blk, fr.idx = src, b, n
        lp = fr.fn.cfg['loops']
        if fr.visits:
            for h in [h for h in fr.visits if b not in lp[h]]:
                del fr.visits[h]
        if b in lp:
            return self.header(st, fr, b, src in lp[b])
        return st

    def header(self, st, fr, b, back):
        n = fr.visits[b] = fr.visits.get(b, 0) + 1
        if n > 6:
            raise Cut('loop bound')
        return st

    def i_ret(self, st, fr, i):
        v = self.val(st, fr, i.a[0]) if i.a else None
        if iscond(v):
            v = 1 if st.truth(v) else 0
        self.on_leave(st, fr, v)
        if len(st.stack) == 1:
            self.on_exit(st, fr, v)
            return None
        d = fr.depth
        for k in [k for k in st.mem if k[0][0] == 'A' and k[0][1] == d]:
            del st.mem[k]
        st.stack.pop()
        c = st.stack[-1] = st.stack[-1].copy()
        return self.setret(st, c, v)

    def setret(self, st, c, v):
        i = c.fn.blocks[c.blk][c.idx]
        if i.d is not None:
            c.regs[i.d] = UNDEF if v is None else v
        if i.o == 'invoke':
            return self.goto(st, c, i.x['s'][0])
        c.idx += 1
        return st

    def i_unreachable(self, st, fr, i):
        raise Prune()

    i_resume = i_landingpad = i_unreachable

    def i_call(self, st, fr, i):
        args = [self.val(st, fr, a) for a in i.a]
        f = i.x['f']
        if f[0] == 'g' and f[2] == 0:
            return self.call(st, fr, i, f[1], args)
        v = self.val(st, fr, f)
        if isptr(v) and v[1][0] == 'G' and v[2] == 0:
            return self.call(st, fr, i, v[1][1], args)
        raise Cut('call through an unknown pointer')

    i_invoke = i_call

    def call(self, st, fr, i, name, args):
        if name.startswith('llvm.lifetime.'):
            p = args[1]
            if isptr(p):
                for k in [k for k in st.mem if k[0] == p[1]]:
                    del st.mem[k]
            fr.idx += 1
            return st
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.copycells(st, args[0], args[1], args[2])
            fr.idx += 1
            return st
        if name.startswith('llvm.memset'):
            if isptr(args[0]) and isinstance(args[2], int):
                for o in range(0, args[2], 8):
                    self.store(st, fr, ('p', args[0][1], args[0][2] + o), 0 if args[1] == 0 else self.opaque(st, 'i64'), 'i64')
            fr.idx += 1
            return st
        if name.startswith('llvm.expect'):
            return self.setret(st, fr, args[0])
        if name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            big = st.truth(('ge', ladd(args[0], args[1], -1)))
            return self.setret(st, fr, args[0] if big == ('max' in name) else args[1])
        if name.startswith(('llvm.assume', 'llvm.dbg', 'llvm.experimental', 'llvm.stack', 'llvm.var.ann')):
            fr.idx += 1
            return st
        fn = self.prog.fns.get(name)
        if fr.fn.repo:
            self.sites.add((fr.fn.name, i.id))
        r = self.model(st, fr, i, fn, name, args)
        if r is not NotImplemented:
            return self.setret(st, fr, r[0])
        if fn is None or fn.decl or not self.follow(fn):
            return self.opaque_call(st, fr, i, fn, name, args)
        if len(st.stack) > 40:
            raise Cut('call depth')
        nf = Frame(fn, args, len(st.stack))
        st.stack.append(nf)
        self.fnsused.add(fn.name)
        self.on_enter(st, nf)
        return st

    def follow(self, fn):
        return fn.repo or fn.dem.startswith('drv::')

    def opaque_call(self, st, fr, i, fn, name, args):
        nm = fn.short if fn is not None else name
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        if i.x.get('noret'):
            raise Prune()
        return self.setret(st, fr, self.opaque(st, i.t) if i.d is not None else None)

    # ------------------------------------------------------------ memory
    def i_alloca(self, st, fr, i):
        fr.regs[i.d] = ('p', ('A', fr.depth, i.d), 0)
        fr.idx += 1
        return st

    def i_load(self, st, fr, i):
        fr.regs[i.d] = st.norm(self.load(st, fr, self.val(st, fr, i.a[0]), i.t))
        fr.idx += 1
        return st

    def i_store(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        if iscond(v):
            v = 1 if st.truth(v) else 0
        self.store(st, fr, self.val(st, fr, i.a[1]), v, i.x['vt'])
        fr.idx += 1
        return st

    def i_gep(self, st, fr, i):
        b = self.val(st, fr, i.a[0])
        off = i.x['c']
        for v, s in zip(i.a[1:], i.x['sc']):
            off = ladd(off, self.num(st, self.val(st, fr, v)), s)
        if not isptr(b) or not isinstance(off, int):
            if b == 0 and off == 0:
                fr.regs[i.d] = 0
            elif b == 0 and isinstance(off, int):
                fr.regs[i.d] = ('p', ('null',), off)
            else:
                fr.regs[i.d] = ('p', ('wild',), 0)
        else:
            fr.regs[i.d] = ('p', b[1], b[2] + off)
        fr.idx += 1
        return st

    def copycells(self, st, d, s, n):
        if not (isptr(d) and isptr(s) and isinstance(n, int)):
            raise Cut('copy of unknown memory')
        new = {}
        for (r, o), v in list(st.mem.items()):
            if r == s[1] and s[2] <= o < s[2] + n:
                new[o - s[2]] = v
        if s[1][0] not in ('A',):
            for o in self.knowncells(st, s, n):
                if o not in new:
                    new[o] = self.load(st, st.stack[-1], ('p', s[1], s[2] + o), 'i64')
        for k in [k for k in st.mem if k[0] == d[1] and d[2] <= k[1] < d[2] + n]:
            del st.mem[k]
        for o, v in new.items():
            self.store(st, st.stack[-1], ('p', d[1], d[2] + o), v, 'i64')

    def knowncells(self, st, s, n):
        return ()

    # ------------------------------------------------------------ arithmetic
    def num(self, st, v):
        if isinstance(v, Lin) or isinstance(v, int):
            return v
        if iscond(v):
            return 1 if st.truth(v) else 0
        return self.fresh('unk')

    def width(self, t):
        return 64 if t == 'ptr' else int(t[1:])

    def fits(self, st, v, lo, hi):
        return st.facts.ge0(ladd(v, lo, -1)) and st.facts.ge0(ladd(hi, v, -1))

    def i_icmp(self, st, fr, i):
        a, b = self.val(st, fr, i.a[0]), self.val(st, fr, i.a[1])
        fr.regs[i.d] = self.icmp(st, i.x['p'], a, b)
        fr.idx += 1
        return st

    def icmp(self, st, p, a, b):
        if isptr(a) or isptr(b):
            if isptr(a) and isptr(b):
                e = self.sameptr(st, a, b)
            else:
                e = 0
            if p == 'eq':
                return e
            if p == 'ne':
                return 1 - e
            return self.opaque(st, 'i1')
        if not isnum(a):
            a = self.num(st, a)
        if not isnum(b):
            b = self.num(st, b)
        d = ladd(a, b, -1)
        if p in ('eq', 'ne'):
            c = (p, d)
        else:
            q = p[1:]
            c = {'ge': ('ge', d), 'gt': ('ge', ladd(-1, d)), 'le': ('ge', lscale(d, -1)), 'lt': ('ge', ladd(-1, d, -1))}[q]
        r = st.facts.decide(c) if not isinstance(d, int) else (
            (d == 0) if c[0] == 'eq' else (d != 0) if c[0] == 'ne' else c[1] >= 0)
        if r is not None:
            return 1 if r else 0
        return c

    def sameptr(self, st, a, b):
        return 1 if a == b else 0

    def i_fcmp(self, st, fr, i):
        fr.regs[i.d] = self.opaque(st, 'i1')
        fr.idx += 1
        return st

    def i_zext(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        if iscond(v):
            v = 1 if st.truth(v) else 0
        fr.regs[i.d] = v
        fr.idx += 1
        return st

    i_sext = i_ptrtoint = i_inttoptr = i_bitcast = i_freeze = i_zext

    def i_trunc(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        w = self.width(i.t)
        if w == 1:
            fr.regs[i.d] = (v & 1) if isinstance(v, int) else (('ne', v) if isinstance(v, Lin) else v)
        elif isinstance(v, int):
            x = v & ((1 << w) - 1)
            fr.regs[i.d] = x - (1 << w) if x >= 1 << (w - 1) else x
        elif isinstance(v, Lin) and not self.fits(st, v, -(1 << (w - 1)), (1 << w) - 1):
            fr.regs[i.d] = sym('trunc%d(%s)' % (w, show(v)))
        else:
            fr.regs[i.d] = v
        fr.idx += 1
        return st

    def i_select(self, st, fr, i):
        c = self.cond(st, self.val(st, fr, i.a[0]))
        fr.regs[i.d] = self.val(st, fr, i.a[1] if c else i.a[2])
        fr.idx += 1
        return st

    def i_extractvalue(self, st, fr, i):
        a = self.val(st, fr, i.a[0])
        off = i.x['ot'][3][i.x['i'][0]]
        v = UNDEF
        if isinstance(a, tuple) and a and a[0] == 'agg':
            if isinstance(i.t, list):
                v = ('agg', {o - off: x for o, x in a[1].items() if off <= o < off + i.t[1]})
            else:
                v = a[1].get(off, UNDEF)
        fr.regs[i.d] = v
        fr.idx += 1
        return st

    def i_insertvalue(self, st, fr, i):
        a = self.val(st, fr, i.a[0])
        off = i.t[3][i.x['i'][0]]
        d = dict(a[1]) if isinstance(a, tuple) and a and a[0] == 'agg' else {}
        v = self.val(st, fr, i.a[1])
        if isinstance(v, tuple) and v and v[0] == 'agg':
            for o, x in v[1].items():
                d[off + o] = x
        else:
            d[off] = v
        fr.regs[i.d] = ('agg', d)
        fr.idx += 1
        return st

    def i_bin(self, st, fr, i):
        o = i.o
        a, b = self.val(st, fr, i.a[0]), self.val(st, fr, i.a[1])
        fr.regs[i.d] = self.bin(st, o, a, b, i.t)
        fr.idx += 1
        return st

    def bin(self, st, o, a, b, t):
        if o[0] == 'f':
            return ('fp', o, a, b)
        if t == 'i1' or iscond(a) or iscond(b):
            ca, cb = bool(self.cond(st, a)), None
            cb = bool(self.cond(st, b))
            return int({'and': ca and cb, 'or': ca or cb, 'xor': ca != cb}.get(o, False))
        if not isnum(a) or not isnum(b):
            return self.opaque(st, t)
        if o == 'add':
            return ladd(a, b)
        if o == 'sub':
            return ladd(a, b, -1)
        if o == 'mul' and (isinstance(a, int) or isinstance(b, int)):
            return lscale(b, a) if isinstance(a, int) else lscale(a, b)
        if isinstance(a, int) and isinstance(b, int):
            if o in ('sdiv', 'udiv') and b:
                return int(Fraction(a, b))
            if o in ('srem', 'urem') and b:
                return a - b * int(Fraction(a, b))
            if o in ('and', 'or', 'xor') and a >= 0 and b >= 0:
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[o]
            if o == 'shl':
                return a << b
            if o in ('ashr', 'lshr') and a >= 0:
                return a >> b
        if o == 'sdiv' and isinstance(b, int) and b > 0 and isinstance(a, Lin):
            if a[0] % b == 0 and all(k % b == 0 for _, k in a[1]):
                return mk(a[0] // b, {s: k // b for s, k in a[1]})
        if o == 'xor' and b == -1:
            return ladd(-1, a, -1)
        if o == 'shl' and isinstance(b, int):
            return lscale(a, 1 << b)
        return sym('%s(%s,%s)' % (o, show(a), show(b)))

    def i_fptosi(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        fr.regs[i.d] = sym('int(%s)' % (v,))
        fr.idx += 1
        return st

    i_fptoui = i_fptosi

    def i_sitofp(self, st, fr, i):
        fr.regs[i.d] = ('fp', 'of', self.val(st, fr, i.a[0]))
        fr.idx += 1
        return st

    i_uitofp = i_sitofp

    def i_phi(self, st, fr, i):
        fr.idx += 1
        return st

    # hooks ---------------------------------------------------------------
    def on_branch(self, st, fr, i, t):
        pass

    def on_enter(self, st, fr):
        pass

    def on_leave(self, st, fr, v):
        pass

    def on_exit(self, st, fr, v):
        pass

    def model(self, st, fr, i, fn, name, args):
        return NotImplemented
