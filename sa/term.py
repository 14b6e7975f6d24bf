"""Hash-consed terms: the value numbers of the abstract domain.

A value is a python int (integer constant), python str (constant byte string,
latin-1), python float, or a Term.  Integer expressions are linear combinations
('lin') of atoms; everything the domain does not interpret is an opaque atom, so
equal terms denote equal values.
"""
import itertools
_tab = {}
_ids = itertools.count()
FRESH = {'ret', 'phi', 'havoc', 'elemsym'}
OBJ = {'alloca', 'heap'}
_E = frozenset()


class Term:
    __slots__ = ('op', 'args', 'id', 'subs', 'fresh', 'objs', '_h')

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (_rebuild, (self.op, self.args))


def _rebuild(op, args):
    return T(op, *args)


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    t.id = next(_ids)
    t._h = hash((op, t.id))
    subs = {t}
    fresh = set()
    objs = set()
    if op in FRESH:
        fresh.add(t)
    if op in OBJ:
        objs.add(t)
    else:
        st = list(args)
        while st:
            a = st.pop()
            if isinstance(a, Term):
                subs |= a.subs
                fresh |= a.fresh
                objs |= a.objs
            elif isinstance(a, tuple):
                st.extend(a)
    t.subs = frozenset(subs)
    t.fresh = frozenset(fresh) if fresh else _E
    t.objs = frozenset(objs) if objs else _E
    _tab[k] = t
    return t


NULL = T('null')
UNDEF = T('undef')
TOP = T('top')          # lost by a join
PROJ = T('top', 1)      # forgotten on purpose: every value is possible


class Agg(dict):
    """A first-class aggregate: byte offset -> value."""
    def __hash__(self):
        return hash(tuple(sorted(self.items(), key=lambda x: x[0])))


def ptr(obj, off=0):
    return T('ptr', obj, off)


def is_ptr(v):
    return isinstance(v, Term) and v.op == 'ptr'


def show(t, d=0):
    if isinstance(t, str):
        s = repr(t)
        return s if len(s) < 60 else s[:57] + "...'"
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 7:
        return '..'
    o, a = t.op, t.args
    if o == 'lin':
        r = []
        for x, c in a[1]:
            r.append((('%d*' % c) if c not in (1, -1) else ('-' if c == -1 else '')) + show(x, d + 1))
        if a[0] or not r:
            r.append(str(a[0]))
        return '(' + ' + '.join(r).replace('+ -', '- ') + ')'
    if o == 'obj':
        return str(a[0])
    if o == 'ptr':
        return '&%s' % show(a[0], d + 1) + ('' if a[1] == 0 else '+%s' % show(a[1], d + 1))
    if o == 'init':
        f = fieldname(a[0], a[1])
        return '%s.%s' % (show(a[0], d + 1), f)
    if o == 'deref':
        return '*%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    if o in ('alloca', 'heap'):
        return '%s%s' % (o, a[-2:] if o == 'heap' else (a[-1],))
    if o == 'ret':
        return '%s()#%s' % (a[0], a[2])
    if o == 'phi':
        return 'phi%d' % (t.id % 1000)
    if not a:
        return o
    return o + '(' + ','.join(show(x, d + 1) for x in a) + ')'


_layout_hook = [None]


def fieldname(obj, off):
    h = _layout_hook[0]
    r = h(obj, off) if h else None
    return r or ('+%s' % show(off))


# ---------------------------------------------------------------- linear terms
def lparts(v):
    if isinstance(v, int):
        return v, ()
    if v.op == 'lin':
        return v.args
    return 0, ((v, 1),)


def mklin(c, d):
    it = [(a, k) for a, k in d.items() if k]
    if not it:
        return c
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    it.sort(key=lambda x: x[0].id)
    return T('lin', c, tuple(it))


def add(a, b, kb=1):
    """a + kb*b"""
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    ca, pa = lparts(a)
    cb, pb = lparts(b)
    d = dict(pa)
    for x, k in pb:
        d[x] = d.get(x, 0) + k * kb
    return mklin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    return add(0, a, k)


# ---------------------------------------------------------------- ranges
U64 = (1 << 64) - 1
NPOS = U64


def rng(t):
    """Range of an integer atom."""
    o, a = t.op, t.args
    if o == 'count' and isinstance(a[0], Term) and a[0].op == 'rptr':
        return 0, (1 << 31) - 1
    if o in ('size', 'count', 'nsplit'):
        return 0, 1 << 62
    if o in ('at', 'byte'):
        return 0, 255
    if o == 'phi' or o == 'havoc':
        return (a[-2], a[-1]) if a[-2] is not None else (-(1 << 63), U64)
    if o == 'ret' or o == 'init':
        return tyrange(a[-1])
    if o == 'elemsym':
        return tyrange(a[-1])
    if o == 'kind':
        return 0, 6
    if o == 'div':
        lo, hi = bounds(a[0])
        return lo // a[1], hi // a[1]
    if o in BOOL:
        return 0, 1
    if o == 'trunc':
        return 0, (1 << a[1]) - 1
    if o == 'idx':
        return 0, 1 << 62
    if o == 'f2u':
        return 0, (1 << a[1]) - 1
    if o == 'f2s':
        return -(1 << (a[1] - 1)), (1 << (a[1] - 1)) - 1
    if o == 'irange':
        return a[-2], a[-1]
    if o in ('cmpres', 'cmp3'):
        return -(1 << 31), (1 << 31) - 1
    return -(1 << 63), U64


def tyrange(ty):
    if isinstance(ty, tuple):
        return ty
    if ty == 's64':
        return -(1 << 63), (1 << 63) - 1
    if ty == 's32' or ty == 'i32':
        return -(1 << 31), (1 << 31) - 1
    if ty and ty[0] in 'iu' and ty[1:].isdigit():
        return 0, (1 << int(ty[1:])) - 1
    return -(1 << 63), U64


def bounds(v):
    c, p = lparts(v)
    lo = hi = c
    for x, k in p:
        l, h = rng(x)
        if k > 0:
            lo += k * l
            hi += k * h
        else:
            lo += k * h
            hi += k * l
    return lo, hi


# ---------------------------------------------------------------- booleans
BOOL = {'eq0', 'ge0', 'not', 'and', 'or', 'seq', 'startswith', 'endswith', 'isnull', 'peq', 'has', 'pred',
        'inset', 'fge', 'fgt', 'found', 'iequals'}


def is_bool(t):
    return isinstance(t, Term) and (t.op in BOOL)


def bnot(c):
    if isinstance(c, int):
        return 1 - c
    if c.op == 'not':
        return c.args[0]
    return T('not', c)


def ge0(l):
    """l >= 0"""
    if isinstance(l, int):
        return int(l >= 0)
    lo, hi = bounds(l)
    if lo >= 0:
        return 1
    if hi < 0:
        return 0
    c, p = lparts(l)
    g = 0
    from math import gcd
    for _, k in p:
        g = gcd(g, abs(k))
    if g > 1:
        l = mklin(c // g, {x: k // g for x, k in p})
    return T('ge0', l)


def eq0(l):
    if isinstance(l, int):
        return int(l == 0)
    lo, hi = bounds(l)
    if lo > 0 or hi < 0:
        return 0
    c, p = lparts(l)
    from math import gcd
    g = 0
    for _, k in p:
        g = gcd(g, abs(k))
    if c % g:
        return 0
    if g > 1:
        l = mklin(c // g, {x: k // g for x, k in p})
        c, p = lparts(l)
    if p[0][1] < 0:
        l = scale(l, -1)
        c, p = lparts(l)
    if len(p) == 1 and p[0][1] == 1:
        x = p[0][0]
        if x.op in BOOL:
            return bnot(x) if c == 0 else (x if c == -1 else 0)
        if x.op == 'at':
            s, i = x.args
            ch = -c
            if ch != 0:
                if i == 0:
                    return mk_startswith(s, chr(ch))
                if i is sub(mk_size(s), 1):
                    return mk_endswith(s, chr(ch))
        if x.op == 'cmp3' and c == 0:
            return mk_seq(x.args[0], x.args[1])
    if len(p) == 2 and c == 0:
        (x, kx), (y, ky) = p
        if x.op == 'at' and y.op == 'at' and kx == -ky and x.args == y.args:
            return 1
    return T('eq0', l)


def eq(a, b):
    return eq0(sub(a, b))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), 1))


# ---------------------------------------------------------------- strings
def mk_size(s):
    if isinstance(s, str):
        return len(s)
    if s.op == 'concat':
        r = 0
        for x in s.args:
            r = add(r, mk_size(x))
        return r
    if s.op == 'substr':
        return s.args[2]
    if s.op == 'digest':
        return s.args[-1]
    if s.op == 'bytesof':
        return s.args[-1]
    if s.op == 'chr':
        return 1
    if s.op == 'rep':
        return s.args[0]
    if s.op == 'bytesv':
        return 32
    return T('size', s)


def mk_concat(*parts):
    r = []
    for p in parts:
        for x in (p.args if isinstance(p, Term) and p.op == 'concat' else (p,)):
            if x == '':
                continue
            if r and isinstance(x, str) and isinstance(r[-1], str):
                r[-1] += x
            elif r and isinstance(x, Term) and isinstance(r[-1], Term) and x.op == 'substr' and r[-1].op == 'substr' \
                    and x.args[0] is r[-1].args[0] and x.args[1] is add(r[-1].args[1], r[-1].args[2]):
                r[-1] = mk_substr(x.args[0], r[-1].args[1], add(r[-1].args[2], x.args[2]))
            else:
                r.append(x)
    if not r:
        return ''
    if len(r) == 1:
        return r[0]
    return T('concat', *r)


def mk_substr(s, b, l):
    """Exact slice: 0 <= b, b+l <= size."""
    if isinstance(l, int) and l == 0:
        return ''
    if isinstance(s, str) and isinstance(b, int) and isinstance(l, int):
        return s[b:b + l]
    if b == 0 and (l is mk_size(s) or (isinstance(l, int) and l == mk_size(s))):
        return s
    if isinstance(s, Term) and s.op == 'substr':
        return mk_substr(s.args[0], add(s.args[1], b), l)
    if isinstance(s, Term) and s.op == 'concat' and isinstance(b, int) and isinstance(l, int):
        pos = 0
        for x in s.args:
            n = mk_size(x)
            if not isinstance(n, int):
                break
            if pos <= b and b + l <= pos + n:
                return mk_substr(x, b - pos, l)
            pos += n
    if isinstance(s, Term) and s.op == 'concat':
        # a slice along part boundaries
        ends = [0]
        for x in s.args:
            ends.append(add(ends[-1], mk_size(x)))
        e = add(b, l)
        i = [k for k, x in enumerate(ends) if x is b or (isinstance(x, int) and isinstance(b, int) and x == b)]
        j = [k for k, x in enumerate(ends) if x is e or (isinstance(x, int) and isinstance(e, int) and x == e)]
        if i and j and i[-1] <= j[0]:
            return mk_concat(*s.args[i[-1]:j[0]])
    r = T('substr', s, b, l)
    if isinstance(b, int) and isinstance(l, int):
        _slices.setdefault(s, {})[r] = 1
    return r


_slices = {}


def slices_of(s):
    """The constant slices of a text that have been looked at."""
    return _slices.get(s, ())


def mk_at(s, i):
    if isinstance(s, str) and isinstance(i, int):
        return ord(s[i]) if 0 <= i < len(s) else 0
    if isinstance(s, Term) and s.op == 'substr':
        return mk_at(s.args[0], add(s.args[1], i))
    return T('at', s, i)


def mk_seq(a, b):
    if a is b:
        return 1
    if isinstance(a, str) and isinstance(b, str):
        return int(a == b)
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        if b == '':
            return eq0(mk_size(a))
        n = mk_size(a)
        if isinstance(n, int) and n != len(b):
            return 0
        if a.op == 'concat':
            args = list(a.args)
            while args and isinstance(args[0], str):
                if not b.startswith(args[0]):
                    return 0
                b = b[len(args[0]):]
                args.pop(0)
            while args and isinstance(args[-1], str):
                if not b.endswith(args[-1]):
                    return 0
                b = b[:len(b) - len(args[-1])]
                args.pop()
            if len(args) < len(a.args):
                return mk_seq(mk_concat(*args), b)
        if a.op == 'substr' and a.args[1] == 0 and isinstance(a.args[2], int):
            return mk_startswith(a.args[0], b)
        if a.op == 'bytesof' and False:
            return 0
        return T('seq', a, b)
    if b.id < a.id:
        a, b = b, a
    return T('seq', a, b)


def mk_startswith(s, p):
    if p == '':
        return 1
    if isinstance(s, str) and isinstance(p, str):
        return int(s.startswith(p))
    if s is p:
        return 1
    if isinstance(s, Term) and s.op == 'concat' and isinstance(p, str):
        x = s.args[0]
        if isinstance(x, str):
            if len(x) >= len(p):
                return int(x.startswith(p))
            if not p.startswith(x):
                return 0
            return mk_startswith(mk_concat(*s.args[1:]), p[len(x):])
    return T('startswith', s, p)


def mk_endswith(s, p):
    if p == '':
        return 1
    if isinstance(s, str) and isinstance(p, str):
        return int(s.endswith(p))
    if s is p:
        return 1
    if isinstance(s, Term) and s.op == 'concat' and isinstance(p, str):
        x = s.args[-1]
        if isinstance(x, str):
            if len(x) >= len(p):
                return int(x.endswith(p))
            if not p.endswith(x):
                return 0
    if isinstance(s, Term) and s.op == 'substr' and isinstance(p, str) and add(s.args[1], s.args[2]) is mk_size(s.args[0]):
        return mk_and(ge0(sub(s.args[2], len(p))), mk_endswith(s.args[0], p))
    return T('endswith', s, p)


def mk_and(a, b):
    if isinstance(a, int):
        return b if a else 0
    if isinstance(b, int):
        return a if b else 0
    if a is b:
        return a
    return T('and', a, b)


def mk_or(a, b):
    return bnot(mk_and(bnot(a), bnot(b)))


def mk_isnull(p):
    if p is NULL:
        return 1
    if isinstance(p, int):
        return int(p == 0)
    if p.op == 'ptr':
        o = p.args[0]
        if isinstance(o, Term) and o.op in ('alloca', 'heap', 'obj', 'g', 'buf'):
            return 0
        if p.args[1] != 0:
            return 0
        if isinstance(o, Term) and o.op not in ('deref', 'phi', 'ret', 'havoc', 'init'):
            return 0
        return T('isnull', o)
    return T('isnull', p)


def rebuild(op, args):
    f = _REB.get(op)
    if f:
        return f(*args)
    return T(op, *args)


def _reblin(c, items):
    r = c
    for x, k in items:
        r = add(r, x, k)
    return r


def mk_div(a, c):
    """floor(a / c)"""
    if isinstance(a, int):
        return a // c
    k, p = lparts(a)
    q = {y: x // c for y, x in p if x % c == 0}
    r = mklin(k % c, {y: x for y, x in p if x % c})
    if isinstance(r, int):
        return mklin(k // c, q)
    lo, hi = bounds(r)
    if lo >= 0 and hi < c:
        return mklin(k // c, q)
    if q or k // c:
        return add(mklin(k // c, q), T('div', r, c))
    return T('div', a, c)


def _rebdiv(x, c):
    return mk_div(x, c)


def _rebfmul(x, c):
    if isinstance(x, (int, float)):
        return float(x) * c
    return T('fmul', x, c)


def _rebcmp3(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    return 0 if a is b else T('cmp3', a, b)


def _rebnull(o):
    if o is NULL:
        return 1
    if is_ptr(o):
        return mk_isnull(o)
    if isinstance(o, Term) and o.op in ('alloca', 'heap', 'obj', 'g', 'buf'):
        return 0
    return T('isnull', o)


def _rebptr(o, k):
    """A phi that stands for a whole pointer was replaced."""
    if o is NULL and k == 0:
        return NULL
    if is_ptr(o):
        return ptr(o.args[0], add(o.args[1], k))
    return T('ptr', o, k)


_REB = {'lin': _reblin, 'eq0': eq0, 'ge0': ge0, 'not': bnot, 'and': mk_and, 'size': mk_size, 'concat': mk_concat,
        'substr': mk_substr, 'at': mk_at, 'seq': mk_seq, 'startswith': mk_startswith, 'endswith': mk_endswith,
        'div': _rebdiv, 'fmul': _rebfmul, 'cmp3': _rebcmp3,
        'isnull': _rebnull, 'ptr': _rebptr}


def subst(t, m, memo=None):
    """Replace subterms by the mapping m (Term -> value)."""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        if isinstance(t, Agg):
            return Agg({k: subst(v, m, memo) for k, v in t.items()})
        return t
    if t in m:
        return m[t]
    if t.subs.isdisjoint(m):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        if t.op in OBJ:
            r = t
        else:
            r = rebuild(t.op, tuple(subst(x, m, memo) for x in t.args))
        memo[t] = r
    return r
