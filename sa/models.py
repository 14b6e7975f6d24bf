"""Contracts of the library functions the repository calls (C++ standard
library, Abseil, protobuf, BoringSSL).  Everything that is not listed here and
has a body is analysed; what has neither becomes opaque."""
import re
from .term import *
from .term import T
from .interp import INLINE, NORETURN, Abort, Prune
from .state import Split

EXACT = {}
RX = []


def model(*names, rx=None):
    def d(f):
        for n in names:
            EXACT[n] = f
        if rx:
            RX.append((re.compile(rx), f))
        return f
    return d


class Models:
    def lookup(self, name, fn):
        short = fn.short if fn is not None else name
        m = EXACT.get(short)
        if m is None:
            for r, f in RX:
                if r.fullmatch(short):
                    m = f
                    break
        return m


# ------------------------------------------------------------------ helpers
def heapname(st, fr, i, kind):
    site = (fr.ctx, i.id, kind)
    n = 0
    while T('heap', site, n, kind) in st.mem:
        n += 1
    return T('heap', site, n, kind)


def newheap(I, st, fr, i, kind='', size=None, tag=None):
    o = heapname(st, fr, i, kind)
    st.mem[o] = {}
    st.owned.add(o)
    st.objs[o] = (size, tag)
    for pre in ('bufbytes', 'cr'):
        st.drop(T(pre, o))
    return o


def obj_of(p):
    return p.args[0] if is_ptr(p) else None


def need(st, p, what='argument'):
    """A pointer about to be dereferenced by a callee."""
    p = st.norm(p)
    if p is NULL:
        raise Abort('null', what)
    if not is_ptr(p):
        return None
    n = mk_isnull(p)
    if not isinstance(n, int) and p.args[1] == 0:
        d = st.decide(n)
        if d:
            raise Abort('null', what)
        if d is None and st.ghost.get('nullcheck'):
            if st.must(n):
                raise Abort('null', what)
    return p


def S(I, st, fr, p):
    """Content of the std::string at p."""
    p = need(st, p, 'std::string')
    if p is None:
        return st.fresh('unkstr', (fr.ctx, fr.inst.id), 'str')
    return Sat(I, st, fr, p.args[0], p.args[1])


def Sat(I, st, fr, obj, off):
    off = st.norm(off)
    v = st.get(obj, off)
    if v is PROJ:
        v = st.fresh('anystr', (fr.ctx, fr.inst.id), 'str')
        st.put(obj, off, v)
        return v
    if v is TOP:
        return st.fresh('unkstr', (fr.ctx, fr.inst.id), 'str')
    if v is not None:
        return st.norm(v)
    if isinstance(obj, Term):
        if obj.op == 'strof':
            return st.norm(T('pbstr', obj.args[0]))
        if obj.op == 'pair' and off == 0:
            return st.norm(obj.args[1])
        if obj.op in ('alloca', 'heap') and st.objs.get(obj, (0, 0))[1] != 'summary':
            m = st.mem.get(obj)
            if not (m and (not isinstance(off, int) or any(not isinstance(o, int) for o in m))):
                return st.fresh('unkstr', (fr.ctx, fr.inst.id), 'str')
        m = st.mem.get(obj)
        if m and (not isinstance(off, int) or any(not isinstance(o, int) for o in m)):
            for o in list(m):
                if isinstance(o, int) and isinstance(off, int):
                    continue
                c = eq(off, o)
                if isinstance(c, int):
                    if c:
                        return st.norm(m[o])
                    continue
                if st.must(c):
                    return st.norm(m[o])
        if obj.op in ('alloca', 'heap'):
            return st.fresh('unkstr', (fr.ctx, fr.inst.id), 'str')
        if obj.op == 'g' and gbytes(I, st, obj.args[0]) is not None:
            return cstr(I, st, fr, ptr(obj, off))
    I.hooks.on_load(st, fr, obj, off, 'str')
    return st.norm(T('init', obj, off, 'str'))


def setS(I, st, fr, p, v):
    p = need(st, p, 'std::string')
    if p is None:
        st.ghost['wild'] = 1
        return
    I.hooks.on_store(st, fr, p.args[0], p.args[1], v)
    st.put(p.args[0], st.norm(p.args[1]), v)


def gbytes(I, st, name):
    g = I.prog.globals.get(name)
    if g is None or 'init' not in g:
        return None
    n = g.get('size', 0)
    b = ['\0'] * n
    for o, t, x in g['init']:
        if t == 'bytes':
            b[o:o + len(x)] = list(x)
        elif t == 'zero':
            pass
        else:
            return None
    return ''.join(b)


def cstr(I, st, fr, p):
    """Content of the NUL terminated string at p."""
    p = need(st, p, 'C string')
    if p is None:
        return st.fresh('unkstr', (fr.ctx, fr.inst.id), 'str')
    o, off = p.args
    off = st.norm(off)
    if o.op == 'g' and isinstance(off, int):
        b = gbytes(I, st, o.args[0])
        if b is not None and 0 <= off <= len(b):
            k = b.find('\0', off)
            return b[off:k] if k >= 0 else b[off:]
    if o.op == 'buf':
        c = st.norm(o.args[0])
        checkowner(I, st, fr, o)
        if isinstance(c, str) and isinstance(off, int):
            c = c[off:]
            k = c.find('\0')
            return c if k < 0 else c[:k]
        if off == 0:
            return T('ctrunc', c)
        return T('ctrunc', mk_substr(c, off, sub(mk_size(c), off)))
    return st.fresh('unkstr', (fr.ctx, fr.inst.id), 'str')


def checkowner(I, st, fr, o):
    """The string whose characters are used must still hold them."""
    if len(o.args) > 2:
        ow, oo = o.args[1], o.args[2]
        v = st.get(ow, oo)
        if v is None and isinstance(ow, Term) and ow.op in ('alloca', 'heap'):
            I.hooks.on_dangling(st, fr, o, 'the string is gone')


def extent(I, st, fr, o):
    """Known size in bytes of an object used as a byte buffer."""
    if o.op == 'buf':
        return mk_size(st.norm(o.args[0]))
    if o.op in ('alloca', 'heap'):
        e = st.objs.get(o, (None, None))[0]
        return e
    if o.op == 'g':
        g = I.prog.globals.get(o.args[0])
        return g.get('size') if g else None
    return None


def bounds_ok(I, st, fr, p, n, what):
    """Obligation: [p, p+n) lies inside one live object."""
    if is_ptr(p):
        o, off = p.args
        off = st.norm(off)
        if o.op == 'buf':
            checkowner(I, st, fr, o)
        I.hooks.on_access(st, fr, o, off, n, extent(I, st, fr, o), what)
    else:
        I.hooks.on_access(st, fr, None, p, n, None, what)


def chars(I, st, fr, p, n, what='read'):
    """The n bytes at p as a string value."""
    p = st.norm(p)
    n = st.norm(n)
    if isinstance(n, int) and n == 0:
        return ''
    if p is NULL:
        if not isinstance(n, int) and st.must(eq0(n)):
            return ''
        raise Abort('null', what)
    if not is_ptr(p):
        return st.fresh('unkstr', (fr.ctx, fr.inst.id), 'str')
    o, off = p.args
    off = st.norm(off)
    bounds_ok(I, st, fr, p, n, what)
    if o.op == 'buf':
        c = st.norm(o.args[0])
        if off == 0 and isinstance(c, Term) and st.decide(eq(n, st.norm(mk_size(c)))):
            return c
        return slice_(st, c, off, n)
    if o.op == 'g' and isinstance(off, int) and isinstance(n, int):
        b = gbytes(I, st, o.args[0])
        if b is not None:
            return b[off:off + n]
    v = st.get(T('bufbytes', o), 0)
    if v is not None:
        start, content, ln = v
        content = st.norm(content)
        if isinstance(start, int) and isinstance(off, int) and off >= start:
            return mk_substr(content, off - start, n)
        return mk_substr(content, sub(off, start), n)
    m = st.mem.get(o)
    if m and isinstance(n, int) and isinstance(off, int) and n <= 64:
        bs = [m.get(off + k) for k in range(n)]
        if all(isinstance(b, int) for b in bs):
            return ''.join(chr(b & 255) for b in bs)
        if n == 1 and isinstance(bs[0], Term):
            return T('chr', bs[0])
    return T('bytesof', o, off, n)


def setbytes(I, st, fr, p, content, n, what='write'):
    """The callee fills n bytes at p with the content."""
    p = st.norm(p)
    if p is NULL:
        raise Abort('null', what)
    bounds_ok(I, st, fr, p, n, what)
    if is_ptr(p) and p.args[0].op == 'buf':
        return intostring(I, st, fr, p, mk_substr(content, 0, n), n)
    if is_ptr(p):
        I.hooks.on_store(st, fr, p.args[0], p.args[1], content)
        o = T('bufbytes', p.args[0])
        st.put(o, 0, (st.norm(p.args[1]), content, n))
        m = st.mem.get(p.args[0])
        if m:
            for k in list(m):
                st.pop(p.args[0], k)


def intostring(I, st, fr, p, content, n):
    """n bytes are written through a pointer into the characters of a string."""
    b, off = p.args[0], st.norm(p.args[1])
    if len(b.args) < 3 or not isinstance(b.args[1], Term):
        st.ghost['wild'] = 1
        return
    loc = ptr(b.args[1], b.args[2])
    v = S(I, st, fr, loc)
    v = st.norm(v) if isinstance(v, Term) else v
    sz = st.norm(mk_size(v))
    end = add(off, n)
    if off == 0 and (n is sz or isinstance(n, int) and n == sz or st.decide(eq(n, sz)) is True):
        r = content
    elif isinstance(off, int) and isinstance(n, int) and isinstance(sz, int) and end <= sz:
        r = mk_concat(mk_substr(v, 0, off), content, mk_substr(v, end, sz - end))
    else:
        r = st.fresh('unkstr', (fr.ctx, fr.inst.id), 'str')
        st.assume(eq(mk_size(r), sz))
    setS(I, st, fr, loc, r)


def strbuf(content, p=None, off=0):
    if p is not None and is_ptr(p):
        return ptr(T('buf', content, p.args[0], p.args[1]), off)
    return ptr(T('buf', content), off)


def sview(I, st, fr, p, n):
    """Characters of a string_view passed by value."""
    p, n = st.norm(p), st.norm(n)
    if isinstance(n, int) and n == 0:
        return ''
    return chars(I, st, fr, p, n, 'string_view')


def svref(I, st, fr, p, std=False):
    a = I.load(st, p, 'ptr', fr) if not std else I.load(st, ptr(p.args[0], add(p.args[1], 8)), 'ptr', fr)
    n = I.load(st, ptr(p.args[0], add(p.args[1], 8)), 'i64', fr) if not std else I.load(st, p, 'i64', fr)
    return sview(I, st, fr, a, n)


def ok(I, st, *args):
    return st.norm(T('pred', 'ok', *args))


# ------------------------------------------------------------------ std::string
@model('std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::__new_allocator',
       'std::__new_allocator::~__new_allocator')
def m_alloc(I, st, fr, i, fn, a):
    return None


@model('string::string')
def m_string(I, st, fr, i, fn, a):
    from .interp import split_params
    ps = split_params(fn.ptext)
    ps = [p for p in ps if p]
    this = a[0]
    t0 = ps[0] if ps else ''
    if not ps or t0.startswith('std::allocator'):
        v = ''
    elif t0 == 'char const*':
        if len(ps) > 1 and 'allocator' not in ps[1] and ps[1] != 'char const*':
            v = chars(I, st, fr, a[1], st.norm(a[2]))
        elif len(ps) > 1 and ps[1] == 'char const*':
            v = chars(I, st, fr, a[1], pdiff(st, a[2], a[1]))
        else:
            v = cstr(I, st, fr, a[1])
    elif t0 == 'string&&':
        v = S(I, st, fr, a[1])
        setS(I, st, fr, this, v)
        setS(I, st, fr, a[1], '')
        return None
    elif t0 == 'string const&':
        v = S(I, st, fr, a[1])
        if len(ps) > 1 and 'allocator' not in ps[1]:
            pos = st.norm(a[2])
            n = st.norm(a[3]) if len(ps) > 2 and 'allocator' not in ps[2] else NPOS
            v = substr(I, st, fr, v, pos, n)
    elif t0 == 'unsigned long':
        n, c = st.norm(a[1]), a[2]
        if isinstance(n, int) and isinstance(c, int) and n < 4096:
            v = chr(c & 255) * n
        else:
            v = T('rep', n, c)
    elif t0.startswith('std::initializer_list'):
        v = chars(I, st, fr, a[1], st.norm(a[2]))
    elif 'string_view' in t0 and 'const&' in t0:
        v = svref(I, st, fr, a[1], 'std::string_view' in t0)
    elif 'string_view' in t0:
        if t0.startswith('std::'):
            v = sview(I, st, fr, a[2], a[1])
        else:
            v = sview(I, st, fr, a[1], a[2])
    elif 'iterator' in t0 or t0 in ('char*', 'unsigned char*', 'unsigned char const*'):
        v = chars(I, st, fr, a[1], pdiff(st, a[2], a[1]))
    else:
        v = st.fresh('unkstr', I.fsite(fr), 'str')
    setS(I, st, fr, this, v)
    return None


def pdiff(st, a, b):
    a, b = st.norm(a), st.norm(b)
    if is_ptr(a) and is_ptr(b) and a.args[0] is b.args[0]:
        return sub(a.args[1], b.args[1])
    if a is b:
        return 0
    return T('irange', 'pdiff', a, b, 0, 1 << 62)


@model('string::~string')
def m_dstring(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    if is_ptr(p):
        st.pop(p.args[0], p.args[1])
    return None


@model('string::operator=', 'string::assign')
def m_sassign(I, st, fr, i, fn, a):
    from .interp import split_params
    ps = split_params(fn.ptext)
    t0 = ps[0] if ps else ''
    this = a[0]
    if t0 == 'char const*':
        v = cstr(I, st, fr, a[1]) if len(ps) == 1 else chars(I, st, fr, a[1], st.norm(a[2]))
    elif t0 == 'string&&':
        v = S(I, st, fr, a[1])
        if st.norm(a[1]) is not st.norm(this):
            setS(I, st, fr, this, v)
            setS(I, st, fr, a[1], '')
            return this
    elif t0 == 'string const&':
        v = S(I, st, fr, a[1])
        if len(ps) > 1:
            v = substr(I, st, fr, v, st.norm(a[2]), st.norm(a[3]))
    elif t0 == 'char':
        v = chrv(st, a[1])
    elif 'string_view' in t0 and 'const&' in t0:
        v = svref(I, st, fr, a[1], 'std::string_view' in t0)
    elif 'string_view' in t0:
        v = sview(I, st, fr, a[2], a[1]) if t0.startswith('std::') else sview(I, st, fr, a[1], a[2])
    elif 'iterator' in t0:
        v = chars(I, st, fr, a[1], pdiff(st, a[2], a[1]))
    else:
        v = st.fresh('unkstr', I.fsite(fr), 'str')
    setS(I, st, fr, this, v)
    return this


def chrv(st, c):
    c = st.norm(c)
    return chr(c & 255) if isinstance(c, int) else T('chr', c)


def substr(I, st, fr, v, pos, n):
    if isinstance(n, int) and n < 0:
        n &= U64
    sz = mk_size(v)
    if not isinstance(pos, int) or pos:
        if isinstance(pos, Term) and bounds(pos)[0] < 0:
            pos = I.uview(st, pos, 64)
        if not st.must(le(pos, sz)):
            raise Abort('throw', 'out_of_range')
    rest = sub(sz, pos)
    if isinstance(n, int) and n >= 1 << 62:
        return slice_(st, v, pos, rest)
    if isinstance(n, Term) and bounds(n)[0] < 0:
        n = I.uview(st, n, 64)
    if st.must(le(n, rest)):
        return slice_(st, v, pos, n)
    return slice_(st, v, pos, rest)


@model('string::substr')
def m_substr(I, st, fr, i, fn, a):
    v = S(I, st, fr, a[1])
    r = substr(I, st, fr, v, st.norm(a[2]), st.norm(a[3]))
    setS(I, st, fr, a[0], r)
    return None


@model('string::size', 'string::length')
def m_size(I, st, fr, i, fn, a):
    return st.norm(mk_size(S(I, st, fr, a[0])))


@model('string::empty')
def m_empty(I, st, fr, i, fn, a):
    return st.norm(eq0(mk_size(S(I, st, fr, a[0]))))


@model('string::clear')
def m_clear(I, st, fr, i, fn, a):
    setS(I, st, fr, a[0], '')


@model('string::reserve', 'string::shrink_to_fit')
def m_nop(I, st, fr, i, fn, a):
    return None


@model('string::c_str', 'string::data', 'string::begin', 'string::cbegin')
def m_cstr(I, st, fr, i, fn, a):
    return strbuf(S(I, st, fr, a[0]), st.norm(a[0]))


@model('string::end', 'string::cend')
def m_send(I, st, fr, i, fn, a):
    v = S(I, st, fr, a[0])
    return strbuf(v, st.norm(a[0]), mk_size(v))


@model('string::operator[]', 'string::at')
def m_sindex(I, st, fr, i, fn, a):
    v = S(I, st, fr, a[0])
    k = st.norm(a[1])
    if fn.short.endswith('at'):
        u = I.uview(st, k, 64)
        if not st.must(lt(u, mk_size(v))):
            raise Abort('throw', 'out_of_range')
    else:
        I.hooks.on_access(st, fr, T('buf', v), k, 1, add(mk_size(v), 1), 'string index')
    return strbuf(v, st.norm(a[0]), k)


@model('string::front', 'string::back')
def m_sfront(I, st, fr, i, fn, a):
    v = S(I, st, fr, a[0])
    k = 0 if fn.short.endswith('front') else sub(mk_size(v), 1)
    I.hooks.on_access(st, fr, T('buf', v), k, 1, mk_size(v), 'string ' + fn.short[8:])
    return strbuf(v, st.norm(a[0]), k)


@model('string::push_back')
def m_spush(I, st, fr, i, fn, a):
    setS(I, st, fr, a[0], mk_concat(S(I, st, fr, a[0]), chrv(st, a[1])))


@model('string::pop_back')
def m_spop(I, st, fr, i, fn, a):
    v = S(I, st, fr, a[0])
    I.hooks.on_access(st, fr, T('buf', v), sub(mk_size(v), 1), 1, mk_size(v), 'pop_back')
    setS(I, st, fr, a[0], mk_substr(v, 0, sub(mk_size(v), 1)))


@model('string::erase')
def m_serase(I, st, fr, i, fn, a):
    v = S(I, st, fr, a[0])
    if 'iterator' in fn.ptext:
        setS(I, st, fr, a[0], st.fresh('unkstr', I.fsite(fr), 'str'))
        return strbuf(S(I, st, fr, a[0]), st.norm(a[0]))
    pos, n = st.norm(a[1]), st.norm(a[2])
    if not st.must(le(pos, mk_size(v))):
        raise Abort('throw', 'out_of_range')
    cut = substr(I, st, fr, v, pos, n)
    e = add(pos, mk_size(cut))
    setS(I, st, fr, a[0], mk_concat(mk_substr(v, 0, pos), mk_substr(v, e, sub(mk_size(v), e))))
    return a[0]


@model('string::resize')
def m_sresize(I, st, fr, i, fn, a):
    v = S(I, st, fr, a[0])
    n = st.norm(a[1])
    if st.must(le(n, mk_size(v))):
        setS(I, st, fr, a[0], mk_substr(v, 0, n))
    else:
        k = sub(n, mk_size(v))
        pad = '\0' * k if isinstance(k, int) and k < 4096 else T('rep', k, 0)
        setS(I, st, fr, a[0], mk_concat(v, pad))


@model('string::append', 'string::operator+=')
def m_sappend(I, st, fr, i, fn, a):
    from .interp import split_params
    ps = split_params(fn.ptext)
    t0 = ps[0] if ps else ''
    if t0 == 'char const*':
        v = cstr(I, st, fr, a[1]) if len(ps) == 1 else chars(I, st, fr, a[1], st.norm(a[2]))
    elif t0 == 'string const&':
        v = S(I, st, fr, a[1])
        if len(ps) > 1:
            v = substr(I, st, fr, v, st.norm(a[2]), st.norm(a[3]))
    elif t0 == 'char':
        v = chrv(st, a[1])
    elif 'string_view' in t0 and 'const&' in t0:
        v = svref(I, st, fr, a[1], 'std::string_view' in t0)
    elif 'string_view' in t0:
        v = sview(I, st, fr, a[2], a[1]) if t0.startswith('std::') else sview(I, st, fr, a[1], a[2])
    elif t0 in ('unsigned long', 'size_t'):
        n, c = st.norm(a[1]), st.norm(a[2])
        if isinstance(n, int) and isinstance(c, int) and n < 4096:
            v = chr(c & 255) * n
        elif isinstance(n, int) and n == 1:
            v = chrv(st, c)
        else:
            v = T('rep', n, c)
    elif t0.startswith('std::initializer_list'):
        v = chars(I, st, fr, a[1], st.norm(a[2]))
    elif len(ps) == 2 and ('iterator' in t0 or t0.endswith('*')) and t0 == ps[1]:
        v = chars(I, st, fr, a[1], pdiff(st, a[2], a[1]))
    else:
        v = st.fresh('unkstr', I.fsite(fr), 'str')
    setS(I, st, fr, a[0], mk_concat(S(I, st, fr, a[0]), v))
    return a[0]


@model('string::swap')
def m_sswap(I, st, fr, i, fn, a):
    x, y = S(I, st, fr, a[0]), S(I, st, fr, a[1])
    setS(I, st, fr, a[0], y)
    setS(I, st, fr, a[1], x)


@model('std::swap')
def m_swap(I, st, fr, i, fn, a):
    if fn.ptext.startswith('string&'):
        return m_sswap(I, st, fr, i, fn, a)
    return INLINE


def cmp3(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    if a is b:
        return 0
    return T('cmp3', a, b)


@model('string::compare')
def m_scompare(I, st, fr, i, fn, a):
    from .interp import split_params
    ps = split_params(fn.ptext)
    v = S(I, st, fr, a[0])
    if ps and ps[0] == 'unsigned long':
        v = substr(I, st, fr, v, st.norm(a[1]), st.norm(a[2]))
        k = 3
        ps = ps[2:]
    else:
        k = 1
    t = ps[0]
    if t == 'char const*':
        w = cstr(I, st, fr, a[k]) if len(ps) == 1 else chars(I, st, fr, a[k], st.norm(a[k + 1]))
    elif t == 'string const&':
        w = S(I, st, fr, a[k])
        if len(ps) > 1:
            w = substr(I, st, fr, w, st.norm(a[k + 1]), st.norm(a[k + 2]))
    elif 'string_view' in t and 'const&' in t:
        w = svref(I, st, fr, a[k], 'std::string_view' in t)
    elif 'string_view' in t:
        w = sview(I, st, fr, a[k + 1], a[k]) if t.startswith('std::') else sview(I, st, fr, a[k], a[k + 1])
    else:
        return INLINE
    return cmp3(st.norm(v), st.norm(w))


@model('string::find', 'string::rfind', 'string::find_first_of', 'string::find_last_of', 'string::find_first_not_of',
       'string::find_last_not_of')
def m_sfind(I, st, fr, i, fn, a):
    from .interp import split_params
    ps = split_params(fn.ptext)
    v = S(I, st, fr, a[0])
    t = ps[0]
    k = 2
    if t == 'char':
        w = chrv(st, a[1])
    elif t == 'char const*':
        if len(ps) == 3:
            w = chars(I, st, fr, a[1], st.norm(a[3]))
        else:
            w = cstr(I, st, fr, a[1])
    elif t == 'string const&':
        w = S(I, st, fr, a[1])
    else:
        return st.fresh('unk', I.fsite(fr), 'u64')
    pos = st.norm(a[k]) if len(a) > k else 0
    return strfind(I, st, fr, fn.short.split('::')[-1], v, w, pos)


def nochar(st, x, w):
    """x is known not to contain the character w."""
    if isinstance(x, str):
        return w not in x
    if x.op == 'splitpart' and x.args[1] == w:
        return True
    return bool(st.decide(T('pred', 'nochar', x, w)))


SPLITS = {}


def sepsum(st, v, w, k):
    """Position of the separator after part k."""
    SPLITS.setdefault(v, set()).add(w)
    r = k
    for j in range(k + 1):
        r = add(r, st.norm(mk_size(st.norm(T('splitpart', v, w, j)))))
    return st.norm(r) if isinstance(r, Term) else r


def partat(st, v, w, pos):
    """k if position pos of v is established to be the begin of its part k."""
    pos = st.norm(pos) if isinstance(pos, Term) else pos
    if pos == 0:
        return 0
    n = st.norm(T('nsplit', v, w))
    for k in range(1, 8):
        if st.decide(lt(k, n)) is not True:
            return None
        x = add(sepsum(st, v, w, k - 1), 1)
        if x is pos or isinstance(x, int) and x == pos or st.decide(eq(x, pos)) is True:
            return k
    return None


def septpos(st, kind, v, w, pos):
    """find and rfind of a separator, in terms of the parts of the text."""
    n = st.norm(T('nsplit', v, w))
    st.assume(le(1, n), True)
    if kind in ('find', 'find_first_of'):
        k = partat(st, v, w, pos)
        if k is None:
            return None
    elif kind in ('rfind', 'find_last_of') and isinstance(pos, int) and pos & U64 == U64:
        k = None
        for q in range(1, 5):
            if st.must(eq(n, q)):
                k = q - 2
                break
        if k is None:
            return None
        if k < 0:
            return NPOS
        more = True
    else:
        return None
    if kind in ('find', 'find_first_of'):
        more = st.must(lt(k + 1, n))
    m = sepsum(st, v, w, k)
    end = add(m, add(1, st.norm(mk_size(st.norm(T('splitpart', v, w, k + 1)))))) if more else m
    sz = st.norm(mk_size(v))
    if st.decide(eq(n, k + 2 if more else k + 1)) is True:
        st.assume(eq(sz, end), True)
    else:
        st.assume(le(end, sz), True)
    return m if more else NPOS


def aspart(st, v, pos, n):
    """A slice of a text that is known to be one of its parts."""
    for w in SPLITS.get(v, ()):
        k = partat(st, v, w, pos)
        if k is None:
            continue
        p = st.norm(T('splitpart', v, w, k))
        c = st.norm(T('nsplit', v, w))
        if st.decide(eq(n, st.norm(mk_size(p)))) is True and st.decide(lt(k, c)) is True:
            return p
        end = add(pos, n)
        if st.decide(eq(c, k + 1)) is True and st.decide(eq(end, st.norm(mk_size(v)))) is True:
            return p
        # several parts with their separators
        ps = [p]
        for j in range(k + 1, k + 6):
            if st.decide(lt(j, c)) is not True:
                break
            ps += [w, st.norm(T('splitpart', v, w, j))]
            if st.decide(eq(end, sepsum(st, v, w, j))) is True:
                return mk_concat(*ps)
    return None


def slice_(st, v, pos, n):
    if isinstance(v, Term) and v in SPLITS:
        p = aspart(st, v, pos, n)
        if p is not None:
            return p
    return mk_substr(v, pos, n)


def svfind(I, st, fr, fn, a):
    from .interp import split_params
    std = fn.short.startswith('std::')
    ps = split_params(fn.ptext)
    v = st.norm(svref(I, st, fr, st.norm(a[0]), std))
    t, k = ps[0], 2
    if t == 'char':
        w = chrv(st, a[1])
    elif t == 'char const*':
        w = cstr(I, st, fr, a[1]) if len(ps) == 2 else chars(I, st, fr, a[1], st.norm(a[3]))
    elif 'string_view' in t:
        w = sview(I, st, fr, a[2], a[1]) if std else sview(I, st, fr, a[1], a[2])
        k = 3
    else:
        return INLINE
    return strfind(I, st, fr, fn.short.split('::')[-1], v, st.norm(w), st.norm(a[k]))


@model(*['%s::string_view::%s' % (x, y) for x in ('std', 'absl')
         for y in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')])
def m_svfind(I, st, fr, i, fn, a):
    return svfind(I, st, fr, fn, a)


@model('std::count')
def m_count(I, st, fr, i, fn, a):
    """Occurrences of a character in a text."""
    b, e = st.norm(a[0]), st.norm(a[1])
    if not (is_ptr(b) and is_ptr(e) and b.args[0] is e.args[0] and b.args[0].op == 'buf' and 'char const' in fn.ptext and is_ptr(st.norm(a[2]))):
        return INLINE
    w = chrv(st, I.load(st, st.norm(a[2]), 'i8', fr))
    v = st.norm(chars(I, st, fr, b, st.norm(sub(e.args[1], b.args[1]))))
    if isinstance(v, str):
        return v.count(w) if isinstance(w, str) else INLINE
    if not isinstance(w, str):
        return INLINE
    if nochar(st, v, w):
        return 0
    n = st.norm(T('nsplit', v, w))
    st.assume(le(1, n), True)
    return st.norm(sub(n, 1))


def strfind(I, st, fr, kind, v, w, pos):
    if isinstance(v, str) and isinstance(w, str) and isinstance(pos, int):
        if kind == 'find':
            r = v.find(w, pos)
        elif kind == 'rfind':
            r = v.rfind(w) if pos >= len(v) else v.rfind(w, 0, pos + len(w))
        else:
            idx = [k for k, c in enumerate(v) if (c in w) != ('not' in kind)]
            idx = [k for k in idx if (k >= pos if 'first' in kind else k <= pos)]
            r = (idx[0] if 'first' in kind else idx[-1]) if idx else -1
        return NPOS if r < 0 else r
    if kind == 'rfind' and isinstance(w, str) and isinstance(pos, int) and pos == 0:
        # s.rfind(p, 0) == 0 is the prefix test
        return 0 if st.must(mk_startswith(v, w)) else NPOS
    if isinstance(w, str) and len(w) == 1:
        if isinstance(v, Term) and v.op == 'concat':
            at = None
            if kind in ('find', 'find_first_of') and pos == 0:
                at = 0
                for x in v.args:
                    if nochar(st, x, w):
                        at = add(at, st.norm(mk_size(x)))
                        continue
                    at = add(at, x.index(w)) if isinstance(x, str) else None
                    break
                else:
                    return NPOS
            elif kind in ('rfind', 'find_last_of') and pos == NPOS:
                at = mk_size(v)
                for x in reversed(v.args):
                    at = sub(at, st.norm(mk_size(x)))
                    if nochar(st, x, w):
                        continue
                    at = add(at, x.rindex(w)) if isinstance(x, str) else None
                    break
                else:
                    return NPOS
            if at is not None:
                return st.norm(at)
        elif nochar(st, v, w):
            return NPOS
        if isinstance(v, Term) and (v.op in ('init', 'pbstr', 'b64') or v.op == 'substr' and w not in SPLITS.get(v.args[0], ())):
            r = septpos(st, kind, v, w, pos)
            if r is not None:
                return r
    f = T('pred', 'contains', kind, v, w, pos)
    if not st.must(f):
        return NPOS
    r = T('irange', 'find', kind, v, w, pos, 0, 1 << 62)
    st.assume(ge0(sub(sub(mk_size(v), mk_size(w) if kind in ('find', 'rfind') else 1), r)), True)
    if isinstance(pos, int) and pos and kind == 'find':
        st.assume(ge0(sub(r, pos)), True)
    return r


@model('std::operator+')
def m_splus(I, st, fr, i, fn, a):
    from .interp import split_params
    ps = split_params(fn.ptext)
    if fn.sret is None or len(ps) != 2:
        return INLINE
    vs = []
    for t, x in zip(ps, a[1:]):
        if t.startswith('string'):
            vs.append(S(I, st, fr, x))
        elif t == 'char const*':
            vs.append(cstr(I, st, fr, x))
        elif t == 'char':
            vs.append(chrv(st, x))
        else:
            return INLINE
    setS(I, st, fr, a[0], mk_concat(*vs))
    return None


@model('std::operator==', 'std::operator!=', 'std::operator<', 'absl::operator==', 'absl::operator!=')
def m_opeq(I, st, fr, i, fn, a):
    from .interp import split_params
    ps = split_params(fn.ptext)
    if len(ps) != 2:
        return INLINE
    neg = fn.short.endswith('!=')
    vs = []
    k = 0
    for t in ps:
        if t == 'string const&':
            vs.append(S(I, st, fr, a[k]))
            k += 1
        elif t == 'char const*':
            vs.append(cstr(I, st, fr, a[k]))
            k += 1
        elif t.endswith('string_view') or 'type_identity' in t or '__identity' in t or 'common_type' in t:
            if t.startswith('absl'):
                vs.append(sview(I, st, fr, a[k], a[k + 1]))
            else:
                vs.append(sview(I, st, fr, a[k + 1], a[k]))
            k += 2
        elif t.startswith('std::unique_ptr') and i.a and single(fn.targs):
            vs.append(('p', I.load(st, need(st, a[k]), 'ptr', fr)))
            k += 1
        elif 'nullptr_t' in t:
            vs.append(('p', NULL))
            k += 1
        else:
            return INLINE
    x, y = vs
    if isinstance(x, tuple):
        r = I.peq(st, x[1], y[1])
        return bnot(r) if neg else r
    if fn.short.endswith('<'):
        c = cmp3(x, y)
        return int(c < 0) if isinstance(c, int) else T('pred', 'strless', x, y)
    r = mk_seq(st.norm(x), st.norm(y))
    return bnot(r) if neg else r


def single(targs):
    t = ' '.join(targs)
    return 'default_delete' in t or 'bssl::internal::Deleter' in t


@model('strlen', '__builtin_strlen')
def m_strlen(I, st, fr, i, fn, a):
    v = cstr(I, st, fr, a[0])
    return mk_size(v)


@model('std::char_traits::length')
def m_ctlen(I, st, fr, i, fn, a):
    return mk_size(cstr(I, st, fr, a[0]))


@model('strcmp')
def m_strcmp(I, st, fr, i, fn, a):
    return cmp3(cstr(I, st, fr, a[0]), cstr(I, st, fr, a[1]))


@model('strncmp')
def m_strncmp(I, st, fr, i, fn, a):
    x, y, n = cstr(I, st, fr, a[0]), cstr(I, st, fr, a[1]), st.norm(a[2])
    if not isinstance(n, int):
        return st.fresh('unk', I.fsite(fr), 's32')

    def cut(v):
        if isinstance(v, str):
            return v[:n]
        if st.must(le(n, mk_size(v))):
            return mk_substr(v, 0, n)
        return v
    return cmp3(cut(x), cut(y))


@model('memcmp', 'bcmp', 'std::char_traits::compare', '__builtin_memcmp')
def m_memcmp(I, st, fr, i, fn, a):
    n = st.norm(a[2])
    x = chars(I, st, fr, a[0], n, 'memcmp')
    y = chars(I, st, fr, a[1], n, 'memcmp')
    I.hooks.on_compare(st, fr, i, fn.short if fn else 'memcmp', x, y, n)
    return cmp3(st.norm(x), st.norm(y))


@model('CRYPTO_memcmp')
def m_cmemcmp(I, st, fr, i, fn, a):
    n = st.norm(a[2])
    x = chars(I, st, fr, a[0], n, 'CRYPTO_memcmp')
    y = chars(I, st, fr, a[1], n, 'CRYPTO_memcmp')
    I.hooks.on_crypto(st, fr, i, 'CRYPTO_memcmp', (x, y, n))
    return st.norm(bnot(mk_seq(x, y)))


@model('tolower', 'toupper', 'absl::ascii_tolower', 'absl::ascii_toupper', 'isspace', 'isdigit', 'isalpha', 'isalnum')
def m_ctype(I, st, fr, i, fn, a):
    c = st.norm(a[0])
    n = fn.short.replace('absl::ascii_', '')
    if isinstance(c, int):
        ch = chr(c & 255)
        return ord(ch.lower()) if n == 'tolower' else ord(ch.upper()) if n == 'toupper' else int(getattr(ch, n)())
    return T('irange', n, c, 0, 255)


# ------------------------------------------------------------------ string_view
@model('absl::string_view::operator string')
def m_sv2s(I, st, fr, i, fn, a):
    setS(I, st, fr, a[0], svref(I, st, fr, st.norm(a[1])))


@model('absl::StartsWith', 'absl::EndsWith', 'absl::StartsWithIgnoreCase', 'absl::EndsWithIgnoreCase', 'absl::EqualsIgnoreCase')
def m_starts(I, st, fr, i, fn, a):
    x = st.norm(sview(I, st, fr, a[0], a[1]))
    y = st.norm(sview(I, st, fr, a[2], a[3]))
    n = fn.short[6:]
    if n == 'StartsWith':
        return mk_startswith(x, y)
    if n == 'EndsWith':
        return mk_endswith(x, y)
    if isinstance(x, str) and isinstance(y, str):
        x, y = x.lower(), y.lower()
        return int(x.startswith(y) if n[0] == 'S' else x.endswith(y) if n[1] == 'n' else x == y)
    return T('pred', n, x, y)


@model('absl::StrContains')
def m_contains(I, st, fr, i, fn, a):
    x = st.norm(sview(I, st, fr, a[0], a[1]))
    y = chrv(st, a[2]) if fn.ptext.rstrip(')').endswith('char') else st.norm(sview(I, st, fr, a[2], a[3]))
    if isinstance(x, str) and isinstance(y, str):
        return int(y in x)
    return T('pred', 'contains', 'find', x, y, 0)


@model('absl::ConsumePrefix', 'absl::ConsumeSuffix')
def m_consume(I, st, fr, i, fn, a):
    x = svref(I, st, fr, st.norm(a[0]))
    y = st.norm(sview(I, st, fr, a[1], a[2]))
    pre = fn.short.endswith('Prefix')
    if not st.must(mk_startswith(x, y) if pre else mk_endswith(x, y)):
        return 0
    p = st.norm(a[0])
    q = I.load(st, p, 'ptr', fr)
    n = I.load(st, ptr(p.args[0], add(p.args[1], 8)), 'i64', fr)
    k = mk_size(y)
    if pre:
        I.store(st, p, ptr(q.args[0], add(q.args[1], k)), 'ptr', fr)
    I.store(st, ptr(p.args[0], add(p.args[1], 8)), sub(n, k), 'i64', fr)
    return 1


@model('absl::StripPrefix', 'absl::StripSuffix')
def m_strip(I, st, fr, i, fn, a):
    x = st.norm(sview(I, st, fr, a[0], a[1]))
    y = st.norm(sview(I, st, fr, a[2], a[3]))
    pre = fn.short.endswith('Prefix')
    q, n = st.norm(a[0]), st.norm(a[1])
    if st.must(mk_startswith(x, y) if pre else mk_endswith(x, y)):
        k = mk_size(y)
        if pre and is_ptr(q):
            q = ptr(q.args[0], add(q.args[1], k))
        n = sub(n, k)
    return Agg({0: q, 8: n})


@model('absl::StrCat')
def m_strcat(I, st, fr, i, fn, a):
    if fn.sret is None:
        return INLINE
    vs = []
    for p in a[1:]:
        if not is_ptr(st.norm(p)):
            return INLINE
        vs.append(svref(I, st, fr, st.norm(p)))
    setS(I, st, fr, a[0], mk_concat(*vs))


@model('absl::WebSafeBase64Unescape', 'absl::Base64Unescape')
def m_b64(I, st, fr, i, fn, a):
    src = st.norm(sview(I, st, fr, a[0], a[1]))
    web = fn.short[6:]
    c = T('pred', 'b64ok', web, src)
    if src == '':
        setS(I, st, fr, a[2], '')
        return 1
    if st.must(c):
        setS(I, st, fr, a[2], T('b64', web, src))
        return 1
    # on failure the destination is cleared
    setS(I, st, fr, a[2], '')
    return 0


def strfn(f, x):
    if isinstance(x, str) and f in ('upper', 'lower'):
        return ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' and f == 'upper' else chr(ord(c) + 32) if 'A' <= c <= 'Z' and f == 'lower' else c for c in x)
    return T('strfn', f, x)


@model(rx=r'absl::(WebSafe)?Base64Escape|absl::AsciiStrTo(Upper|Lower)|absl::BytesToHexString|absl::HexStringToBytes|absl::Utf8SafeCEscape|absl::CEscape|absl::CHexEscape')
def m_strfn(I, st, fr, i, fn, a):
    f = fn.short[6:]
    f = 'upper' if f.endswith('Upper') else 'lower' if f.endswith('Lower') else f
    if fn.sret is not None:
        x = st.norm(sview(I, st, fr, a[1], a[2])) if len(a) == 3 else svref(I, st, fr, st.norm(a[1]))
        setS(I, st, fr, a[0], strfn(f, x))
    elif len(a) == 3:
        setS(I, st, fr, a[2], strfn(f, st.norm(sview(I, st, fr, a[0], a[1]))))
    elif len(a) == 1:
        p = st.norm(a[0])
        setS(I, st, fr, p, strfn(f, st.norm(S(I, st, fr, p))))
    else:
        return INLINE


# Now / times
WALL = T('irange', 'wallclock', 0, 1 << 33)       # seconds since 1970
UNITS = {'Seconds': 1, 'Millis': 10 ** 3, 'Micros': 10 ** 6, 'Nanos': 10 ** 9}


def wall(unit):
    """The wall clock in other units: its whole seconds are the same."""
    k = UNITS[unit]
    return WALL if k == 1 else add(scale(WALL, k), T('irange', 'wall' + unit, 0, k - 1))


@model('absl::Now')
def m_now(I, st, fr, i, fn, a):
    t = T('irange', 'now', 'absl', -(1 << 63), (1 << 63) - 1)
    if fn.sret is not None:
        p = st.norm(a[0])
        I.store(st, p, t, 'i64', fr)
        I.store(st, ptr(p.args[0], add(p.args[1], 8)), 0, 'i32', fr)
        return None
    return Agg({0: t, 8: 0}) if isinstance(i.t, list) else t


@model(rx=r'absl::ToUnix\w+|absl::ToTimeT')
def m_tounix(I, st, fr, i, fn, a):
    x = [st.norm(y) if isinstance(y, Term) else y for y in a]
    u = fn.short.split('ToUnix')[-1]
    if any(isinstance(y, Term) and any(z.op == 'irange' and z.args[0] == 'now' for z in y.subs) for y in x):
        y = x[0]
        if isinstance(y, Agg):
            y = y.get(0)
        if isinstance(y, Term) and y.op == 'irange' and (u in UNITS or fn.short.endswith('ToTimeT')):
            return wall(u if u in UNITS else 'Seconds')
    return T('irange', 'clock', fn.short, *[y if isinstance(y, (Term, int)) else 0 for y in x], -(1 << 63), (1 << 63) - 1)


@model('absl::GetCurrentTimeNanos')
def m_nanos(I, st, fr, i, fn, a):
    return wall('Nanos')


@model('time')
def m_time(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    if is_ptr(p):
        I.store(st, p, WALL, "i64", fr)
    return WALL


@model('std::chrono::_V2::system_clock::now', 'std::chrono::system_clock::now')
def m_chrono(I, st, fr, i, fn, a):
    return wall('Nanos')


# ------------------------------------------------------------------ StrSplit
@model('absl::StrSplit')
def m_split(I, st, fr, i, fn, a):
    """Writes a description of the splitter into the result object."""
    if fn.sret is None:
        return INLINE
    from .interp import split_params
    ps = split_params(fn.ptext)
    text = None
    if 'ConvertibleToStringView' in ps[0]:
        # by value or by hidden reference: 16 or 48 bytes, the view is at 0
        if not (len(fn.params) > 2 and fn.params[2] == 'i64'):
            text = svref(I, st, fr, st.norm(a[1]))
            rest = a[2:]
        else:
            text = sview(I, st, fr, a[1], a[2])
            rest = a[3:]
    else:
        return INLINE
    d = ps[1]
    rest = list(rest)
    if d == 'char' or d == 'absl::ByChar':
        sep = chrv(st, rest[0]) if not is_ptr(st.norm(rest[0])) else T('sepobj', st.norm(rest[0]))
        r = 1
    elif d == 'char const*':
        sep = cstr(I, st, fr, rest[0])
        r = 1
    elif 'MaxSplits' in d:
        v = st.norm(rest[0])
        o = v.args[0] if is_ptr(v) else v
        sep = T('maxsplits', v if isinstance(v, (Term, int)) else 0, *[st.norm(x) if isinstance(x, Term) else x for x in rest[1:2]])
        if is_ptr(v) and v.args[0] in st.mem:
            cells = st.mem[v.args[0]]
            sep = T('maxsplits', *[T('c', k if isinstance(k, int) else 0, x if isinstance(x, (int, str, Term)) else 0) for k, x in sorted(cells.items(), key=str)])
        r = 2
    else:
        sep = T('sep', d)
        r = 1
    pred = ps[2] if len(ps) > 2 else ''
    if pred:
        sep = T('splitpred', sep, pred)
    res = st.norm(a[0])
    st.put(T('cr', res.args[0]), 0, T('splitter', text, sep))
    src = st.norm(a[1])
    st.put(T('cr', res.args[0]), 8, src)
    return None


@model('absl::strings_internal::Splitter::operator std::vector')
def m_split2(I, st, fr, i, fn, a):
    sp = st.norm(a[1])
    v = st.get(T('cr', sp.args[0]), 0)
    if v is None:
        return INLINE
    v = st.norm(v)
    text, sep = v.args
    mkvecsplit(I, st, fr, i, st.norm(a[0]), text, sep, 'string_view' not in (fn.dem.split('operator std::vector')[1])[:60])
    return None


def mkvecsplit(I, st, fr, i, dst, text, sep, strings):
    esz = 32 if strings else 16
    if isinstance(text, str) and isinstance(sep, str) and sep:
        parts = text.split(sep)
        buf = newheap(I, st, fr, i, 'vec', size=esz * len(parts))
        pos = 0
        for k, x in enumerate(parts):
            if strings:
                st.put(buf, 32 * k, x)
            else:
                st.put(buf, 16 * k, ptr(T('buf', text), pos))
                st.put(buf, 16 * k + 8, len(x))
            pos += len(x) + len(sep)
        b, e = ptr(buf, 0), ptr(buf, esz * len(parts))
    else:
        sb = T('splitbuf', text, sep, esz)
        n = T('nsplit', text, sep)
        b, e = ptr(sb, 0), ptr(sb, scale(n, esz))
    o, off = dst.args
    I.store(st, ptr(o, off), b, 'ptr', fr)
    I.store(st, ptr(o, add(off, 8)), e, 'ptr', fr)
    I.store(st, ptr(o, add(off, 16)), e, 'ptr', fr)


# ------------------------------------------------------------------ vectors
def esize(I, fn):
    t = fn.targ or ''
    if t == 'string':
        return 32
    if t.startswith('std::unique_ptr') or t.endswith('*') or t in ('long', 'unsigned long', 'double'):
        return 8
    if t.endswith('string_view'):
        return 16
    if t in ('unsigned char', 'char', 'signed char', 'bool'):
        return 1
    if t in ('int', 'unsigned int', 'float'):
        return 4
    for k in (t, t.replace('jv::', 'google::jwt_verify::')):
        s = I.prog.structs.get(k)
        if s:
            return s['size']
    return None


def vinit(I, st, fr, p, esz):
    """Make the three pointers of an untouched input vector explicit."""
    p = need(st, p, 'std::vector')
    if p is None:
        return None
    o, off = p.args
    off = st.norm(off)
    if st.get(o, off) is None and not (o.op in ('alloca', 'heap')):
        b = T('deref', o, off)
        n = T('count', o, off)
        st.put(o, off, ptr(b, 0))
        if st.get(o, st.norm(add(off, 8))) is None:
            st.put(o, add(off, 8), ptr(b, scale(n, esz)))
    return p


def vget(I, st, fr, p):
    o, off = p.args
    return st.norm(I.load(st, ptr(o, off), 'ptr', fr)), st.norm(I.load(st, ptr(o, add(off, 8)), 'ptr', fr))


def vset(I, st, fr, p, b, e):
    o, off = p.args
    I.store(st, ptr(o, off), b, 'ptr', fr)
    I.store(st, ptr(o, add(off, 8)), e, 'ptr', fr)
    st.pop(o, st.norm(add(off, 16)))      # the capacity is never looked at


@model('std::vector::begin', 'std::vector::end', 'std::vector::size', 'std::vector::empty', 'std::vector::operator[]',
       'std::vector::at', 'std::vector::front', 'std::vector::back', 'std::vector::data', 'std::vector::cbegin',
       'std::vector::cend')
def m_vec(I, st, fr, i, fn, a):
    esz = esize(I, fn)
    if esz is None:
        return INLINE
    p = vinit(I, st, fr, a[0], esz)
    if p is None:
        return st.fresh('unk', I.fsite(fr), 's64') if i.t != 'ptr' else ptr(st.fresh('unk', I.fsite(fr), 'ptr'), 0)
    b, e = vget(I, st, fr, p)
    m = fn.short[13:]
    if m in ('begin', 'cbegin', 'data'):
        return b
    if m in ('end', 'cend'):
        return e
    n = vcount(I, st, b, e, esz)
    if m == 'size':
        return n
    if m == 'empty':
        return eq0(n)
    if m == 'at':
        k = I.uview(st, st.norm(a[1]), 64)
        if not st.must(lt(k, n)):
            raise Abort('throw', 'out_of_range')
    elif m == 'operator[]':
        k = I.sview(st, st.norm(a[1]), 64) if isinstance(a[1], Term) else a[1]
        I.hooks.on_index(st, fr, k, n, 'vector index')
    else:
        k = 0 if m == 'front' else sub(n, 1)
        I.hooks.on_index(st, fr, k, n, 'vector ' + m)
    if b is NULL:
        raise Abort('null', 'element of an empty vector')
    if not is_ptr(b):
        return ptr(st.fresh('unk', I.fsite(fr), 'ptr'), 0)
    return ptr(b.args[0], add(b.args[1], scale(k, esz)))


def vcount(I, st, b, e, esz):
    if b is e:
        return 0
    if is_ptr(b) and is_ptr(e) and b.args[0] is e.args[0]:
        d = sub(e.args[1], b.args[1])
        x = I.exact(d, esz)
        return x if x is not None else mk_div(d, esz)
    return T('irange', 'vcount', b, e, 0, 1 << 60)


@model('std::vector::vector')
def m_vctor(I, st, fr, i, fn, a):
    from .interp import split_params
    ps = [p for p in split_params(fn.ptext) if p]
    esz = esize(I, fn)
    if esz is None:
        return INLINE
    p = st.norm(a[0])
    if not ps or ps[0].startswith('std::allocator'):
        b = ptr(newheap(I, st, fr, i, 'vec'), 0)
        vset(I, st, fr, p, b, b)
        return None
    t = ps[0]
    if t == 'unsigned long' and esz == 1:
        n = st.norm(a[1])
        buf = newheap(I, st, fr, i, 'vec', size=n, tag='zero')
        if len(ps) > 1 and 'allocator' not in ps[1]:
            st.objs[buf] = (n, None)
        vset(I, st, fr, p, ptr(buf, 0), ptr(buf, n))
        return None
    if t.endswith('&&') and t.startswith('std::vector'):
        q = vinit(I, st, fr, a[1], esz)
        b, e = vget(I, st, fr, q)
        vset(I, st, fr, p, b, e)
        nb = ptr(newheap(I, st, fr, i, 'vec'), 0)
        vset(I, st, fr, q, nb, nb)
        return None
    if t.endswith('const&') and t.startswith('std::vector'):
        q = vinit(I, st, fr, a[1], esz)
        b, e = vget(I, st, fr, q)
        n = vcount(I, st, b, e, esz)
        if isinstance(n, int) and is_ptr(b):
            buf = newheap(I, st, fr, i, 'vec', size=n * esz)
            for k in range(n):
                copyelem(I, st, fr, b.args[0], add(b.args[1], k * esz), buf, k * esz, esz, fn.targ)
            vset(I, st, fr, p, ptr(buf, 0), ptr(buf, n * esz))
        elif n == 0:
            nb = ptr(newheap(I, st, fr, i, 'vec'), 0)
            vset(I, st, fr, p, nb, nb)
        else:
            buf = T('vcopy', b, n)
            vset(I, st, fr, p, ptr(buf, 0), ptr(buf, scale(n, esz)))
        return None
    if t.startswith('std::initializer_list') or 'iterator' in t or t.endswith('*'):
        b = st.norm(a[1])
        if t.startswith('std::initializer_list'):
            n = st.norm(a[2])
        else:
            n = vcount(I, st, b, st.norm(a[2]), esz)
        if isinstance(n, int) and is_ptr(b):
            buf = newheap(I, st, fr, i, 'vec', size=n * esz)
            for k in range(n):
                copyelem(I, st, fr, b.args[0], add(b.args[1], k * esz), buf, k * esz, esz, fn.targ)
            vset(I, st, fr, p, ptr(buf, 0), ptr(buf, n * esz))
            return None
        if is_ptr(b) and esz == 1:
            c = chars(I, st, fr, b, n)
            buf = newheap(I, st, fr, i, 'vec', size=n)
            st.put(T('bufbytes', buf), 0, (0, c, n))
            vset(I, st, fr, p, ptr(buf, 0), ptr(buf, n))
            return None
    b = st.fresh('unk', I.fsite(fr), 'ptr')
    vset(I, st, fr, p, ptr(b, 0), ptr(b, scale(T('count', b, 0), esz)))
    return None


def copyelem(I, st, fr, o, off, o2, off2, esz, targ, move=False):
    if targ == 'string':
        v = Sat(I, st, fr, o, off)
        st.put(o2, off2, v)
        I.hooks.on_store(st, fr, o2, off2, v)
        if move:
            st.put(o, off, '')
        return
    if esz == 16:
        st.put(o2, off2, I.cell(st, o, off, 'ptr', fr))
        st.put(o2, add(off2, 8), I.cell(st, o, add(off, 8), 'i64', fr))
        return
    v = I.cell(st, o, off, 'ptr' if esz == 8 and not (targ or '').endswith('long') else 'i%d' % (8 * min(esz, 8)), fr)
    st.put(o2, off2, v)
    I.hooks.on_store(st, fr, o2, off2, v)
    if move:
        I.store(st, ptr(o, off), NULL, 'ptr', fr)


@model('std::vector::~vector', 'std::vector::clear')
def m_vdtor(I, st, fr, i, fn, a):
    esz = esize(I, fn)
    if esz is None:
        return INLINE
    p = vinit(I, st, fr, a[0], esz)
    if p is None:
        return None
    b, e = vget(I, st, fr, p)
    n = vcount(I, st, b, e, esz)
    vdestroy(I, st, fr, i, p, b, 0, n, esz, fn.targ)
    if fn.short.endswith('clear'):
        vset(I, st, fr, p, b, b)
    else:
        for k in (0, 8, 16):
            st.pop(p.args[0], add(p.args[1], k))
        if is_ptr(b) and b.args[0].op == 'heap':
            st.drop(b.args[0])
    return None


def vdestroy(I, st, fr, i, p, b, lo, n, esz, targ):
    """Elements lo.. of the vector are destroyed."""
    I.hooks.on_vdestroy(st, fr, i, p, b, lo, n, esz, targ)
    if is_ptr(b):
        m = st.mem.get(b.args[0])
        if m:
            for o in list(m):
                if lo == 0 or (isinstance(o, int) and isinstance(lo, int) and o >= lo * esz):
                    st.pop(b.args[0], o)
        if lo == 0 and st.objs.get(b.args[0], (0, 0))[1] == 'summary':
            st.objs[b.args[0]] = (st.objs[b.args[0]][0], None)


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def m_vreserve(I, st, fr, i, fn, a):
    return None


@model('std::vector::push_back', 'std::vector::emplace_back')
def m_vpush(I, st, fr, i, fn, a):
    esz = esize(I, fn)
    t = fn.targ or ''
    if esz not in (1, 8, 16, 32):
        return INLINE
    p = vinit(I, st, fr, a[0], esz)
    if p is None:
        st.ghost['unk'] = 'push_back'
        return None
    b, e = vget(I, st, fr, p)
    if not is_ptr(b):
        buf = newheap(I, st, fr, i, 'vec', size=None)
        b = e = ptr(buf, 0)
    I.hooks.on_push(st, fr, i, p, t, a[1:])
    o, off = e.args
    if len(a) >= 2:
        src = st.norm(a[1])
        if t == 'string':
            x = fn.ptext
            if len(a) == 2 and ('string' in (fn.targs[-1] if fn.short.endswith('emplace_back') and len(fn.targs) > 1 else 'string')) and 'string_view' not in x:
                v = S(I, st, fr, src)
                mv = 'string&&' in x or (fn.short.endswith('emplace_back') and '&&' in x)
                st.put(o, off, v)
                I.hooks.on_store(st, fr, o, off, v)
                if mv and src.args[0].op in ('alloca', 'heap'):
                    setS(I, st, fr, src, '')
            else:
                v = svref(I, st, fr, src) if len(a) == 2 and 'string_view' in x else st.fresh('unkstr', I.fsite(fr), 'str')
                st.put(o, off, v)
                I.hooks.on_store(st, fr, o, off, v)
        elif is_ptr(src):
            if t.startswith('std::unique_ptr') and fn.short.endswith('emplace_back') and 'unique_ptr' not in fn.ptext:
                # emplace_back(raw pointer)
                v = I.load(st, src, 'ptr', fr)
                I.store(st, ptr(o, off), v, 'ptr', fr)
            else:
                copyelem(I, st, fr, src.args[0], src.args[1], o, off, esz, t, move=t.startswith('std::unique_ptr'))
        else:
            I.store(st, ptr(o, off), src, None, fr)
    vset(I, st, fr, p, b, ptr(o, add(off, esz)))
    return ptr(o, off)


@model('std::vector::pop_back')
def m_vpop(I, st, fr, i, fn, a):
    esz = esize(I, fn)
    if esz is None:
        return INLINE
    p = vinit(I, st, fr, a[0], esz)
    b, e = vget(I, st, fr, p)
    n = vcount(I, st, b, e, esz)
    I.hooks.on_index(st, fr, sub(n, 1), n, 'pop_back')
    vdestroy(I, st, fr, i, p, b, sub(n, 1), n, esz, fn.targ)
    if is_ptr(e):
        st.pop(e.args[0], sub(e.args[1], esz))
        vset(I, st, fr, p, b, ptr(e.args[0], sub(e.args[1], esz)))
    return None


@model('std::vector::insert')
def m_vinsert(I, st, fr, i, fn, a):
    """insert(end(), first, last): appends; anything else becomes opaque."""
    esz = esize(I, fn)
    if esz is None:
        return INLINE
    p = vinit(I, st, fr, a[0], esz)
    b, e = vget(I, st, fr, p)
    pos = st.norm(a[1])
    if len(a) >= 4:
        f, l = st.norm(a[2]), st.norm(a[3])
        if f is l:
            return pos
        at_end = pos is e or (is_ptr(pos) and is_ptr(e) and pos.args[0] is e.args[0] and st.decide(eq(pos.args[1], e.args[1])) is True) or b is NULL
        if is_ptr(f) and is_ptr(l) and f.args[0] is l.args[0]:
            n = vcount(I, st, f, l, esz)
            I.hooks.on_insert(st, fr, i, p, at_end, f, n, 'move' in fn.ptext or 'move' in fn.dem)
            if isinstance(n, int) and at_end:
                if not is_ptr(b):
                    buf = newheap(I, st, fr, i, 'vec', size=None)
                    b = e = ptr(buf, 0)
                o, off = e.args
                for k in range(n):
                    copyelem(I, st, fr, f.args[0], add(f.args[1], k * esz), o, add(off, k * esz), esz, fn.targ,
                             move='move' in fn.dem)
                vset(I, st, fr, p, b, ptr(o, add(off, n * esz)))
                return ptr(o, off)
    I.hooks.on_imprecise(st, fr, i, 'vector insert')
    nb = st.fresh('unk', I.fsite(fr), 'ptr')
    vset(I, st, fr, p, ptr(nb, 0), ptr(nb, scale(T('count', nb, 0), esz)))
    return ptr(nb, 0)


@model('std::vector::resize')
def m_vresize(I, st, fr, i, fn, a):
    esz = esize(I, fn)
    p = vinit(I, st, fr, a[0], esz or 1)
    n = st.norm(a[1])
    b, e = vget(I, st, fr, p)
    if esz == 1:
        if is_ptr(b):
            o = b.args[0]
            st.objs[o] = (n, st.objs.get(o, (0, None))[1])
            vset(I, st, fr, p, b, ptr(o, n))
        else:
            buf = newheap(I, st, fr, i, 'vec', size=n, tag='zero')
            vset(I, st, fr, p, ptr(buf, 0), ptr(buf, n))
        return None
    I.hooks.on_imprecise(st, fr, i, 'vector resize')
    nb = st.fresh('unk', I.fsite(fr), 'ptr')
    vset(I, st, fr, p, ptr(nb, 0), ptr(nb, scale(n, esz or 1)))
    return None


@model('std::vector::operator=', 'std::vector::swap', 'std::vector::assign')
def m_vassign(I, st, fr, i, fn, a):
    esz = esize(I, fn)
    if esz is None:
        return INLINE
    p = vinit(I, st, fr, a[0], esz)
    if fn.short.endswith('swap') or ('&&' in fn.ptext and fn.short.endswith('operator=')):
        q = vinit(I, st, fr, a[1], esz)
        b, e = vget(I, st, fr, p)
        b2, e2 = vget(I, st, fr, q)
        if fn.short.endswith('operator='):
            n = vcount(I, st, b, e, esz)
            vdestroy(I, st, fr, i, p, b, 0, n, esz, fn.targ)
            b = e = NULL
        vset(I, st, fr, p, b2, e2)
        vset(I, st, fr, q, b, e)
        return a[0]
    if fn.short.endswith('operator=') and 'const&' in fn.ptext:
        q = vinit(I, st, fr, a[1], esz)
        b2, e2 = vget(I, st, fr, q)
        n = vcount(I, st, b2, e2, esz)
        if isinstance(n, int):
            buf = newheap(I, st, fr, i, 'vec', size=n * esz)
            for k in range(n):
                copyelem(I, st, fr, b2.args[0], add(b2.args[1], k * esz), buf, k * esz, esz, fn.targ)
            vset(I, st, fr, p, ptr(buf, 0), ptr(buf, n * esz))
        else:
            vset(I, st, fr, p, ptr(T('vcopy', b2, n), 0), ptr(T('vcopy', b2, n), scale(n, esz)))
        return a[0]
    if fn.short.endswith('assign') and esz == 1 and len(a) >= 3:
        f, l = st.norm(a[1]), st.norm(a[2])
        n = pdiff(st, l, f)
        c = chars(I, st, fr, f, n)
        buf = newheap(I, st, fr, i, 'vec', size=n)
        st.put(T('bufbytes', buf), 0, (0, c, n))
        vset(I, st, fr, p, ptr(buf, 0), ptr(buf, n))
        return None
    I.hooks.on_imprecise(st, fr, i, fn.short)
    b = st.fresh('unk', I.fsite(fr), 'ptr')
    vset(I, st, fr, p, ptr(b, 0), ptr(b, scale(T('count', b, 0), esz)))
    return a[0]


# ------------------------------------------------------------------ unique_ptr
@model('std::unique_ptr::get', 'std::unique_ptr::operator->', 'std::unique_ptr::operator*')
def m_upget(I, st, fr, i, fn, a):
    if not single(fn.targs):
        return INLINE
    v = I.load(st, need(st, a[0]), 'ptr', fr)
    if not fn.short.endswith('get'):
        n = mk_isnull(st.norm(v))
        if n == 1 or st.decide(n):
            raise Abort('null', 'operator-> of an empty unique_ptr')
    return v


@model('std::unique_ptr::operator bool')
def m_upbool(I, st, fr, i, fn, a):
    if not single(fn.targs):
        return INLINE
    return bnot(mk_isnull(st.norm(I.load(st, need(st, a[0]), 'ptr', fr))))


@model('std::unique_ptr::release')
def m_uprel(I, st, fr, i, fn, a):
    if not single(fn.targs):
        return INLINE
    p = need(st, a[0])
    v = I.load(st, p, 'ptr', fr)
    I.store(st, p, NULL, 'ptr', fr)
    I.hooks.on_uprelease(st, fr, i, v)
    return v


@model('std::unique_ptr::unique_ptr')
def m_upctor(I, st, fr, i, fn, a):
    if not single(fn.targs):
        return INLINE
    from .interp import split_params
    ps = [x for x in split_params(fn.ptext) if x]
    p = st.norm(a[0])
    if not ps or 'nullptr_t' in ps[0]:
        I.store(st, p, NULL, 'ptr', fr)
    elif ps[0].startswith('std::unique_ptr'):
        q = st.norm(a[1])
        v = I.load(st, q, 'ptr', fr)
        I.store(st, p, v, 'ptr', fr)
        I.store(st, q, NULL, 'ptr', fr)
    else:
        I.store(st, p, a[1], 'ptr', fr)
    return None


@model('std::unique_ptr::~unique_ptr')
def m_updtor(I, st, fr, i, fn, a):
    if not single(fn.targs):
        return INLINE
    p = need(st, a[0])
    v = st.norm(I.load(st, p, 'ptr', fr))
    if v is NULL or v is UNDEF or st.decide(mk_isnull(v)):
        st.pop(p.args[0], p.args[1])
        return None
    return INLINE


@model('std::make_unique')
def m_mkuniq(I, st, fr, i, fn, a):
    return INLINE


@model('operator new', 'operator new[]', 'malloc')
def m_new(I, st, fr, i, fn, a):
    o = newheap(I, st, fr, i, 'new', size=st.norm(a[0]))
    return ptr(o, 0)


@model('operator delete', 'operator delete[]', 'free')
def m_delete(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    I.hooks.on_delete(st, fr, i, p)
    if is_ptr(p) and p.args[0].op == 'heap':
        st.drop(p.args[0])
        st.drop(T('bufbytes', p.args[0]))
    return None


@model('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove')
def m_memcpy(I, st, fr, i, fn, a):
    d, s, n = st.norm(a[0]), st.norm(a[1]), st.norm(a[2])
    if isinstance(n, int) and n == 0:
        return d
    if not is_ptr(d) or not is_ptr(s):
        if d is NULL or s is NULL:
            if not isinstance(n, int) and st.must(eq0(n)):
                return d
            raise Abort('null', 'memcpy')
        st.ghost['unk'] = 'memcpy'
        return d
    so, soff = s.args
    do, doff = d.args
    if fn.short in ('memcpy', 'memmove') or not isinstance(n, int):
        c = chars(I, st, fr, s, n, fn.short)
        setbytes(I, st, fr, d, c, n, fn.short)
        return d
    if so.op == 'g' and not st.mem.get(so):
        g = I.prog.globals.get(so.args[0])
        if g and 'init' in g and isinstance(soff, int) and isinstance(doff, int):
            for o, t, x in g['init']:
                if t == 'zero':
                    for q in range(o, o + x, 8):
                        if soff <= q < soff + n:
                            st.put(do, doff + q - soff, 0)
                elif t == 'bytes':
                    for q, ch in enumerate(x):
                        if soff <= o + q < soff + n:
                            st.put(do, doff + o + q - soff, ord(ch))
                elif soff <= o < soff + n:
                    I.store(st, ptr(do, doff + o - soff), I.val(st, fr, x), None, fr)
            return d
    m = st.mem.get(so, {})
    todo = []
    for o, v in m.items():
        if isinstance(o, int) and isinstance(soff, int):
            if soff <= o < soff + n:
                todo.append((o - soff, v))
        else:
            q = sub(o, soff)
            if isinstance(q, int):
                if 0 <= q < n:
                    todo.append((q, v))
    if not todo and so.op not in ('alloca', 'heap'):
        # copy lazily known words
        for q in range(0, n, 8):
            todo.append((q, T('word', so, st.norm(add(soff, q)))))
    for q, v in todo:
        I.store(st, ptr(do, add(doff, q)), v, None, fr)
    bb = st.get(T('bufbytes', so), 0)
    if bb is not None:
        st.put(T('bufbytes', do), 0, bb)
    return d


@model('llvm.memset.p0.i64', 'memset')
def m_memset(I, st, fr, i, fn, a):
    d, c, n = st.norm(a[0]), st.norm(a[1]), st.norm(a[2])
    if is_ptr(d) and isinstance(n, int) and isinstance(d.args[1], int) and c == 0:
        o, off = d.args
        m = st.mem.get(o, {})
        for q in list(m):
            if isinstance(q, int) and off <= q < off + n:
                st.pop(o, q)
        if n <= 256:
            for q in range(0, n, 8):
                st.put(o, off + q, 0)
        elif o in st.objs:
            st.objs[o] = (st.objs[o][0], 'zero')
        return d
    if is_ptr(d):
        I.havoc(st, d.args[0], fr)
    return d


@model(rx=r'llvm\.(lifetime|dbg|assume|experimental|donothing|expect|annotation|var\.annotation|invariant).*')
def m_llvm(I, st, fr, i, fn, a):
    if fn is not None and fn.short.startswith('llvm.expect'):
        return a[0]
    return None


@model(rx=r'llvm\.(u|s)(min|max)\.i64')
def m_minmax(I, st, fr, i, fn, a):
    x, y = st.norm(a[0]), st.norm(a[1])
    v = I.uview if '.u' in fn.short else I.sview
    x, y = v(st, x, 64), v(st, y, 64)
    lt_ = st.must(le(x, y))
    mn = 'min' in fn.short
    return x if bool(lt_) == mn else y


@model(rx=r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(64|32)|llvm\.(u|s)(add|sub)\.sat\.i(64|32)')
def m_ovf(I, st, fr, i, fn, a):
    n = fn.short
    w = 64 if '64' in n else 32
    sg = n.split('.')[1][0] == 's'
    v = I.sview if sg else I.uview
    x, y = v(st, st.norm(a[0]), w), v(st, st.norm(a[1]), w)
    op = 'add' if 'add' in n else 'sub' if 'sub' in n else 'mul'
    if op == 'mul':
        if isinstance(x, int):
            x, y = y, x
        if not isinstance(y, int):
            return INLINE
        r = scale(x, y)
    else:
        r = add(x, y, 1 if op == 'add' else -1)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    small = le(lo, r) if isinstance(r, int) else ge0(sub(r, lo))
    if not st.must(small):
        if 'sat' in n:
            return lo
        return Agg({0: I.wrap(st, r, w) if not sg else add(r, 1 << w), 8: 1})
    if not st.must(ge0(sub(hi, r))):
        if 'sat' in n:
            return hi
        return Agg({0: sub(r, 1 << w), 8: 1})
    if 'sat' in n:
        return r
    return Agg({0: r, 8: 0})


# ------------------------------------------------------------------ sets
def setval(I, st, fr, p):
    p = need(st, p, 'set')
    if p is None:
        return None, T('setunk')
    v = st.get(p.args[0], p.args[1])
    if v is None:
        v = T('setinit', p.args[0], p.args[1])
    return p, st.norm(v)


SETRX = r'(std::set|std::unordered_set|absl::flat_hash_set|absl::btree_set|absl::container_internal::(raw_hash_set|btree_set_container|btree_container))'


def setkey(I, st, fr, fn, a):
    """The key argument: std::string&, string_view or const char*."""
    t = fn.ptext
    whole = fn.dem
    p = st.norm(a[1])
    if len(a) > 2 and not is_ptr(st.norm(a[2])) and 'string_view' in (t + str(fn.targs)):
        return sview(I, st, fr, a[1], a[2])
    return None


def elemkind(fn):
    t = ' '.join(fn.targs[:1])
    if 'FlatHashSetPolicy<' in t:
        t = t.split('FlatHashSetPolicy<')[1]
    if t.startswith('absl::string_view'):
        return 'sv'
    if t.startswith('string') or t.startswith('std::string') or 'basic_string' in t:
        return 'str'
    return None


def argkey(I, st, fr, fn, a, k):
    p = st.norm(a[k])
    e = elemkind(fn)
    if not is_ptr(p):
        return st.fresh('unkstr', I.fsite(fr), 'str')
    pt = fn.ptext
    if pt.startswith('absl::string_view') and 'const&' not in pt[:30]:
        return sview(I, st, fr, a[k], a[k + 1])
    if pt.startswith('string') or (len(fn.targs) > 1 and fn.targs[1].startswith('string') and 'string_view' not in fn.targs[1][:14]):
        return S(I, st, fr, p)
    if 'string_view' in pt.split(')')[0] or e == 'sv':
        return svref(I, st, fr, p)
    return S(I, st, fr, p)


def member(I, st, s, x):
    """Membership of x in the set value s, as a condition."""
    s = st.norm(s)
    if s.op == 'setconst':
        r = 0
        for c in s.args:
            r = mk_or(r, mk_seq(x, c))
        return r
    if s.op == 'setins':
        return mk_or(mk_seq(x, s.args[1]), member(I, st, s.args[0], x))
    return T('pred', 'member', s, x)


def memberc(I, st, s, x):
    if s.op == 'setconst':
        for c in s.args:
            if st.must(mk_seq(st.norm(x), c)):
                return True
        return False
    return bool(st.must(member(I, st, s, x)))


SETMETHODS = SETRX + r'::(find|contains|count|empty|size|end|cend|begin|insert|emplace|clear|~?\w+_set|~?set|raw_hash_set|operator=)'


MAPRX = (r'(std::map|std::unordered_map|absl::flat_hash_map|absl::btree_map|absl::container_internal::(raw_hash_map|raw_hash_set|btree_container|'
         r'btree_map_container))')
KSIZE = {'str': 32, 'sv': 16, 'int': 4}


def mapkind(fn):
    """Key kind and value offset of a lookup table; None for other types."""
    t = fn.targs[0] if fn.targs else ''
    if 'FlatHashMapPolicy<' in t:
        t = t.split('FlatHashMapPolicy<', 1)[1]
    elif 'MapPolicy<' in t or 'map_params<' in t:
        t = t.split('<', 1)[1]
    elif not re.match(r'std::(unordered_)?map::|absl::(flat_hash|btree)_map::', fn.short + '::'):
        return None
    parts, d, cur = [], 0, ''
    for c in t:
        if c == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
            continue
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
            if d < 0:
                break
        cur += c
    parts.append(cur.strip())
    if len(parts) < 2:
        return None
    k, v = parts[0], parts[1]
    if k in ('string', 'std::string', 'string const'):
        kk = 'str'
    elif k in ('absl::string_view', 'absl::string_view const'):
        kk = 'sv'
    elif k.replace(' const', '') in ('int', 'unsigned int', 'jv::Status', 'google::jwt_verify::Status'):
        kk = 'int'
    else:
        return None
    al = 4 if v in ('int', 'unsigned int', 'jv::Status', 'google::jwt_verify::Status', 'float') else 1 if v == 'bool' else 8
    return kk, -(-KSIZE[kk] // al) * al


def mapkey(I, st, fr, kk, p):
    if not is_ptr(p):
        return None
    if kk == 'str':
        return st.norm(S(I, st, fr, p))
    if kk == 'sv':
        return st.norm(svref(I, st, fr, p))
    return st.norm(I.load(st, p, 'i32', fr))


def maparg(I, st, fr, fn, kk, a, k):
    p = st.norm(a[k])
    pt = fn.ptext
    if kk == 'int':
        return mapkey(I, st, fr, kk, p) if is_ptr(p) else p
    if pt.startswith('absl::string_view') and 'const&' not in pt[:30]:
        return st.norm(sview(I, st, fr, a[k], a[k + 1]))
    if not is_ptr(p):
        return st.fresh('unkstr', I.fsite(fr), 'str')
    if 'string_view' in pt.split(')')[0] or len(fn.targs) > 1 and 'string_view' in fn.targs[1]:
        return st.norm(svref(I, st, fr, p))
    if pt.startswith('string') or len(fn.targs) > 1 and fn.targs[1].startswith('string'):
        return st.norm(S(I, st, fr, p))
    if len(fn.targs) > 1 and fn.targs[1].startswith('char'):
        return st.norm(cstr(I, st, fr, p))
    return mapkey(I, st, fr, kk, p)


@model(rx=MAPRX + r'::(find|at|contains|count|empty|size|end|cend|begin|cbegin|insert|emplace|try_emplace|insert_or_assign|erase|clear|operator\[\]|'
       r'operator=|~?(map|unordered_map|flat_hash_map|btree_map|raw_hash_map|raw_hash_set))')
def m_map(I, st, fr, i, fn, a):
    mk = mapkind(fn)
    if mk is None:
        return m_set(I, st, fr, i, fn, a) if re.fullmatch(SETMETHODS, fn.short) else INLINE
    kk, voff = mk
    m = fn.short.split('::')[-1]
    off = 1 if fn.sret is not None else 0
    flat = 'hash_' in fn.short
    head = 0 if flat else 8 if 'unordered' in fn.short else 32
    this = st.norm(a[off])
    if not is_ptr(this):
        return I.opaque(st, fr, i.t) if i.d is not None else None
    mo, mf = this.args
    if m.startswith('~'):
        st.pop(mo, mf)
        return None

    def it(p):
        return Agg({0: p, 8: p}) if isinstance(i.t, list) else p

    def lost():
        st.put(mo, mf, T('mapunk', mo))
        if off:
            I.havoc(st, st.norm(a[0]).args[0], fr)
        return I.opaque(st, fr, i.t) if i.d is not None else None
    if m in ('map', 'unordered_map', 'flat_hash_map', 'btree_map', 'raw_hash_map', 'raw_hash_set'):
        if 'initializer_list' in fn.ptext:
            b, n = st.norm(a[1]), st.norm(a[2])
            sz = None
            if is_ptr(b) and b.args[0].op == 'g':
                sz = (I.prog.globals.get(b.args[0].args[0]) or {}).get('size')
            elif is_ptr(b):
                sz = st.objs.get(b.args[0], (None, None))[0]
            if not isinstance(n, int) or n == 0 or not isinstance(sz, int) or sz % n or b.args[1] != 0:
                return lost()
            es = sz // n
            ents = []
            for k in range(n):
                if b.args[0].op == 'g':
                    e = ptr(b.args[0], k * es)
                else:
                    o = T('mapent', mo, mf, k)
                    st.drop(o)
                    for c, v in list(st.mem.get(b.args[0], {}).items()):
                        if not isinstance(c, int):
                            return lost()
                        if k * es <= c < (k + 1) * es:
                            st.put(o, c - k * es, v)
                    e = ptr(o, 0)
                # the first of two equal keys wins
                ents.append(e)
            st.put(mo, mf, T('mapc', *ents))
            return None
        if fn.ptext.split(')')[0].strip() == '':
            st.put(mo, mf, T('mapc'))
            return None
        q = st.norm(a[1]) if len(a) > 1 else None
        s = st.get(*q.args) if is_ptr(q) and ('const&' in fn.ptext or '&&' in fn.ptext) and 'map' in fn.ptext.split('<')[0] else None
        if s is None:
            return lost()
        st.put(mo, mf, s)
        return None
    s = st.get(mo, mf)
    s = st.norm(s) if s is not None else T('mapunk', mo)
    endp = ptr(T('mapend', mo, mf), 0)
    if m in ('end', 'cend'):
        return it(endp)
    if s.op != 'mapc':
        if m in ('find', 'at', 'contains', 'count', 'empty', 'size', 'begin', 'cbegin'):
            return I.opaque(st, fr, i.t)
        return lost()
    if m == 'empty':
        return int(not s.args)
    if m in ('find', 'at', 'contains', 'count', 'operator[]'):
        x = maparg(I, st, fr, fn, kk, a, off + 1)
        hit = None
        for e in s.args:
            kx = mapkey(I, st, fr, kk, e)
            if st.must(st.norm(eq(x, kx) if kk == 'int' else mk_seq(x, kx))):
                hit = e
                break
        if m in ('contains', 'count'):
            return int(hit is not None)
        if m == 'find':
            return it(endp) if hit is None else it(ptr(hit.args[0], sub(hit.args[1], head)))
        if hit is None:
            if m == 'at':
                raise Abort('throw', 'out_of_range')
            return lost()
        return ptr(hit.args[0], add(hit.args[1], voff))
    if m == 'clear':
        st.put(mo, mf, T('mapc'))
        return None
    return lost()


@model(rx=r'absl::container_internal::raw_hash_set::(const_)?iterator::operator(\*|->)')
def m_mapderef(I, st, fr, i, fn, a):
    if mapkind(fn) is None:
        return INLINE
    p = st.norm(a[0])
    if not is_ptr(p):
        return I.opaque(st, fr, 'ptr')
    return I.load(st, ptr(p.args[0], add(p.args[1], 8)), 'ptr', fr)


@model(rx=SETMETHODS)
def m_set(I, st, fr, i, fn, a):
    if elemkind(fn) is None:
        return INLINE
    m = fn.short.split('::')[-1]
    off = 1 if fn.sret is not None else 0
    this = a[off]
    if m.startswith('~'):
        p = st.norm(this)
        if is_ptr(p):
            st.pop(p.args[0], p.args[1])
        return None
    p, s = setval(I, st, fr, this)
    if m in ('find', 'contains', 'count'):
        x = argkey(I, st, fr, fn, a, off + 1)
        t = memberc(I, st, s, st.norm(x))
        if m != 'find':
            return int(t)
        q = ptr(T('setelem', s, x), 0) if t else ptr(T('setend', s), 0)
        return Agg({0: q, 8: q}) if isinstance(i.t, list) else q
    if m in ('end', 'cend'):
        q = ptr(T('setend', s), 0)
        return Agg({0: q, 8: q}) if isinstance(i.t, list) else q
    if m == 'empty':
        if s.op == 'setconst':
            return int(not s.args)
        if s.op == 'setins':
            return 0
        return eq0(T('count', s, 0))
    if m == 'size':
        if s.op == 'setconst':
            return len(set(s.args))
        return T('count', s, 0)
    if m == 'begin':
        q = ptr(T('setbegin', s), 0)
        return Agg({0: q, 8: q}) if isinstance(i.t, list) else q
    if m == 'clear':
        st.put(p.args[0], p.args[1], T('setconst'))
        return None
    if m in ('insert', 'emplace'):
        ko = off + 1
        if fn.ptext.startswith(('std::_Rb_tree', 'std::__detail::', 'std::_')):
            from .interp import split_params
            if len(split_params(fn.ptext)) > 1 and 'terator' in split_params(fn.ptext)[1]:
                st.put(p.args[0], p.args[1], st.fresh('unk', I.fsite(fr), 's64'))
                return None
            # a hint comes first
            ko += 1
            q = st.norm(a[ko])
            x = st.norm(S(I, st, fr, q) if is_ptr(q) and elemkind(fn) == 'str' else svref(I, st, fr, q) if is_ptr(q) else st.fresh('unkstr', I.fsite(fr), 'str'))
        else:
            x = st.norm(argkey(I, st, fr, fn, a, ko))
        I.hooks.on_setinsert(st, fr, i, p, x)
        if s.op == 'setconst' and isinstance(x, str):
            n = T('setconst', *sorted(set(s.args) | {x}))
        else:
            n = T('setins', s, x)
        I.hooks.on_store(st, fr, p.args[0], p.args[1], n)
        st.put(p.args[0], p.args[1], n)
        return st.fresh('unk', I.fsite(fr), 's64') if not isinstance(i.t, list) else Agg({0: ptr(T('setelem', n, x), 0), 8: 1})
    if m == 'operator=':
        if 'const&' in fn.ptext or '&&' in fn.ptext:
            q, s2 = setval(I, st, fr, a[off + 1])
            st.put(p.args[0], p.args[1], s2)
            return this
        st.put(p.args[0], p.args[1], st.fresh('unk', I.fsite(fr), 's64'))
        return this
    # constructors
    pt = fn.ptext
    if 'initializer_list' in pt:
        b, n = st.norm(a[1]), st.norm(a[2])
        es = 16 if elemkind(fn) == 'sv' else 32
        vals = []
        for k in range(n if isinstance(n, int) else 0):
            q = ptr(b.args[0], add(b.args[1], k * es))
            vals.append(st.norm(svref(I, st, fr, q) if es == 16 else S(I, st, fr, q)))
        if all(isinstance(v, str) for v in vals):
            v = T('setconst', *sorted(set(vals)))
        else:
            v = T('setconst')
            for x in vals:
                v = T('setins', v, x)
        st.put(p.args[0], p.args[1], v)
        return None
    if ('const&' in pt and pt.startswith(('std::set', 'std::unordered_set', 'absl::flat', 'absl::container_internal::raw'))) or pt.startswith(
            ('std::set', 'absl::flat_hash_set')):
        q, s2 = setval(I, st, fr, a[1])
        st.put(p.args[0], p.args[1], s2)
        return None
    if pt.split(')')[0].strip() == '' or 'allocator' in pt and 'iterator' not in pt:
        st.put(p.args[0], p.args[1], T('setconst'))
        return None
    st.put(p.args[0], p.args[1], st.fresh('unk', I.fsite(fr), 's64'))
    return None


@model('absl::container_internal::operator!=', 'absl::container_internal::operator==')
def m_hsne(I, st, fr, i, fn, a):
    x = st.norm(I.load(st, st.norm(a[0]), 'ptr', fr)) if is_ptr(st.norm(a[0])) else UNDEF
    y = st.norm(I.load(st, st.norm(a[1]), 'ptr', fr)) if is_ptr(st.norm(a[1])) else UNDEF
    r = I.peq(st, x, y)
    return bnot(r) if fn.short.endswith('!=') else r


# ------------------------------------------------------------------ protobuf
def node_of_struct(I, st, fr, p):
    p = need(st, p, 'Struct')
    if p is None:
        return T('unknode', I.fsite(fr))
    v = st.get(p.args[0], p.args[1])
    if v is not None:
        return st.norm(v)
    if p.args[0].op == 'structof':
        return st.norm(T('snode', p.args[0].args[0]))
    I.hooks.on_load(st, fr, p.args[0], p.args[1], 'struct')
    return T('init', p.args[0], p.args[1], 'struct')


@model('pb::Struct::Struct')
def m_sctor(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    n = T('emptystruct')
    if 'Struct const&' in fn.ptext or 'Struct&&' in fn.ptext:
        n = node_of_struct(I, st, fr, a[1])
    I.hooks.on_store(st, fr, p.args[0], p.args[1], n)
    st.put(p.args[0], p.args[1], n)


@model('pb::Struct::~Struct')
def m_sdtor(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    if is_ptr(p):
        st.pop(p.args[0], p.args[1])


@model('pb::Struct::Clear')
def m_sclear(I, st, fr, i, fn, a):
    p = need(st, a[0])
    I.hooks.on_store(st, fr, p.args[0], p.args[1], T('emptystruct'))
    st.put(p.args[0], p.args[1], T('emptystruct'))


@model('pb::Struct::operator=', 'pb::Struct::CopyFrom', 'pb::Struct::MergeFrom')
def m_sassign2(I, st, fr, i, fn, a):
    p = need(st, a[0])
    n = node_of_struct(I, st, fr, a[1])
    if fn.short.endswith('MergeFrom'):
        o = node_of_struct(I, st, fr, a[0])
        if o.op != 'emptystruct':
            n = T('merged', o, n)
    I.hooks.on_store(st, fr, p.args[0], p.args[1], n)
    st.put(p.args[0], p.args[1], n)
    return a[0]


@model('pb::util::JsonParseOptions::JsonParseOptions')
def m_jpo(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    if is_ptr(p):
        st.put(p.args[0], p.args[1], 0)
    return None


@model('pb::stringpiece_internal::StringPiece::StringPiece')
def m_sp(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    ps = fn.ptext
    if ps.startswith('string'):
        v = S(I, st, fr, a[1])
        b = strbuf(v, st.norm(a[1]))
        n = mk_size(v)
    elif len(a) == 3:
        b, n = a[1], st.norm(a[2])
    elif len(a) == 2:
        v = cstr(I, st, fr, a[1])
        b, n = a[1], mk_size(v)
    else:
        b, n = NULL, 0
    st.put(p.args[0], p.args[1], b)
    st.put(p.args[0], add(p.args[1], 8), n)


@model('pb::util::JsonStringToMessage')
def m_json(I, st, fr, i, fn, a):
    text = st.norm(sview(I, st, fr, a[1], a[2]))
    msg = need(st, a[3], 'message')
    okc = T('pred', 'jsonok', text)
    res = st.norm(a[0])
    if st.must(okc):
        v = 1
        old = st.get(msg.args[0], msg.args[1])
        n = T('json', text)
        if old is None or st.norm(old).op != 'emptystruct':
            # the parsed members are merged into what is there
            n = T('merged', node_of_struct(I, st, fr, msg), n)
    else:
        v = 0
        n = T('jsonjunk', text)
    I.hooks.on_store(st, fr, msg.args[0], msg.args[1], n)
    st.put(msg.args[0], msg.args[1], n)
    st.put(res.args[0], res.args[1], v)
    return None


@model('pb::util::status_internal::Status::ok')
def m_psok(I, st, fr, i, fn, a):
    p = need(st, a[0])
    v = st.get(p.args[0], p.args[1])
    return v if v is not None else st.fresh('unk', I.fsite(fr), (0, 1))


@model('pb::util::status_internal::Status::~Status')
def m_psd(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    if is_ptr(p):
        st.pop(p.args[0], p.args[1])


@model('pb::util::status_internal::Status::Status', 'pb::util::status_internal::Status::operator=')
def m_psc(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    v = 1
    if len(a) > 1 and 'Status' in fn.ptext[:60]:
        q = st.norm(a[1])
        v = st.get(q.args[0], q.args[1]) if is_ptr(q) else None
    st.put(p.args[0], p.args[1], v if v is not None else st.fresh('unk', I.fsite(fr), (0, 1)))
    return a[0]


@model('pb::Struct::fields')
def m_fields(I, st, fr, i, fn, a):
    return ptr(T('fields', node_of_struct(I, st, fr, a[0])), 0)


def mapnode(st, p):
    p = need(st, p, 'Map')
    if p is None or p.args[0].op != 'fields':
        return None
    return st.norm(p.args[0].args[0])


def has(I, st, n, key):
    if n.op == 'emptystruct':
        return 0
    return T('has', n, key)


@model('pb::Map::find', 'pb::Map::contains', 'pb::Map::count', 'pb::Map::at')
def m_mfind(I, st, fr, i, fn, a):
    off = 1 if fn.sret is not None else 0
    n = mapnode(st, a[off])
    if n is None:
        I.hooks.on_imprecise(st, fr, i, 'protobuf map')
        return st.fresh('unk', I.fsite(fr), 's64')
    pt = fn.ptext
    key = S(I, st, fr, a[off + 1])
    key = st.norm(key)
    t = st.must(has(I, st, n, key))
    m = fn.short[9:]
    if m in ('contains', 'count'):
        return int(t)
    if m == 'at':
        if not t:
            raise Abort('assert', 'Map::at of a missing key')
        return ptr(T('pair', n, key), 32)
    p = ptr(T('entry', n, key), 0) if t else ptr(T('ents', n), mcount(n))
    res = st.norm(a[0])
    st.put(res.args[0], res.args[1], p)
    st.put(res.args[0], add(res.args[1], 8), NULL)
    st.put(res.args[0], add(res.args[1], 16), 0)
    return None


def mcount(n):
    return 0 if n.op == 'emptystruct' else T('count', T('fields', n), 0)


@model('pb::Map::begin', 'pb::Map::end', 'pb::Map::cbegin', 'pb::Map::cend')
def m_mbegin(I, st, fr, i, fn, a):
    n = mapnode(st, a[1])
    if n is None:
        I.hooks.on_imprecise(st, fr, i, 'protobuf map')
        return None
    if 'begin' in fn.short:
        p = ptr(T('ents', n), 0)
    else:
        p = ptr(T('ents', n), mcount(n))
    res = st.norm(a[0])
    st.put(res.args[0], res.args[1], p)
    st.put(res.args[0], add(res.args[1], 8), NULL)
    st.put(res.args[0], add(res.args[1], 16), 0)
    return None


@model('pb::Map::size')
def m_msize(I, st, fr, i, fn, a):
    n = mapnode(st, a[0])
    return mcount(n) if n is not None else st.fresh('unk', I.fsite(fr), 'u64')


@model('pb::Map::empty')
def m_mempty(I, st, fr, i, fn, a):
    n = mapnode(st, a[0])
    return eq0(mcount(n)) if n is not None else st.fresh('unk', I.fsite(fr), (0, 1))


def noteci(fr, i, x, y):
    """The comparison may decide how often a loop runs."""
    if i.d is not None:
        fr.ci[i.d] = ('icmp', 'eq', x, y)


def itval(I, st, fr, p):
    p = need(st, p)
    v = st.get(p.args[0], p.args[1])
    return st.norm(v) if v is not None else UNDEF


def pairof(I, st, fr, v):
    if is_ptr(v) and v.args[0].op == 'entry':
        return T('pair', v.args[0].args[0], v.args[0].args[1])
    if is_ptr(v) and v.args[0].op == 'ents':
        n = v.args[0].args[0]
        k = v.args[1]
        if not st.must(lt(k, mcount(n))):
            raise Abort('null', 'dereference of Map::end()')
        I.hooks.on_mapelem(st, fr, n, k)
        return T('pair', n, T('entkey', n, k))
    return None


@model('pb::Map::const_iterator::operator*', 'pb::Map::const_iterator::operator->', 'pb::Map::iterator::operator*',
       'pb::Map::iterator::operator->')
def m_mideref(I, st, fr, i, fn, a):
    v = itval(I, st, fr, a[0])
    o = pairof(I, st, fr, v)
    if o is None:
        I.hooks.on_imprecise(st, fr, i, 'protobuf map iterator')
        return ptr(st.fresh('unk', I.fsite(fr), 'ptr'), 0)
    return ptr(o, 0)


@model('pb::Map::const_iterator::operator++', 'pb::Map::iterator::operator++')
def m_miinc(I, st, fr, i, fn, a):
    v = itval(I, st, fr, a[0])
    p = st.norm(a[0])
    if is_ptr(v) and v.args[0].op == 'ents':
        st.put(p.args[0], p.args[1], ptr(v.args[0], add(v.args[1], 1)))
    else:
        I.hooks.on_imprecise(st, fr, i, 'protobuf map iterator')
        st.put(p.args[0], p.args[1], ptr(st.fresh('unk', I.fsite(fr), 'ptr'), 0))
    return a[0]


@model('pb::operator==', 'pb::operator!=')
def m_mieq(I, st, fr, i, fn, a):
    x, y = itval(I, st, fr, a[0]), itval(I, st, fr, a[1])
    neg = fn.short.endswith('!=')

    def pos(v):
        return is_ptr(v) and v.args[0].op in ('ents', 'entry')
    if pos(x) and pos(y):
        if x is y:
            r = 1
        elif x.args[0].op != y.args[0].op:
            # a found entry against a position: different unless the position
            # is that of the entry, which only end() tells
            e = x if x.args[0].op == 'ents' else y
            r = 0 if e.args[1] is mcount(e.args[0].args[0]) or e.args[1] == 0 and mcount(e.args[0].args[0]) == 0 \
                else T('pred', 'itereq', x, y)
        elif x.args[0] is y.args[0]:
            r = eq(x.args[1], y.args[1])
        else:
            r = T('pred', 'itereq', x, y)
    else:
        r = I.peq(st, x, y)
    noteci(fr, i, x, y)
    return bnot(r) if neg else r


def valnode(I, st, fr, p):
    """The Value node at p."""
    p = need(st, p, 'Value')
    if p is None:
        return None
    o, off = p.args
    if o.op == 'pair' and off == 32:
        return st.norm(T('mapval', o.args[0], o.args[1]))
    if o.op == 'valof':
        return st.norm(o.args[0])
    if o.op in ('obj', 'deref', 'phi', 'ret'):
        return T('valat', o, off)
    return None


@model('pb::Value::kind_case')
def m_kind(I, st, fr, i, fn, a):
    n = valnode(I, st, fr, a[0])
    if n is None:
        return st.fresh('unk', I.fsite(fr), (0, 6))
    return st.norm(T('kind', n))


@model('pb::Value::has_null_value', 'pb::Value::has_number_value', 'pb::Value::has_string_value', 'pb::Value::has_bool_value',
       'pb::Value::has_struct_value', 'pb::Value::has_list_value')
def m_haskind(I, st, fr, i, fn, a):
    n = valnode(I, st, fr, a[0])
    k = ['', 'has_null_value', 'has_number_value', 'has_string_value', 'has_bool_value', 'has_struct_value',
         'has_list_value'].index(fn.short[11:])
    if n is None:
        return st.fresh('unk', I.fsite(fr), (0, 1))
    return eq(st.norm(T('kind', n)), k)


def kindis(st, n, k):
    return bool(st.must(eq(st.norm(T('kind', n)), k)))


@model('pb::Value::string_value')
def m_vstr(I, st, fr, i, fn, a):
    n = valnode(I, st, fr, a[0])
    if n is None:
        I.hooks.on_imprecise(st, fr, i, 'Value')
        return ptr(st.fresh('unk', I.fsite(fr), 'ptr'), 0)
    if not kindis(st, n, 3):
        # the default instance: an empty string
        o = T('strof', T('dflt', n))
        st.put(o, 0, '')
        return ptr(o, 0)
    return ptr(T('strof', n), 0)


@model('pb::Value::number_value')
def m_vnum(I, st, fr, i, fn, a):
    n = valnode(I, st, fr, a[0])
    if n is None:
        return st.fresh('unk', I.fsite(fr), 'double')
    if not kindis(st, n, 2):
        return 0.0
    return T('num', n)


@model('pb::Value::bool_value')
def m_vbool(I, st, fr, i, fn, a):
    n = valnode(I, st, fr, a[0])
    if n is None:
        return st.fresh('unk', I.fsite(fr), (0, 1))
    if not kindis(st, n, 4):
        return 0
    return T('pred', 'boolval', n)


@model('pb::Value::struct_value')
def m_vstruct(I, st, fr, i, fn, a):
    n = valnode(I, st, fr, a[0])
    if n is None:
        I.hooks.on_imprecise(st, fr, i, 'Value')
        return ptr(st.fresh('unk', I.fsite(fr), 'ptr'), 0)
    if not kindis(st, n, 5):
        o = T('structof', T('dflt', n))
        st.put(o, 0, T('emptystruct'))
        return ptr(o, 0)
    return ptr(T('structof', n), 0)


@model('pb::Value::list_value')
def m_vlist(I, st, fr, i, fn, a):
    n = valnode(I, st, fr, a[0])
    if n is None:
        I.hooks.on_imprecise(st, fr, i, 'Value')
        return ptr(st.fresh('unk', I.fsite(fr), 'ptr'), 0)
    if not kindis(st, n, 6):
        return ptr(T('listof', T('emptylist')), 0)
    return ptr(T('listof', n), 0)


@model('pb::ListValue::values')
def m_lvals(I, st, fr, i, fn, a):
    if len(a) == 2:
        return m_lat(I, st, fr, i, fn, a)
    p = need(st, a[0])
    if p.args[0].op == 'listof':
        return ptr(T('rptr', p.args[0].args[0]), 0)
    return ptr(T('rptr', T('unklist', p)), 0)


def lcount(l):
    return 0 if l.op == 'emptylist' else T('count', T('rptr', l), 0)


@model('pb::ListValue::values_size')
def m_lsize(I, st, fr, i, fn, a):
    p = need(st, a[0])
    return lcount(p.args[0].args[0]) if p.args[0].op == 'listof' else st.fresh('unk', I.fsite(fr), (0, 1 << 31))


@model('pb::RepeatedPtrField::begin', 'pb::RepeatedPtrField::end', 'pb::RepeatedPtrField::cbegin', 'pb::RepeatedPtrField::cend',
       'pb::RepeatedPtrField::size', 'pb::RepeatedPtrField::empty', 'pb::RepeatedPtrField::Get', 'pb::RepeatedPtrField::operator[]',
       'pb::RepeatedPtrField::at')
def m_lbegin(I, st, fr, i, fn, a):
    p = need(st, a[0])
    if p.args[0].op != 'rptr':
        I.hooks.on_imprecise(st, fr, i, 'RepeatedPtrField')
        return st.fresh('unk', I.fsite(fr), 's64') if i.t != 'ptr' else ptr(st.fresh('unk', I.fsite(fr), 'ptr'), 0)
    l = p.args[0].args[0]
    m = fn.short.split('::')[-1]
    if m in ('begin', 'cbegin'):
        return ptr(T('items', l), 0)
    if m in ('end', 'cend'):
        return ptr(T('items', l), scale(lcount(l), 8))
    if m == 'size':
        return lcount(l)
    if m == 'empty':
        return eq0(lcount(l))
    k = I.sview(st, st.norm(a[1]), 32)
    I.hooks.on_index(st, fr, k, lcount(l), 'list index')
    return ptr(T('valof', T('listval', l, k)), 0)


def m_lat(I, st, fr, i, fn, a):
    p = need(st, a[0])
    l = p.args[0].args[0]
    k = I.sview(st, st.norm(a[1]), 32)
    I.hooks.on_index(st, fr, k, lcount(l), 'list index')
    return ptr(T('valof', T('listval', l, k)), 0)


@model('pb::internal::RepeatedPtrIterator::operator*', 'pb::internal::RepeatedPtrIterator::operator->')
def m_liderf(I, st, fr, i, fn, a):
    v = itval(I, st, fr, a[0])
    if is_ptr(v) and v.args[0].op == 'items':
        k = I.exact(v.args[1], 8)
        l = v.args[0].args[0]
        I.hooks.on_index(st, fr, k, lcount(l), 'list iterator')
        return ptr(T('valof', T('listval', l, k)), 0)
    I.hooks.on_imprecise(st, fr, i, 'list iterator')
    return ptr(st.fresh('unk', I.fsite(fr), 'ptr'), 0)


@model('pb::internal::RepeatedPtrIterator::operator++')
def m_liinc(I, st, fr, i, fn, a):
    v = itval(I, st, fr, a[0])
    p = st.norm(a[0])
    if is_ptr(v):
        st.put(p.args[0], p.args[1], ptr(v.args[0], add(v.args[1], 8)))
    if len(a) > 1:
        return v
    return a[0]


@model('pb::internal::operator!=', 'pb::internal::operator==')
def m_lineq(I, st, fr, i, fn, a):
    x, y = itval(I, st, fr, a[0]), itval(I, st, fr, a[1])
    r = I.peq(st, x, y)
    noteci(fr, i, x, y)
    return bnot(r) if fn.short.endswith('!=') else r


# ------------------------------------------------------------------ runtime
@model('__assert_fail')
def m_assert(I, st, fr, i, fn, a):
    raise Abort('assert', cstr(I, st, fr, a[0]))


@model('abort', '_exit', 'exit', '__cxa_pure_virtual')
def m_abort(I, st, fr, i, fn, a):
    raise Abort('abort', fn.short)


@model('std::terminate', '__clang_call_terminate', '__cxa_throw', '__cxa_rethrow', '_Unwind_Resume', '__cxa_bad_cast',
       rx=r'std::__throw_\w+')
def m_throw(I, st, fr, i, fn, a):
    raise Abort('throw', fn.short)


@model('std::__glibcxx_assert_fail')
def m_gassert(I, st, fr, i, fn, a):
    raise Abort('assert', fn.short)


@model('__cxa_atexit', '__cxa_guard_abort', 'atexit')
def m_atexit(I, st, fr, i, fn, a):
    return 0


@model('__cxa_guard_release')
def m_guardrel(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    if not is_ptr(p):
        return 0
    g = p.args[0]
    op = tuple(x for x in st.ghost.get('gopen', ()) if x is not g)
    if op:
        st.ghost['gopen'] = op
    else:
        st.ghost.pop('gopen', None)
    # what the first call stored is what every later call finds
    if g.op == 'g' and g.args[0].startswith('_ZGV'):
        o = T('g', '_Z' + g.args[0][4:])
        for k, v in list(st.mem.get(o, {}).items()):
            v = st.norm(v) if isinstance(v, Term) else v
            if not isinstance(v, Term) or not any(input_term(x) for x in v.subs):
                continue
            I.hooks.on_static(st, fr, o, k, v)
            if I.isstr(v):
                st.put(o, k, T('init', o, k, 'str'))
            elif is_bool(v):
                st.put(o, k, T('irange', 'stale', o, k, 0, 1))
            elif not is_ptr(v) and v.op != 'null':
                lo, hi = bounds(v)
                st.put(o, k, T('irange', 'stale', o, k, lo, hi))
    return 0


def input_term(x):
    if x.op in ('init', 'count', 'deref'):
        return not (isinstance(x.args[0], Term) and x.args[0].op == 'g')
    return x.op in ('irange', 'ret', 'pred') and x.args[0] != 'stale'


@model('__cxa_guard_acquire')
def m_guard(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    if is_ptr(p):
        if st.ghost.get(('guard', p.args[0])):
            return 0
        st.ghost[('guard', p.args[0])] = 1
        st.ghost['gopen'] = st.ghost.get('gopen', ()) + (p.args[0],)
    return 1


@model('std::ostream::operator<<', rx=r'std::operator<<|std::basic_ostream::.*|std::ostream::.*|std::endl|std::ios_base::.*|std::basic_ios::.*|std::flush')
def m_ostream(I, st, fr, i, fn, a):
    return a[0] if a else None


# ------------------------------------------------------------------ BoringSSL
def alloc(I, st, fr, i, kind, *extra):
    """An allocation that yields an owned reference or NULL."""
    if I.hooks.alloc_fail and not st.must(T('pred', 'alloc', heapname(st, fr, i, kind))):
        I.hooks.on_crypto(st, fr, i, 'internal', (kind + '_new',))
        return NULL
    o = newheap(I, st, fr, i, kind)
    I.hooks.on_acquire(st, fr, i, o, kind)
    return ptr(o, 0)


def cr(st, p, what):
    p = st.norm(p)
    if p is NULL or (not is_ptr(p)):
        raise Abort('null', what)
    n = mk_isnull(p)
    if not isinstance(n, int) and st.must(n):
        raise Abort('null', what)
    return p.args[0]


@model('EVP_sha1', 'EVP_sha224', 'EVP_sha256', 'EVP_sha384', 'EVP_sha512', 'EVP_md5', 'EVP_sha512_256', 'EVP_md4', 'EVP_blake2b256')
def c_md(I, st, fr, i, fn, a):
    return ptr(T('md', fn.short[4:]), 0)


MDLEN = {'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64, 'md5': 16, 'md4': 16, 'sha512_256': 32, 'blake2b256': 32}


def mdterm(st, p):
    p = st.norm(p)
    return p.args[0] if is_ptr(p) else p


def mdlen(st, md):
    if isinstance(md, Term) and md.op == 'md':
        return MDLEN.get(md.args[0], T('irange', 'mdlen', md, 0, 64))
    return T('irange', 'mdlen', md, 0, 64)


@model('EVP_MD_size')
def c_mdsize(I, st, fr, i, fn, a):
    return mdlen(st, mdterm(st, a[0]))


@model(rx=r'(EVP_PKEY|EVP_MD_CTX|ECDSA_SIG|RSA|BN|BIO|X509|EC_KEY|HMAC_CTX|BN_CTX)_(new|create)')
def c_new(I, st, fr, i, fn, a):
    kind = fn.short.rsplit('_', 1)[0]
    r = alloc(I, st, fr, i, kind)
    if r is not NULL and kind == 'ECDSA_SIG':
        o = r.args[0]
        st.put(o, 0, ptr(T('bnfield', o, 'r'), 0))
        st.put(o, 8, ptr(T('bnfield', o, 's'), 0))
    return r


@model('BIO_new_mem_buf')
def c_biomem(I, st, fr, i, fn, a):
    n = st.norm(a[1])
    v = chars(I, st, fr, a[0], I.sview(st, n, 32), 'BIO_new_mem_buf')
    r = alloc(I, st, fr, i, 'BIO')
    if r is not NULL:
        st.put(r.args[0], 0, v)
    return r


@model('BIO_s_mem')
def c_biosmem(I, st, fr, i, fn, a):
    return ptr(T('md', 'bio_s_mem'), 0)


@model('BIO_write', 'BIO_puts')
def c_biowrite(I, st, fr, i, fn, a):
    o = cr(st, a[0], 'BIO_write')
    if fn.short == 'BIO_puts':
        v = cstr(I, st, fr, a[1])
        n = mk_size(v)
    else:
        n = st.norm(a[2])
        n = I.sview(st, n, 32)
        if not st.must(ge0(sub(n, 1))):
            return T('irange', 'bwr0', n if isinstance(n, Term) else 0, -2, 0)
        v = chars(I, st, fr, a[1], n, 'BIO_write')
    if I.hooks.copy_fail and not st.must(T('pred', 'ok', 'BIO_write', o, v)):
        return -1
    old = st.get(o, 0)
    st.put(o, 0, v if old is None else mk_concat(st.norm(old), v))
    return n


def parsed(I, st, fr, i, what, kind, src):
    c = T('pred', 'ok', what, src)
    if not st.must(c):
        return NULL
    o = T('crypto', kind, what, src)
    I.hooks.on_acquire(st, fr, i, o, kind)
    return ptr(o, 0)


@model('PEM_read_bio_PUBKEY', 'PEM_read_bio_X509')
def c_pem(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    v = st.get(o, 0)
    v = st.norm(v) if v is not None else T('init', o, 0, 'str')
    return parsed(I, st, fr, i, fn.short, 'EVP_PKEY' if 'PUBKEY' in fn.short else 'X509', v)


@model('X509_get_pubkey', 'X509_get0_pubkey')
def c_x509pk(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    c = T('pred', 'ok', 'X509_get_pubkey', o)
    if not st.must(c):
        return NULL
    k = T('crypto', 'EVP_PKEY', 'X509_get_pubkey', o)
    if 'get0' not in fn.short:
        I.hooks.on_acquire(st, fr, i, k, 'EVP_PKEY')
    return ptr(k, 0)


@model('EVP_PKEY_id', 'EVP_PKEY_base_id')
def c_pkid(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    return st.norm(T('irange', 'pkeyid', o, 0, 1 << 20))


NIDS = {6: 'RSA', 408: 'EC_KEY', 949: 'ED25519'}


@model('EVP_PKEY_get1_RSA', 'EVP_PKEY_get1_EC_KEY', 'EVP_PKEY_get0_RSA', 'EVP_PKEY_get0_EC_KEY')
def c_pkget(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    kind = 'RSA' if 'RSA' in fn.short else 'EC_KEY'
    t = 6 if kind == 'RSA' else 408
    if not st.must(eq(st.norm(T('irange', 'pkeyid', o, 0, 1 << 20)), t)):
        I.hooks.on_crypto(st, fr, i, fn.short, (None,))
        return NULL
    k = T('crypto', kind, 'pkey', o)
    if 'get1' in fn.short:
        I.hooks.on_acquire(st, fr, i, k, kind)
    return ptr(k, 0)


@model('EVP_PKEY_get_raw_public_key')
def c_pkraw(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    lp = need(st, a[2])
    room = I.load(st, lp, 'i64', fr)
    c = T('pred', 'ok', 'raw_public_key', o)
    if not st.must(c):
        return 0
    if st.norm(a[1]) is NULL:
        I.store(st, lp, 32, 'i64', fr)
        return 1
    if st.must(lt(I.uview(st, room, 64), 32)):
        return 0
    if is_ptr(st.norm(a[1])) and st.norm(a[1]).args[0].op == 'buf':
        setbytes(I, st, fr, a[1], T('bytesv', 'rawpub', o), 32, 'EVP_PKEY_get_raw_public_key')
        I.store(st, lp, 32, 'i64', fr)
        return 1
    setbytes(I, st, fr, a[1], T('rawpub', o), room, 'EVP_PKEY_get_raw_public_key')
    b = T('bufbytes', st.norm(a[1]).args[0])
    st.put(b, 0, (st.norm(a[1]).args[1], T('bytesv', 'rawpub', o), 32))
    I.store(st, lp, 32, 'i64', fr)
    return 1


@model('EVP_PKEY_set1_RSA', 'EVP_PKEY_set1_EC_KEY', 'EVP_PKEY_assign_RSA', 'EVP_PKEY_assign_EC_KEY')
def c_pkset(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    k = st.norm(a[1])
    if k is NULL or st.decide(mk_isnull(k)):
        return 0
    n = mk_isnull(k)
    if not isinstance(n, int) and st.must(n):
        return 0
    if not step_ok(I, st, fr, i, fn.short, o):
        return 0
    st.put(o, 0, k)
    if 'assign' in fn.short:
        I.hooks.on_transfer(st, fr, i, k.args[0], o)
    return 1


@model('BN_bin2bn')
def c_bin2bn(I, st, fr, i, fn, a):
    n = st.norm(a[1])
    v = chars(I, st, fr, a[0], n, 'BN_bin2bn')
    r = st.norm(a[2])
    if r is NULL:
        p = alloc(I, st, fr, i, 'BIGNUM')
        if p is not NULL:
            st.put(p.args[0], 0, v)
        return p
    o = cr(st, r, 'BN_bin2bn')
    c = T('pred', 'ok', 'BN_bin2bn', o, v)
    if not st.must(c):
        I.hooks.on_crypto(st, fr, i, 'internal', ('BN_bin2bn',))
        return NULL
    st.put(o, 0, v)
    return r


def bnval(I, st, fr, o):
    v = st.get(o, 0)
    return st.norm(v) if v is not None else T('init', o, 0, 'str')


@model('BN_cmp_word', 'BN_is_word')
def c_cmpword(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    w = st.norm(a[1])
    c = T('pred', 'bnword', bnval(I, st, fr, o), w)
    if not isinstance(w, int):
        return c
    for k, v in st.atoms.items():
        if v and k.op == 'pred' and k.args[0] == 'bnword' and k.args[1] is c.args[1] and k.args[2] != w:
            c = 0
            break
    if fn.short == 'BN_is_word':
        return c
    # exactly 0 when equal
    if not isinstance(c, int) and st.must(c):
        return 0
    r = T('irange', 'bncmp', c.args[1] if isinstance(c, Term) else bnval(I, st, fr, o), w, -1, 1)
    st.assume(eq(r, 0), False)
    return r


@model('BN_is_zero', 'BN_is_one', 'BN_is_odd', 'BN_is_negative', 'BN_num_bits', 'BN_num_bytes')
def c_bnfact(I, st, fr, i, fn, a):
    v = bnval(I, st, fr, cr(st, a[0], fn.short))
    if fn.short == 'BN_is_negative':
        return 0
    if fn.short in ('BN_is_zero', 'BN_is_one'):
        w = int(fn.short == 'BN_is_one')
        for k, x in st.atoms.items():
            if x and k.op == 'pred' and k.args[0] == 'bnword' and k.args[1] is v and k.args[2] != w:
                return 0
        return T('pred', 'bnword', v, w)
    if fn.short == 'BN_is_odd':
        return T('pred', 'bnodd', v)
    return T('irange', fn.short, v, 0, 1 << 31)


@model('EC_KEY_new_by_curve_name')
def c_eckey(I, st, fr, i, fn, a):
    nid = st.norm(a[0])
    r = alloc(I, st, fr, i, 'EC_KEY')
    if r is not NULL:
        st.put(r.args[0], 0, nid)
    return r


@model('EC_KEY_set_public_key_affine_coordinates')
def c_ecset(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    x = bnval(I, st, fr, cr(st, a[1], fn.short))
    y = bnval(I, st, fr, cr(st, a[2], fn.short))
    nid = st.get(o, 0)
    c = T('pred', 'ok', 'ecpoint', nid if nid is not None else o, x, y)
    if not st.must(c):
        return 0
    st.put(o, 8, x)
    st.put(o, 16, y)
    return 1


@model('EC_KEY_get0_group')
def c_ecgroup(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    return ptr(T('ecgroup', o), 0)


@model('EC_GROUP_get_curve_name')
def c_ecname(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    return st.norm(T('irange', 'curve', o, 0, 1 << 20))


DEG = {415: 256, 715: 384, 716: 521, 713: 224}


@model('EC_GROUP_get_degree', 'EC_GROUP_order_bits')
def c_ecdeg(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    c = st.norm(T('irange', 'curve', o, 0, 1 << 20))
    if isinstance(c, int):
        return DEG.get(c, T('irange', 'degree', o, 1, 10000))
    for n, d in DEG.items():
        if st.must(eq(c, n)):
            return d
    return T('irange', 'degree', o, 1, 10000)


@model('ECDSA_size')
def c_ecdsasize(I, st, fr, i, fn, a):
    return T('irange', 'ecdsasize', cr(st, a[0], fn.short), 0, 10000)


@model('RSA_set0_key')
def c_rsaset0(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    n, e, d = st.norm(a[1]), st.norm(a[2]), st.norm(a[3])
    if n is NULL or e is NULL:
        return 0
    if I.hooks.copy_fail and not st.must(T('pred', 'ok', 'RSA_set0_key', o)):
        return 0
    st.put(o, 0, bnval(I, st, fr, n.args[0]))
    st.put(o, 8, bnval(I, st, fr, e.args[0]))
    I.hooks.on_transfer(st, fr, i, n.args[0], o)
    I.hooks.on_transfer(st, fr, i, e.args[0], o)
    return 1


@model('RSA_new_public_key')
def c_rsanewpub(I, st, fr, i, fn, a):
    n = bnval(I, st, fr, cr(st, a[0], fn.short))
    e = bnval(I, st, fr, cr(st, a[1], fn.short))
    c = T('pred', 'ok', 'rsacheck', n, e)
    if not st.must(c):
        return NULL
    r = alloc(I, st, fr, i, 'RSA')
    if r is not NULL:
        st.put(r.args[0], 0, n)
        st.put(r.args[0], 8, e)
    return r


@model('RSA_get0_n', 'RSA_get0_e')
def c_rsapart(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    p = T('keypart', fn.short, o)
    v = st.get(o, 0 if fn.short.endswith('n') else 8)
    if v is not None and st.get(p, 0) is None:
        st.put(p, 0, st.norm(v))
    return ptr(p, 0)


@model('RSA_size', 'RSA_bits')
def c_rsasize(I, st, fr, i, fn, a):
    v = bnval(I, st, fr, c_rsapart_n(I, st, fr, a[0], fn))
    return T('irange', 'BN_num_bytes' if fn.short == 'RSA_size' else 'BN_num_bits', v, 0, 1 << 31)


def c_rsapart_n(I, st, fr, p, fn):
    o = cr(st, p, fn.short)
    q = T('keypart', 'RSA_get0_n', o)
    v = st.get(o, 0)
    if v is not None and st.get(q, 0) is None:
        st.put(q, 0, st.norm(v))
    return q


@model('BN_cmp', 'BN_ucmp')
def c_bncmp(I, st, fr, i, fn, a):
    v, w = bnval(I, st, fr, cr(st, a[0], fn.short)), bnval(I, st, fr, cr(st, a[1], fn.short))
    return 0 if v is w else T('irange', 'BN_cmp', v, w, -1, 1)


@model('EVP_PKEY_bits', 'EVP_PKEY_size', 'X509_get_version', 'X509_get_ext_count', 'X509_cmp_current_time')
def c_attr(I, st, fr, i, fn, a):
    """A number the object has; it can be any."""
    o = cr(st, a[0], fn.short)
    lo, hi = {'X509_get_version': (0, 2), 'X509_cmp_current_time': (-1, 1)}.get(fn.short, (0, 1 << 20))
    return T('irange', fn.short, o, lo, hi)


@model('X509_get0_notAfter', 'X509_get0_notBefore', 'X509_getm_notAfter', 'X509_getm_notBefore')
def c_x509time(I, st, fr, i, fn, a):
    return ptr(T('keypart', fn.short, cr(st, a[0], fn.short)), 0)


@model('OPENSSL_cleanse')
def c_cleanse(I, st, fr, i, fn, a):
    n = st.norm(a[1])
    if isinstance(n, int) and n == 0:
        return None
    z = '\0' * n if isinstance(n, int) and n <= 4096 else st.fresh('unkstr', (fr.ctx, fr.inst.id), 'str')
    setbytes(I, st, fr, a[0], z, n, fn.short)
    return None


@model('RSA_check_key')
def c_rsacheck(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    n, e = st.get(o, 0), st.get(o, 8)
    if n is None:
        return int(st.must(T('pred', 'ok', 'rsacheck', o)))
    return int(st.must(T('pred', 'ok', 'rsacheck', st.norm(n), st.norm(e))))


def step_ok(I, st, fr, i, what, *args):
    """An internal step of a primitive that can fail (allocation and the like)."""
    c = T('pred', 'ok', what, *args)
    r = st.must(c)
    if not r:
        I.hooks.on_crypto(st, fr, i, 'internal', (what,))
    return int(r)


@model('EVP_DigestVerifyInit')
def c_dvi(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    md = mdterm(st, a[2])
    pk = cr(st, a[4], fn.short)
    if not step_ok(I, st, fr, i, 'EVP_DigestVerifyInit', o, md if isinstance(md, Term) else T('nomd'), pk):
        return 0
    st.put(o, 0, a[2])
    st.put(o, 8, ptr(pk, 0))
    st.put(o, 16, '')
    st.put(o, 24, 1)      # padding: RSA_PKCS1_PADDING
    st.put(o, 32, NULL)   # mgf1
    q = st.norm(a[1])
    if is_ptr(q):
        I.store(st, q, ptr(T('pctx', o), 0), 'ptr', fr)
    return 1


@model('EVP_PKEY_CTX_set_rsa_padding')
def c_pad(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    if o.op != 'pctx':
        return step_ok(I, st, fr, i, fn.short, o)
    if not step_ok(I, st, fr, i, fn.short, o, st.norm(a[1])):
        return 0
    st.put(o.args[0], 24, st.norm(a[1]))
    return 1


@model('EVP_PKEY_CTX_set_rsa_mgf1_md', 'EVP_PKEY_CTX_set_rsa_pss_saltlen')
def c_mgf(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    v = st.norm(a[1])
    if o.op != 'pctx':
        return step_ok(I, st, fr, i, fn.short, o)
    if not step_ok(I, st, fr, i, fn.short, o, v):
        return 0
    st.put(o.args[0], 32 if 'mgf1' in fn.short else 40, v)
    return 1


@model('EVP_DigestVerifyUpdate')
def c_dvu(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    d = chars(I, st, fr, a[1], st.norm(a[2]), fn.short)
    if st.get(o, 16) is not None:
        st.put(o, 16, mk_concat(st.norm(st.get(o, 16)), d))
    return 1


def verify(I, st, fr, i, kind, key, md, params, sig, data):
    """The outcome of a signature primitive."""
    c = T('pred', 'VERIFY', kind, key, md, params, sig, data)
    I.hooks.on_verify(st, fr, i, c)
    r = int(st.must(c))
    I.hooks.on_verified(st, fr, i, c, r)
    return r


@model('EVP_DigestVerifyFinal', 'EVP_DigestVerify')
def c_dvf(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    sig = chars(I, st, fr, a[1], st.norm(a[2]), fn.short)
    md = st.norm(st.get(o, 0)) if st.get(o, 0) is not None else None
    pk = st.get(o, 8)
    if pk is None:
        return step_ok(I, st, fr, i, fn.short, o)
    data = st.norm(st.get(o, 16))
    if fn.short == 'EVP_DigestVerify':
        data = mk_concat(data, chars(I, st, fr, a[3], st.norm(a[4]), fn.short))
    pad = st.norm(st.get(o, 24))
    mgf = st.norm(st.get(o, 32))
    salt = st.get(o, 40)
    key = st.get(st.norm(pk).args[0], 0)
    key = st.norm(key) if key is not None else pk
    mdv = mdterm(st, md)
    mg = mdv if mgf is NULL else mdterm(st, mgf)
    if pad == 1:
        kind, params = 'rsa-pkcs1', ()
    elif pad == 6:
        kind, params = 'rsa-pss', (mg,) + ((salt,) if salt is not None else ())
    else:
        kind, params = 'rsa-pad', (pad,)
    return verify(I, st, fr, i, kind, key, mdv, params, sig, data)


@model('EVP_DigestInit', 'EVP_DigestInit_ex')
def c_di(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    if not step_ok(I, st, fr, i, fn.short, o, mdterm(st, a[1])):
        return 0
    st.put(o, 0, a[1])
    st.put(o, 16, '')
    return 1


@model('EVP_DigestUpdate')
def c_du(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    d = chars(I, st, fr, a[1], st.norm(a[2]), fn.short)
    if not step_ok(I, st, fr, i, fn.short, o, d if isinstance(d, (str, Term)) else 0):
        return 0
    if st.get(o, 16) is not None:
        st.put(o, 16, mk_concat(st.norm(st.get(o, 16)), d))
    return 1


@model('EVP_DigestFinal', 'EVP_DigestFinal_ex')
def c_df(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    if not step_ok(I, st, fr, i, fn.short, o):
        return 0
    md = mdterm(st, st.norm(st.get(o, 0))) if st.get(o, 0) is not None else T('nomd')
    data = st.norm(st.get(o, 16)) if st.get(o, 16) is not None else T('nodata')
    n = mdlen(st, md)
    setbytes(I, st, fr, a[1], T('digest', md, data, n), n, fn.short)
    lp = st.norm(a[2])
    if is_ptr(lp):
        I.store(st, lp, n, 'i32', fr)
    return 1


@model('EVP_Digest', 'SHA256', 'SHA384', 'SHA512')
def c_digest(I, st, fr, i, fn, a):
    d = chars(I, st, fr, a[0], st.norm(a[1]), fn.short)
    if fn.short == 'EVP_Digest':
        md = mdterm(st, a[4])
        out, lp = a[2], st.norm(a[3])
        if not step_ok(I, st, fr, i, fn.short, md, d):
            return 0
    else:
        md, out, lp = T('md', fn.short.lower()), a[2], NULL
    n = mdlen(st, md)
    setbytes(I, st, fr, out, T('digest', md, d, n), n, fn.short)
    if is_ptr(lp):
        I.store(st, lp, n, 'i32', fr)
    return 1 if fn.short == 'EVP_Digest' else out


@model('ECDSA_do_verify')
def c_ecdsa(I, st, fr, i, fn, a):
    dg = chars(I, st, fr, a[0], st.norm(a[1]), fn.short)
    so = cr(st, a[2], fn.short)
    key = cr(st, a[3], fn.short)
    r = st.get(T('bnfield', so, 'r'), 0)
    s = st.get(T('bnfield', so, 's'), 0)
    r = st.norm(r) if r is not None else T('nosig')
    s = st.norm(s) if s is not None else T('nosig')
    return verify(I, st, fr, i, 'ecdsa', ptr(key, 0), T('nomd'), (), T('rs', r, s), dg)


@model('ED25519_verify')
def c_ed(I, st, fr, i, fn, a):
    data = chars(I, st, fr, a[0], st.norm(a[1]), fn.short)
    sig = chars(I, st, fr, a[2], 64, fn.short)
    key = chars(I, st, fr, a[3], 32, fn.short)
    return verify(I, st, fr, i, 'ed25519', key, T('nomd'), (), sig, data)


@model('HMAC')
def c_hmac(I, st, fr, i, fn, a):
    md = mdterm(st, a[0])
    key = chars(I, st, fr, a[1], st.norm(a[2]), fn.short)
    data = chars(I, st, fr, a[3], st.norm(a[4]), fn.short)
    if not step_ok(I, st, fr, i, 'HMAC', md, key, data):
        return NULL
    n = mdlen(st, md)
    mac = T('digest', 'hmac', md, key, data, n)
    setbytes(I, st, fr, a[5], mac, n, fn.short)
    I.hooks.on_mac(st, fr, i, mac, st.norm(a[5]), n)
    lp = st.norm(a[6])
    if is_ptr(lp):
        I.store(st, lp, n, 'i32', fr)
    return a[5]


@model('ERR_clear_error')
def c_errclear(I, st, fr, i, fn, a):
    I.hooks.on_crypto(st, fr, i, 'ERR_clear_error', ())
    return None


@model('ERR_get_error', 'ERR_peek_error', 'ERR_peek_last_error')
def c_errget(I, st, fr, i, fn, a):
    return st.fresh('unk', I.fsite(fr), 'u32')


@model(rx=r'(EVP_PKEY|EVP_MD_CTX|ECDSA_SIG|RSA|BN|BIO|X509|EC_KEY|HMAC_CTX|BN_CTX|BIO_vfree|BN_clear)_(free|destroy)|BIO_vfree|BIO_free_all')
def c_free(I, st, fr, i, fn, a):
    p = st.norm(a[0])
    if p is NULL or not is_ptr(p):
        return 1
    I.hooks.on_release(st, fr, i, p.args[0], fn.short)
    if p.args[0].op == 'heap':
        st.drop(p.args[0])
    return 1


@model(rx=r'(EVP_PKEY|RSA|BIO|X509|EC_KEY)_up_ref')
def c_upref(I, st, fr, i, fn, a):
    o = cr(st, a[0], fn.short)
    I.hooks.on_acquire(st, fr, i, o, fn.short.rsplit('_', 2)[0])
    return 1
