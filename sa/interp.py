"""Path-sensitive, interprocedural abstract interpretation of the exported IR."""
from .term import *
from .term import T
from . import term as TM
from .state import State, Frame, Split
from .ir import Inconclusive, Intrinsic
import sys

sys.setrecursionlimit(20000)


class Prune(Exception):
    """The state is infeasible or out of scope."""


class Abort(Exception):
    def __init__(self, what, detail=''):
        self.what, self.detail = what, detail


class Act:
    """One activation of a loop: the header states found so far."""
    n = 0

    def __init__(self, key):
        Act.n += 1
        self.id = Act.n
        self.key = key
        self.groups = []
        self.rounds = 0


class Group:
    __slots__ = ('state', 'sig', 'ver', 'cands', 'tries')

    def __init__(self, state, sig):
        self.state, self.sig, self.ver = state, sig, 0
        self.cands = None
        self.tries = 0


def W(v, w):
    """Canonical integer of width w for an IR constant."""
    return v


class Interp:
    MAXSTATES = 200000

    def __init__(self, prog, models, hooks=None):
        self.prog = prog
        self.models = models
        self.hooks = hooks or Hooks()
        self.hooks.I = self
        self.ctxs = {}
        self.work = []
        self.results = []
        self.nstates = 0
        self.ninst = 0
        self.visited_fns = set()
        self.visited_sites = set()
        self.visited_lines = set()
        self.unknown = {}
        self.mcache = {}
        self.gdecl = {}
        self.loopjoins = 0
        self.dead_states = 0
        self.merged = set()
        self.nmerged = 0

    # ------------------------------------------------------------ contexts
    def ctx(self, parent, site, fn):
        k = (parent, site, fn)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
        return c

    # ------------------------------------------------------------ running
    def run(self, fn, args, st, sret=None):
        """Analyse fn called with the abstract arguments in state st; calls
        hooks.on_exit for every abstract exit state."""
        fr = Frame(fn, list(args), self.ctx(0, 0, fn.name))
        fr.blk, fr.idx, fr.prev = 0, 0, None
        fr.ci = {}
        st.stack = [fr]
        self.enter(st, fn)
        self.work.append(st)
        self.loop()
        return self.results

    def loop(self):
        while self.work:
            st = self.work.pop()
            try:
                self.steps(st)
            except Prune:
                self.dead_states += 1

    def enter(self, st, fn):
        self.visited_fns.add(fn.name)
        self.hooks.on_enter(st, fn)

    def outdated(self, st):
        for key, (act, g, ver) in st.loops.items():
            if g.ver != ver:
                return True
        return False

    def steps(self, st):
        self.nstates += 1
        if self.nstates > self.MAXSTATES:
            raise Inconclusive('state limit')
        if st.loops and self.outdated(st):
            return
        while st is not None and st.stack:
            fr = st.stack[-1]
            inst = fr.fn.blocks[fr.blk][fr.idx]
            fr.inst = inst
            self.ninst += 1
            if st.flog:
                st.flog = []
            try:
                st = self.step(st, fr, inst)
            except Split as s:
                c = s.cond
                for k in st.flog:
                    st.cnt[k] -= 1
                st.flog = []
                while isinstance(c, Term) and c.op == 'not':
                    c = c.args[0]
                alts = []
                for truth in (True, False):
                    n = st.fork()
                    n.stack[-1].blk, n.stack[-1].idx = fr.blk, fr.idx
                    if n.assume(c, truth):
                        n.note((fr.fn, inst.line, c, truth))
                        alts.append(n)
                self.nstates += len(alts)
                if self.nstates > self.MAXSTATES:
                    raise Inconclusive('state limit')
                if not alts:
                    self.dead_states += 1
                    return
                self.work.extend(alts[1:])
                st = alts[0]
                if st.loops and self.outdated(st):
                    return
            except Abort as a:
                self.hooks.on_abort(st, fr, inst, a.what, a.detail)
                return

    # ------------------------------------------------------------ values
    def val(self, st, fr, v):
        k = v[0]
        if k == 'r':
            try:
                x = fr.regs[v[1]]
            except KeyError:
                return UNDEF
            return st.norm(x) if isinstance(x, Term) else x
        if k == 'i':
            return v[1]
        if k == 'a':
            x = fr.args[v[1]]
            return st.norm(x) if isinstance(x, Term) else x
        if k == 'n':
            return NULL
        if k == 'g':
            return ptr(T('g', v[1]), v[2])
        if k == 'f':
            return v[1]
        if k == 'u':
            return UNDEF
        if k == 'cast':
            x = self.val(st, fr, v[1])
            return x
        if k == 'agg':
            r = Agg()
            for o, t, x in v[1]:
                if t == 'zero':
                    for q in range(0, x if isinstance(x, int) else 0, 8):
                        r[o + q] = 0
                elif t == 'bytes':
                    pass
                else:
                    r[o] = self.val(st, fr, x)
            return r
        return st.fresh('unk', (fr.ctx, fr.inst.id), 's64')

    def fsite(self, fr):
        return (fr.ctx, fr.inst.id)

    # ------------------------------------------------------------ integer views
    def uview(self, st, v, w):
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        v = self.toint(st, v)
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        lo, hi = bounds(v)
        if lo >= 0:
            return v
        if st.must(ge0(v)):
            return v
        return add(v, 1 << w)

    def sview(self, st, v, w):
        h = 1 << (w - 1)
        if isinstance(v, int):
            v &= (1 << w) - 1
            return v - (1 << w) if v >= h else v
        v = self.toint(st, v)
        if isinstance(v, int):
            return self.sview(st, v, w)
        lo, hi = bounds(v)
        if hi < h:
            return v
        if st.must(lt(v, h)):
            return v
        return sub(v, 1 << w)

    def toint(self, st, v):
        """Pointers as integers; anything unusable becomes opaque."""
        if isinstance(v, (int,)):
            return v
        if v is NULL:
            return 0
        if isinstance(v, Term):
            if v.op == 'ptr':
                return add(T('addr', v.args[0]), v.args[1])
            if v is UNDEF:
                return T('irange', 'undef', 0, 0, U64)
            return v
        return T('irange', 'opaque', id(v) & 0xff, 0, U64)

    # ------------------------------------------------------------ memory
    def load(self, st, p, ty, fr=None):
        p = st.norm(p)
        if not is_ptr(p):
            if p is NULL:
                raise Abort('null', 'load through a null pointer')
            return self.opaque(st, fr, ty)
        obj, off = p.args
        if isinstance(obj, Term) and obj.op == 'deref' or isinstance(obj, Term) and obj.op in ('ret', 'phi'):
            n = mk_isnull(ptr(obj, 0))
            if not isinstance(n, int) and st.atoms.get(n) is None and st.cfg and st.cfg(obj):
                if st.must(n):
                    raise Abort('null', 'load through a null pointer')
        self.hooks.on_load(st, fr, obj, off, ty)
        if isinstance(ty, list):
            r = Agg()
            for o, t in ty[2]:
                r[o] = self.load(st, ptr(obj, add(off, o)), t, fr)
            return r
        return self.cell(st, obj, off, ty, fr)

    def cell(self, st, obj, off, ty, fr=None):
        off = st.norm(off)
        m = st.mem.get(obj)
        if m is not None:
            v = m.get(off)
            if v is not None:
                if v is TOP:
                    return self.opaque(st, fr, ty, 'unk')
                if v is PROJ:
                    v = self.opaque(st, fr, ty, 'any')
                    st.put(obj, off, v)
                    return v
                v = st.norm(v) if isinstance(v, Term) else v
                if isinstance(v, Term) and v.op == 'word':
                    return self.lazy(st, v.args[0], v.args[1], ty, fr)
                return self.conv(st, v, ty, fr)
            if not isinstance(off, int) or any(not isinstance(o, int) for o in m):
                # may alias a differently written offset
                for o in list(m):
                    if isinstance(o, int) and isinstance(off, int):
                        continue
                    c = eq(off, o)
                    if isinstance(c, int):
                        if c:
                            return self.conv(st, st.norm(m[o]), ty, fr)
                        continue
                    lo, hi = bounds(sub(off, st.norm(o)))
                    if st.must(c):
                        return self.conv(st, st.norm(m[o]), ty, fr)
        return self.lazy(st, obj, off, ty, fr)

    def lazy(self, st, obj, off, ty, fr=None):
        o = obj.op if isinstance(obj, Term) else None
        if st.objs.get(obj, (None, None))[1] == 'summary':
            return self.opaque(st, fr, ty)
        if o == 'g':
            g = self.prog.globals.get(obj.args[0])
            if g is not None and 'init' in g and (g.get('const') or True):
                v = self.ginit(g, off, ty, st, fr)
                if v is not None:
                    if g.get('const') or g.get('local_init_ok') or not st.ghost.get('globals_unknown'):
                        return v
            if g is not None and not g.get('const'):
                return self.lazyterm(obj, off, ty)
            return self.lazyterm(obj, off, ty)
        if o == 'buf':
            content = st.norm(obj.args[0])
            if ty == 'i8':
                if isinstance(content, str) and isinstance(off, int):
                    return ord(content[off]) if 0 <= off < len(content) else 0
                if st.decide(eq(off, mk_size(content))):
                    return 0
                return mk_at(content, off)
            return self.opaque(st, fr, ty)
        if o == 'splitbuf' and isinstance(off, (int, Term)):
            text, sep, esz = obj.args
            k = self.div(off, esz)
            part = T('splitpart', text, sep, k)
            return ptr(T('buf', part), 0) if ty == 'ptr' else mk_size(part)
        if o in ('alloca', 'heap'):
            bb = st.get(T('bufbytes', obj), 0)
            if bb is not None and ty == 'i8':
                return mk_at(st.norm(bb[1]), sub(off, bb[0]))
            if st.objs.get(obj, (None, None))[1] == 'summary':
                return self.opaque(st, fr, ty)
            if st.objs.get(obj, (None, None))[1] == 'zero':
                return NULL if ty == 'ptr' else 0
            if isinstance(off, int):
                # bytes inside a wider integer cell
                m = st.mem.get(obj)
                if m and ty == 'i8' and isinstance(off, int):
                    for k, v in m.items():
                        if isinstance(k, int) and k < off < k + 8 and isinstance(v, int):
                            return (v >> (8 * (off - k))) & 255
            return UNDEF
        return self.lazyterm(obj, off, ty)

    def lazyterm(self, obj, off, ty):
        if ty == 'ptr':
            return ptr(T('deref', obj, off), 0)
        return T('init', obj, off, ty)

    def ginit(self, g, off, ty, st, fr):
        if not isinstance(off, int):
            return self.opaque(st, fr, ty) if False else None
        if off < 0 or off >= g.get('size', 0):
            return None
        for o, t, x in g['init']:
            if t == 'bytes':
                if o <= off < o + len(x):
                    if ty == 'i8':
                        return ord(x[off - o])
                    if ty[0] == 'i':
                        n = int(ty[1:]) // 8
                        return sum(ord(c) << (8 * i) for i, c in enumerate(x[off - o:off - o + n]))
            elif t == 'zero':
                if o <= off < o + x:
                    return NULL if ty == 'ptr' else (0.0 if ty == 'double' else 0)
            elif o == off:
                v = self.val(st, fr, x)
                return self.conv(st, v, ty, fr)
        return None

    def conv(self, st, v, ty, fr=None):
        if ty == 'ptr' and isinstance(v, int) and v == 0:
            return NULL
        if v is NULL and ty != 'ptr' and isinstance(ty, str) and ty[0] == 'i':
            return 0
        return v

    def opaque(self, st, fr, ty, name='unk'):
        site = (fr.ctx, fr.inst.id) if fr is not None else (0, 0)
        if ty == 'ptr':
            return ptr(st.fresh(name, site, 'ptr'), 0)
        if isinstance(ty, list):
            return Agg({o: self.opaque(st, fr, t, name) for o, t in ty[2]})
        return st.fresh(name, site, ty)

    def store(self, st, p, v, ty, fr=None):
        p = st.norm(p)
        if not is_ptr(p):
            if p is NULL:
                raise Abort('null', 'store through a null pointer')
            st.ghost['wild'] = 1
            return
        obj, off = p.args
        off = st.norm(off)
        if isinstance(v, Agg):
            for o, x in v.items():
                self.store(st, ptr(obj, add(off, o)), x, None, fr)
            return
        if v is UNDEF and ty is None:
            return
        if obj.op == 'buf':
            from . import models as MO
            c = None
            if ty == 'i8' and fr is not None:
                c = MO.chrv(st, v)
                MO.intostring(self, st, fr, p, c, 1)
            else:
                st.ghost['wild'] = 1
            return
        self.hooks.on_store(st, fr, obj, off, v)
        m = st.mem.get(obj)
        if m and (not isinstance(off, int) or any(not isinstance(o, int) for o in m)):
            for o in list(m):
                if isinstance(o, int) and isinstance(off, int):
                    continue
                if o is off:
                    continue
                d = st.norm(sub(off, o))
                if isinstance(d, int):
                    if d == 0:
                        st.pop(obj, o)
                    continue
                c = eq0(d)
                if isinstance(c, int) or st.decide(c) is False:
                    continue
                if st.must(c):
                    st.pop(obj, o)
        st.put(obj, off, v)

    # ------------------------------------------------------------ stepping
    def step(self, st, fr, i):
        o = i.o
        f = getattr(self, 'i_' + o, None)
        if f is None:
            f = self.i_binop if o in BINOPS else None
            if f is None:
                if i.d is not None:
                    fr.regs[i.d] = self.opaque(st, fr, i.t)
                fr.idx += 1
                return st
        return f(st, fr, i)

    def i_alloca(self, st, fr, i):
        v = fr.fn.vars.get(i.d)
        obj = T('alloca', fr.ctx, i.d, v[0] if v else '')
        fr.regs[i.d] = ptr(obj, 0)
        fr.allocas.append(obj)
        st.mem[obj] = {}
        st.owned.add(obj)
        st.objs[obj] = (i.x['size'], None)
        fr.idx += 1
        return st

    def i_load(self, st, fr, i):
        p = self.val(st, fr, i.a[0])
        v = self.load(st, p, i.t, fr)
        if v is UNDEF and fr.fn.repo and is_ptr(p) and p.args[0].op == 'alloca' and p.args[1] == 0 and p.args[0].args[2] \
                and not isinstance(i.t, list):
            o = p.args[0]
            z = st.objs.get(o)
            if z and z[0] in (1, 2, 4, 8) and z[1] != 'summary' and not st.mem.get(o) and T('bufbytes', o) not in st.mem \
                    and T('cr', o) not in st.mem and not st.ghost.get('wild'):
                raise Abort('undef', 'reads the uninitialised variable %s' % o.args[2])
        fr.regs[i.d] = v
        fr.idx += 1
        return st

    def i_store(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        p = self.val(st, fr, i.a[1])
        self.store(st, p, v, i.x['vt'], fr)
        fr.idx += 1
        return st

    def i_gep(self, st, fr, i):
        b = self.val(st, fr, i.a[0])
        off = i.x['c']
        for v, s in zip(i.a[1:], i.x['sc']):
            x = self.val(st, fr, v)
            w = 64
            if isinstance(x, int):
                if x >= 1 << 63:
                    x -= 1 << 64
            else:
                x = self.sview(st, x, 64)
            off = add(off, scale(x, s))
        if is_ptr(b):
            r = ptr(b.args[0], add(b.args[1], off))
        elif b is NULL:
            r = NULL if off == 0 else ptr(T('nullobj'), off)
        elif b is UNDEF:
            r = UNDEF
        else:
            r = self.opaque(st, fr, 'ptr')
        fr.regs[i.d] = r
        fr.idx += 1
        return st

    def goto(self, st, fr, b):
        """Transfer to block b, with phis and loop headers."""
        src = fr.blk
        fn = fr.fn
        blk = fn.blocks[b]
        lp0 = fn.cfg['loops']
        if b in lp0:
            if src in lp0[b]:
                if (fr.ctx, b) in st.loops:
                    self.hooks.on_back(st, fr, (fr.ctx, b))
            elif fr.fn.repo:
                # flags are told apart in loops
                for o in fr.allocas:
                    m = st.mem.get(o)
                    v = m.get(0) if m else None
                    if isinstance(v, Term) and v not in (UNDEF, TOP, PROJ, NULL) and self.kindof(st, fr, o, 0) == 'bool':
                        st.must(eq(v, 1) if not is_bool(v) else v)
        vals = []
        n = 0
        for x in blk:
            if x.o != 'phi':
                break
            vals.append((x.d, self.val(st, fr, x.x['in'][src]) if src in x.x['in'] else UNDEF))
            n += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.prev = src
        fr.blk, fr.idx = b, n
        cfg = fn.cfg
        lp = cfg['loops']
        if lp or st.loops:
            # leave loops
            if st.loops:
                for key in list(st.loops):
                    if key[0] == fr.ctx and b not in lp.get(key[1], ()):
                        del st.loops[key]
                        st.conc.pop(key, None)
            if b in lp:
                key = (fr.ctx, b)
                if (src, b) in cfg['back'] or src in lp[b]:
                    return self.backedge(st, fr, b, key)
                return self.loopentry(st, fr, b, key)
        return st

    def i_br(self, st, fr, i):
        s = i.x['s']
        if not i.a:
            return self.goto(st, fr, s[0])
        c = self.val(st, fr, i.a[0])
        lp = fr.fn.cfg['loops']
        if lp:
            for key in st.loops:
                if key[0] == fr.ctx and fr.blk in lp[key[1]]:
                    body = lp[key[1]]
                    if (s[0] in body) != (s[1] in body) or any(self.shortexit(fr.fn, b, body) for b in s):
                        self.exitbr(st, fr, i, c, key)
        c = self.cond(st, fr, c)
        t = st.must(c)
        self.hooks.on_branch(st, fr, i, c, t)
        if isinstance(i.line, tuple) and fr.fn.repo:
            self.visited_lines.add((fr.fn.tu.tag, i.line))
        return self.goto(st, fr, s[0] if t else s[1])

    def cond(self, st, fr, c):
        if isinstance(c, int):
            return c & 1
        if is_bool(c):
            return c
        if c is UNDEF or c is NULL:
            return T('pred', 'undef', fr.ctx, fr.inst.id)
        return bnot(eq0(c))

    def i_switch(self, st, fr, i):
        w = int(i.a[0][2]) if i.a[0][0] == 'i' else 32
        v = self.val(st, fr, i.a[0])
        if v is UNDEF:
            v = self.opaque(st, fr, 'i32')
        for c, b in i.x['cases']:
            if isinstance(v, int):
                if (v & 0xffffffff) == (c & 0xffffffff):
                    return self.goto(st, fr, b)
                continue
            if st.must(eq(v, c)):
                return self.goto(st, fr, b)
        self.hooks.on_branch(st, fr, i, 1, 1)
        return self.goto(st, fr, i.x['def'])

    def i_phi(self, st, fr, i):
        fr.idx += 1
        return st

    def i_unreachable(self, st, fr, i):
        raise Prune()

    def i_resume(self, st, fr, i):
        raise Prune()

    def i_landingpad(self, st, fr, i):
        raise Prune()

    def i_fence(self, st, fr, i):
        fr.idx += 1
        return st

    def i_ret(self, st, fr, i):
        v = self.val(st, fr, i.a[0]) if i.a else None
        ci = fr.ci.get(i.a[0][1]) if i.a and i.a[0][0] == 'r' else None
        if len(st.stack) == 1:
            self.hooks.pre_exit(st, fr, v)
        return self.leave(st, v, ci)

    def leave(self, st, v, ci=None):
        fr = st.stack[-1]
        self.hooks.on_leave(st, fr, v)
        if len(st.stack) == 1:
            self.hooks.on_exit(st, fr, v)
            self.results.append((st, v))
            return None
        st.stack = st.stack[:-1]
        for obj in fr.allocas:
            st.drop(obj)
        if st.loops:
            for key in list(st.loops):
                if key[0] == fr.ctx:
                    del st.loops[key]
                    st.conc.pop(key, None)
        c = st.stack[-1] = st.stack[-1].copy()
        st = self.setret(st, c, v, ci)
        if st is not None and self.hooks.merging and fr.fn.repo and c.fn.repo:
            return self.merge(st)
        return st

    def merge(self, st):
        """Property-directed merging: facts and cells the property does not
        mention are forgotten, and a state equal to one already followed is
        not followed again."""
        H = self.hooks
        for obj in list(st.mem):
            m = st.mem[obj]
            for o in list(m):
                v = m[o]
                if isinstance(v, Term):
                    w = st.norm(v)
                    if w is not v:
                        st.put(obj, o, w)
                        m = st.mem[obj]
                        v = w
                if v is not TOP and v is not PROJ and not H.keep_cell(st, obj, o, v):
                    st.put(obj, o, PROJ)
                    m = st.mem[obj]
        for f in st.stack:
            if f is st.stack[-1]:
                live = f.fn.live_at(f.blk, f.idx)
                for d in [d for d in f.regs if d not in live]:
                    del f.regs[d]
                f.ci = {d: x for d, x in f.ci.items() if d in live}
            for d, v in f.regs.items():
                if isinstance(v, Term):
                    w = st.norm(v)
                    if w is not v:
                        if f is not st.stack[-1]:
                            break
                        f.regs[d] = w
        self.sweepmem(st)
        keep = H.keep_fact
        n = len(st.atoms) + len(st.env) + len(st.lin) + len(st.neq) + len(st.fl)
        st.lin = [l for l in st.lin if keep(st, l)]
        st.neq = [l for l in st.neq if keep(st, l)]
        st.atoms = {a: v for a, v in st.atoms.items() if keep(st, a)}
        st.fl = {a: v for a, v in st.fl.items() if keep(st, a)}
        # bindings are applied everywhere above; callers' registers may still need them
        used = set()
        for f in st.stack[:-1]:
            for v in list(f.regs.values()) + f.args:
                if isinstance(v, Term):
                    used |= v.subs
        for v in st.stack[-1].args:
            if isinstance(v, Term):
                used |= v.subs
        st.env = {k: v for k, v in st.env.items() if k in used or keep(st, k)}
        if n != len(st.atoms) + len(st.env) + len(st.lin) + len(st.neq) + len(st.fl):
            st.dirty(True)

        def fz(v):
            return tuple(sorted((k, fz(x)) for k, x in v.items())) if isinstance(v, Agg) else v
        key = (tuple((f.ctx, f.blk, f.idx, frozenset((d, fz(v)) for d, v in f.regs.items() if f is st.stack[-1] or True))
                     for f in st.stack),
               frozenset((o, k, fz(v)) for o, m in st.mem.items() for k, v in m.items()),
               frozenset(st.env.items()), frozenset(st.atoms.items()), frozenset(st.lin), frozenset(st.neq),
               frozenset(st.fl.items()), frozenset(st.ghost.items()),
               frozenset((k, a[0].id, id(a[1]), a[2]) for k, a in st.loops.items() if a),
               frozenset((k, v) for k, v in st.cnt.items() if k[0] == 'iter'))
        if key in self.merged:
            self.nmerged += 1
            return None
        self.merged.add(key)
        return st

    def setret(self, st, c, v, ci=None):
        i = c.fn.blocks[c.blk][c.idx]
        if i.d is not None:
            c.regs[i.d] = v if v is not None else UNDEF
            if ci is not None:
                c.ci[i.d] = ci
        if i.o == 'invoke':
            return self.goto(st, c, i.x['s'][0])
        c.idx += 1
        return st

    # ------------------------------------------------------------ calls
    def i_call(self, st, fr, i):
        args = [self.val(st, fr, a) for a in i.a]
        f = i.x['f']
        if f[0] == 'g' and f[2] == 0:
            return self.call(st, fr, i, f[1], args)
        v = self.val(st, fr, f)
        if is_ptr(v) and isinstance(v.args[0], Term) and v.args[0].op == 'g' and v.args[1] == 0:
            return self.call(st, fr, i, v.args[0].args[0], args)
        return self.opaque_call(st, fr, i, None, args)

    i_invoke = i_call

    def resolve(self, name):
        fn = self.prog.fns.get(name)
        if fn is None:
            fn = self.prog.fns[name] = Intrinsic(name)
        m = self.mcache.get(name, 0)
        if m == 0:
            m = self.mcache[name] = self.models.lookup(name, fn)
        return fn, m

    def call(self, st, fr, i, name, args):
        if name.startswith('llvm.lifetime.'):
            p = args[1]
            if is_ptr(p) and p.args[0].op == 'alloca' and p.args[0] in st.mem and p.args[1] == 0:
                o = p.args[0]
                st.drop(o)
                st.mem[o] = {}
                st.owned.add(o)
                st.objs[o] = (args[0], None)
            fr.idx += 1
            return st
        fn, m = self.resolve(name)
        if fn is not None and fr.fn.repo:
            self.visited_sites.add((fr.fn.name, i.id))
        r = self.hooks.on_call(st, fr, i, fn, name, args)
        if r is not None:
            if r[0] == 'value':
                return self.setret(st, fr, r[1])
        if m is not None:
            v = m(self, st, fr, i, fn, args)
            if v is INLINE:
                pass
            else:
                if v is NORETURN:
                    raise Prune()
                self.hooks.after_model(st, fr, i, fn, name, args, v)
                return self.setret(st, fr, v)
        if fn is None or fn.decl:
            return self.opaque_call(st, fr, i, fn, args, name)
        if len(st.stack) > 80 or sum(1 for x in st.stack if x.fn is fn) > 2:
            return self.opaque_call(st, fr, i, fn, args, name)
        nf = Frame(fn, args, self.ctx(fr.ctx, i.id, fn.name))
        nf.blk, nf.idx, nf.prev = 0, 0, None
        nf.ci = {}
        st.stack = st.stack + [nf]
        self.enter(st, fn)
        return st

    def opaque_call(self, st, fr, i, fn, args, name=None):
        nm = fn.short if fn is not None else (name or '?')
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        self.hooks.on_unknown(st, fr, i, fn, name, args)
        st.ghost['unk'] = nm
        # havoc what the pointers reach directly, unless the parameter is const
        for k, a in enumerate(args):
            if is_ptr(a) and isinstance(a.args[0], Term):
                if fn is not None and self.const_param(fn, k):
                    continue
                o = a.args[0]
                if o.op == 'g':
                    g = self.prog.globals.get(o.args[0])
                    if g is None or g.get('const') or 'init' not in g:
                        continue
                    for c in list(st.mem.get(o) or {}):
                        st.pop(o, c)
                    st.objs[o] = (g.get('size'), 'summary')
                    continue
                self.havoc(st, o, fr)
        if i.x.get('noret'):
            raise Abort('noreturn', nm)
        v = None
        if i.d is not None:
            v = self.opaque(st, fr, i.t)
        return self.setret(st, fr, v)

    def const_param(self, fn, k):
        ps = split_params(fn.ptext)
        if 'const' in fn.dem.rsplit(')', 1)[-1] and k == 0:
            return True
        return False

    def havoc(self, st, obj, fr):
        m = st.mem.get(obj)
        if not m:
            return
        site = (fr.ctx, fr.inst.id)
        for o in list(m):
            v = m[o]
            if isinstance(v, str) or (isinstance(v, Term) and v.op not in ('ptr',)):
                st.put(obj, o, st.fresh('unk', site + (str(o),), 's64'))
            else:
                st.put(obj, o, self.opaque(st, fr, 'ptr' if (v is NULL or is_ptr(v)) else 'i64'))
            m = st.mem[obj]

    # ------------------------------------------------------------ arithmetic
    def width(self, ty):
        if ty == 'ptr':
            return 64
        return int(ty[1:])

    def i_icmp(self, st, fr, i):
        a = self.val(st, fr, i.a[0])
        b = self.val(st, fr, i.a[1])
        p = i.x['p']
        fr.regs[i.d] = self.icmp(st, p, a, b, i.x['ot'])
        fr.ci[i.d] = (i.id, p, a, b)
        fr.idx += 1
        return st

    def icmp(self, st, p, a, b, ty):
        if ty == 'ptr' or is_ptr(a) or is_ptr(b) or a is NULL or b is NULL:
            if p in ('eq', 'ne'):
                r = self.peq(st, a, b)
                return r if p == 'eq' else bnot(r)
            if is_ptr(a) and is_ptr(b) and a.args[0] is b.args[0]:
                a, b = a.args[1], b.args[1]
                d = sub(a, b)
                q = p[1:]
                if q == 'lt':
                    return ge0(sub(scale(d, -1), 1))
                if q == 'le':
                    return ge0(scale(d, -1))
                if q == 'gt':
                    return ge0(sub(d, 1))
                return ge0(d)
            a, b = self.toint(st, a), self.toint(st, b)
            return T('pred', 'ptrcmp', p, a, b)
        if not isinstance(ty, str) or ty[0] != 'i':
            return T('pred', 'cmp', p, a if isinstance(a, (Term, int)) else 0, b if isinstance(b, (Term, int)) else 0)
        w = self.width(ty)
        if a is UNDEF or b is UNDEF:
            return T('pred', 'undef', st.stack[-1].ctx, st.stack[-1].inst.id)
        if w == 1:
            if p in ('eq', 'ne') and (isinstance(a, int) or isinstance(b, int)):
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(a, int):
                    r = int((a & 1) == (b & 1))
                else:
                    r = a if (b & 1) else bnot(a)
                return r if p == 'eq' else bnot(r)
        if p in ('eq', 'ne'):
            a, b = self.toint(st, a), self.toint(st, b)
            if isinstance(a, int) and isinstance(b, int):
                r = int((a - b) % (1 << w) == 0)
            else:
                if isinstance(b, int) or isinstance(a, int):
                    if isinstance(a, int):
                        a, b = b, a
                    # choose the view the variable side lives in
                    lo, hi = bounds(a)
                    if lo >= 0:
                        b = b & ((1 << w) - 1)
                    elif hi < (1 << (w - 1)):
                        b = self.sview(st, b, w)
                    elif st.entails_ge0(a):
                        b = b & ((1 << w) - 1)
                    else:
                        a, b = self.uview(st, a, w), b & ((1 << w) - 1)
                else:
                    la, ha = bounds(a)
                    lb, hb = bounds(b)
                    if (la >= 0 and lb >= 0) or (ha < 1 << (w - 1) and hb < 1 << (w - 1)):
                        pass
                    elif st.entails_ge0(a) and st.entails_ge0(b):
                        pass
                    else:
                        a, b = self.uview(st, a, w), self.uview(st, b, w)
                r = eq(a, b)
            return r if p == 'eq' else bnot(r)
        if p[0] == 'u':
            a, b = self.uview(st, a, w), self.uview(st, b, w)
        else:
            a, b = self.sview(st, a, w), self.sview(st, b, w)
        q = p[1:]
        if q == 'lt':
            return lt(a, b)
        if q == 'le':
            return le(a, b)
        if q == 'gt':
            return lt(b, a)
        return le(b, a)

    def peq(self, st, a, b):
        if isinstance(a, int) and a == 0:
            a = NULL
        if isinstance(b, int) and b == 0:
            b = NULL
        a, b = st.norm(a), st.norm(b)
        if a is b:
            return 1
        if a is UNDEF or b is UNDEF:
            return T('pred', 'undef', st.stack[-1].ctx, st.stack[-1].inst.id)
        if a is NULL:
            a, b = b, a
        if b is NULL:
            return mk_isnull(a) if is_ptr(a) else T('isnull', a)
        if not is_ptr(a) or not is_ptr(b):
            return T('peq', a, b) if a.id < b.id else T('peq', b, a)
        oa, ob = a.args[0], b.args[0]
        if oa is ob:
            return eq(a.args[1], b.args[1])
        da, db = self.distinct_kind(oa), self.distinct_kind(ob)
        if da and db:
            return 0
        if (da == 2) or (db == 2):
            return 0
        return T('peq', a, b) if a.id < b.id else T('peq', b, a)

    def distinct_kind(self, o):
        """2: created by the analysed code (cannot be aliased by inputs); 1: own identity."""
        if not isinstance(o, Term):
            return 0
        if o.op in ('alloca', 'heap', 'mapend', 'mapent'):
            return 2
        if o.op in ('g', 'buf', 'obj', 'nullobj', 'entry', 'ents', 'items', 'strof', 'pairs', 'setelem', 'setend', 'crypto', 'md'):
            return 1
        return 0

    def i_fcmp(self, st, fr, i):
        a = self.val(st, fr, i.a[0])
        b = self.val(st, fr, i.a[1])
        fr.regs[i.d] = self.fcmp(st, fr, i.x['p'], a, b)
        fr.idx += 1
        return st

    def fcmp(self, st, fr, p, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            q = p[1:]
            r = {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}.get(q)
            if r is not None:
                return int(r)
        SW = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
        q = p[1:]
        if isinstance(a, (int, float)):
            a, b, q = b, a, SW.get(q, q)
        if isinstance(b, (int, float)) and isinstance(a, Term) and q in SW:
            # NaN: ordered comparisons are false on NaN, unordered ones true
            nan = T('pred', 'isnan', a)
            k = float(b)
            if q == 'ge':
                c = T('fge', a, k)
            elif q == 'gt':
                c = T('fgt', a, k)
            elif q == 'lt':
                c = bnot(T('fge', a, k))
            elif q == 'le':
                c = bnot(T('fgt', a, k))
            elif q == 'eq':
                c = mk_and(T('fge', a, k), bnot(T('fgt', a, k)))
            else:
                c = bnot(mk_and(T('fge', a, k), bnot(T('fgt', a, k))))
            if p == 'one':
                pass
            if p[0] == 'o':
                if q == 'ne':
                    return mk_and(bnot(nan), c)
                return mk_and(bnot(nan), c)
            return mk_or(nan, c)
        return T('pred', 'fcmp', p, a if isinstance(a, Term) else T('fconst', repr(a)), b if isinstance(b, Term) else T('fconst', repr(b)))

    def i_zext(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        w = self.width(i.x['ot'])
        fr.regs[i.d] = v if is_bool(v) or v is UNDEF else self.uview(st, v, w)
        if i.a[0][0] == 'r' and i.a[0][1] in fr.ci:
            fr.ci[i.d] = fr.ci[i.a[0][1]]
        fr.idx += 1
        return st

    def i_sext(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        w = self.width(i.x['ot'])
        if is_bool(v):
            v = -1 if st.must(v) else 0
        fr.regs[i.d] = v if v is UNDEF else self.sview(st, v, w)
        fr.idx += 1
        return st

    def i_trunc(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        w = self.width(i.t)
        if i.a[0][0] == 'r' and i.a[0][1] in fr.ci:
            fr.ci[i.d] = fr.ci[i.a[0][1]]
        fr.regs[i.d] = self.trunc(st, v, w)
        fr.idx += 1
        return st

    def trunc(self, st, v, w):
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        if is_bool(v) or v is UNDEF:
            return v
        v = self.toint(st, v)
        if w == 1:
            lo, hi = bounds(v)
            if lo >= 0 and hi <= 1:
                return bnot(eq0(v))
            if isinstance(v, Term) and v.op == 'init' and v.args[2] == 'i8':
                return bnot(eq0(v))
            return T('pred', 'bit0', v)
        lo, hi = bounds(v)
        if lo > -(1 << (w - 1)) and hi < (1 << w):
            return v
        if st.entails_ge0(v) and st.entails_ge0(sub((1 << w) - 1, v)):
            return v
        return T('trunc', v, w)

    def i_ptrtoint(self, st, fr, i):
        fr.regs[i.d] = self.val(st, fr, i.a[0])
        fr.idx += 1
        return st

    def i_inttoptr(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        fr.regs[i.d] = self.toptr(st, fr, v)
        fr.idx += 1
        return st

    def toptr(self, st, fr, v):
        if is_ptr(v) or v is NULL or v is UNDEF:
            return v
        if isinstance(v, int):
            return NULL if v == 0 else ptr(T('absaddr'), v)
        c, p = lparts(v)
        a = [x for x, k in p if x.op == 'addr' and k == 1]
        if len(a) == 1:
            return ptr(a[0].args[0], sub(v, a[0]))
        return self.opaque(st, fr, 'ptr')

    def i_bitcast(self, st, fr, i):
        fr.regs[i.d] = self.val(st, fr, i.a[0])
        fr.idx += 1
        return st

    i_addrspacecast = i_bitcast

    def i_freeze(self, st, fr, i):
        fr.regs[i.d] = self.val(st, fr, i.a[0])
        fr.idx += 1
        return st

    def i_select(self, st, fr, i):
        c = self.cond(st, fr, self.val(st, fr, i.a[0]))
        t = st.must(c)
        k = 1 if t else 2
        fr.regs[i.d] = self.val(st, fr, i.a[k])
        if i.a[k][0] == 'r' and i.a[k][1] in fr.ci:
            fr.ci[i.d] = fr.ci[i.a[k][1]]
        fr.idx += 1
        return st

    def i_extractvalue(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        ty = i.x['ot']
        ix = i.x['i']
        off = ty[3][ix[0]]
        if isinstance(v, Agg):
            if isinstance(i.t, list):
                r = Agg({o - off: x for o, x in v.items() if off <= o < off + i.t[1]})
            else:
                r = v.get(off, UNDEF)
                if isinstance(r, Term):
                    r = st.norm(r)
        else:
            r = self.opaque(st, fr, i.t)
        fr.regs[i.d] = r
        fr.idx += 1
        return st

    def i_insertvalue(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        x = self.val(st, fr, i.a[1])
        off = i.t[3][i.x['i'][0]]
        r = Agg(v) if isinstance(v, Agg) else Agg()
        if isinstance(x, Agg):
            for o, y in x.items():
                r[off + o] = y
        else:
            r[off] = x
        fr.regs[i.d] = r
        fr.idx += 1
        return st

    def i_binop(self, st, fr, i):
        a = self.val(st, fr, i.a[0])
        b = self.val(st, fr, i.a[1])
        o = i.o
        if i.t in ('double', 'float'):
            fr.regs[i.d] = self.fbin(st, fr, o, a, b)
            fr.idx += 1
            return st
        if not isinstance(i.t, str) or i.t[0] != 'i':
            fr.regs[i.d] = self.opaque(st, fr, i.t)
            fr.idx += 1
            return st
        w = self.width(i.t)
        fl = i.x.get('fl', '')
        r = self.bin(st, fr, o, a, b, w, fl)
        if o == 'xor' and i.a[0][0] == 'r' and i.a[0][1] in fr.ci:
            fr.ci[i.d] = fr.ci[i.a[0][1]]
        fr.regs[i.d] = r
        fr.idx += 1
        return st

    def bin(self, st, fr, o, a, b, w, fl):
        M = (1 << w) - 1
        if a is UNDEF or b is UNDEF:
            return self.opaque(st, fr, 'i%d' % w)
        if w == 1 or (is_bool(a) and (is_bool(b) or b in (0, 1))) or (is_bool(b) and a in (0, 1) and not isinstance(a, Term)):
            if o == 'and':
                return mk_and(self.b(a), self.b(b))
            if o == 'or':
                return mk_or(self.b(a), self.b(b))
            if o == 'xor':
                a, b = self.b(a), self.b(b)
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    return (bnot(a) if b else a) if not isinstance(a, int) else (a ^ b) & 1
                return mk_or(mk_and(a, bnot(b)), mk_and(bnot(a), b))
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = self.sview(st, a, w), self.sview(st, b, w)
            a &= M
            b &= M
            if o == 'add':
                return self.canon(a + b, w, fl)
            if o == 'sub':
                r = (a - b)
                return (sa - sb) if 's' in fl else r & M
            if o == 'mul':
                return (a * b) & M
            if o == 'and':
                return a & b
            if o == 'or':
                return a | b
            if o == 'xor':
                return a ^ b
            if o == 'shl':
                return (a << b) & M if b < w else 0
            if o == 'lshr':
                return a >> b if b < w else 0
            if o == 'ashr':
                return (sa >> b) & M
            if o == 'udiv' and b:
                return a // b
            if o == 'urem' and b:
                return a % b
            if o == 'sdiv' and sb:
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & M
            if o == 'srem' and sb:
                q = abs(sa) % abs(sb)
                return (q if sa >= 0 else -q) & M
            return self.opaque(st, fr, 'i%d' % w)
        a, b = self.toint(st, a), self.toint(st, b)
        if o in ('add', 'sub'):
            if 's' in fl and 'u' not in fl:
                a, b = self.sview(st, a, w), self.sview(st, b, w)
                return add(a, b, 1 if o == 'add' else -1)
            if isinstance(b, int) and b >= 1 << (w - 1) and 'u' not in fl:
                b -= 1 << w
            if isinstance(a, int) and a >= 1 << (w - 1) and 'u' not in fl and o == 'add':
                a -= 1 << w
            r = add(a, b, 1 if o == 'add' else -1)
            return self.wrap(st, r, w)
        if o == 'mul':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                b = self.sview(st, b, w) if b >= 1 << (w - 1) else b
                r = scale(a, b)
                lo, hi = bounds(r)
                if lo > -(1 << (w - 1)) and hi <= M:
                    return r
                if 's' in fl:
                    return scale(self.sview(st, a, w), b)
                if st.entails_ge0(r) and st.entails_ge0(sub(M, r)):
                    return r
                u = self.uview(st, a, w)
                r = scale(u, b)
                if b > 0 and st.must(le(r, M)):
                    return r
                return T('irange', 'mulwrap', a, b, 0, M)
            return T('irange', 'mul', a, b, 0, M)
        if o == 'shl' and isinstance(b, int):
            return self.bin(st, fr, 'mul', a, 1 << b, w, fl)
        if o == 'lshr' and isinstance(b, int):
            return self.div(self.uview(st, a, w), 1 << b)
        if o == 'ashr' and isinstance(b, int):
            return self.div(self.sview(st, a, w), 1 << b)
        if o == 'udiv' and isinstance(b, int) and b:
            return self.div(self.uview(st, a, w), b)
        if o == 'sdiv' and isinstance(b, int) and b:
            a = self.sview(st, a, w)
            b = self.sview(st, b, w)
            e = self.exact(a, b)
            if e is not None:
                return e
            if b > 0:
                if st.must(ge0(a)):
                    return self.div(a, b)
                return scale(self.div(scale(a, -1), b), -1)
            return T('irange', 'sdiv', a, b, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if o == 'urem' and isinstance(b, int) and b:
            a = self.uview(st, a, w)
            return sub(a, scale(self.div(a, b), b))
        if o == 'srem' and isinstance(b, int) and b > 0:
            a = self.sview(st, a, w)
            if st.must(ge0(a)):
                return sub(a, scale(self.div(a, b), b))
            return T('irange', 'srem', a, b, -b + 1, 0)
        if o == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    if y == M:
                        return x
                    if y & (y + 1) == 0:
                        lo, hi = bounds(x)
                        if lo >= 0 and hi <= y:
                            return x
                        if y == 1 and is_bool(x):
                            return x
                    return T('irange', 'and', x, y, 0, y & M)
        if o == 'or' and isinstance(b, int) and b == 0:
            return a
        if o == 'xor' and isinstance(b, int) and b == 0:
            return a
        if o == 'xor' and isinstance(b, int) and (b & M) == M:
            return self.wrap(st, sub(-1, a), w)
        a, b = (a, b) if isinstance(a, Term) else (a, b)
        return T('irange', o, a, b, 0, M)

    def b(self, v):
        if isinstance(v, int):
            return v & 1
        if is_bool(v):
            return v
        return bnot(eq0(v))

    def canon(self, r, w, fl):
        return r & ((1 << w) - 1)

    def wrap(self, st, r, w):
        """Keep r inside (-2^(w-1), 2^w)."""
        if isinstance(r, int):
            return r & ((1 << w) - 1) if (r >= 1 << w or r <= -(1 << (w - 1))) else r
        lo, hi = bounds(r)
        if hi >= 1 << w:
            if not st.must(lt(r, 1 << w)):
                return self.wrap(st, sub(r, 1 << w), w)
        if lo <= -(1 << (w - 1)):
            if not st.must(ge0(r)):
                return add(r, 1 << w)
        return r

    def div(self, a, c):
        e = self.exact(a, c)
        return e if e is not None else mk_div(a, c)

    def exact(self, a, c):
        k, p = lparts(a)
        if k % c == 0 and all(x % c == 0 for _, x in p):
            return mklin(k // c, {y: x // c for y, x in p})
        return None

    def fbin(self, st, fr, o, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                if o == 'fadd':
                    return float(a) + b
                if o == 'fsub':
                    return float(a) - b
                if o == 'fmul':
                    return float(a) * b
                if o == 'fdiv':
                    return float(a) / b
            except (ZeroDivisionError, OverflowError):
                pass
        if o == 'fmul':
            if isinstance(a, (int, float)):
                a, b = b, a
            if isinstance(b, (int, float)):
                return T('fmul', a, float(b))
        if o == 'fdiv' and isinstance(b, (int, float)) and b:
            return T('fmul', a, 1.0 / float(b))
        return self.opaque(st, fr, 'double')

    def i_fptoui(self, st, fr, i):
        return self.fpto(st, fr, i, False)

    def i_fptosi(self, st, fr, i):
        return self.fpto(st, fr, i, True)

    def fpto(self, st, fr, i, signed):
        v = self.val(st, fr, i.a[0])
        w = self.width(i.t)
        self.hooks.on_fpto(st, fr, i, v, w, signed)
        if isinstance(v, (int, float)):
            try:
                fr.regs[i.d] = int(v)
            except (ValueError, OverflowError):
                fr.regs[i.d] = self.opaque(st, fr, i.t)
        elif isinstance(v, Term):
            fr.regs[i.d] = T('f2s' if signed else 'f2u', v, w)
        else:
            fr.regs[i.d] = self.opaque(st, fr, i.t)
        fr.idx += 1
        return st

    def i_uitofp(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        w = self.width(i.x['ot'])
        if isinstance(v, int):
            fr.regs[i.d] = float(v & ((1 << w) - 1))
        else:
            fr.regs[i.d] = T('i2f', v) if isinstance(v, Term) else self.opaque(st, fr, 'double')
        fr.idx += 1
        return st

    def i_sitofp(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        w = self.width(i.x['ot'])
        if isinstance(v, int):
            fr.regs[i.d] = float(self.sview(st, v, w))
        else:
            fr.regs[i.d] = T('i2f', v) if isinstance(v, Term) else self.opaque(st, fr, 'double')
        fr.idx += 1
        return st

    def i_fpext(self, st, fr, i):
        fr.regs[i.d] = self.val(st, fr, i.a[0])
        fr.idx += 1
        return st

    i_fptrunc = i_fpext

    def i_fneg(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        fr.regs[i.d] = -v if isinstance(v, (int, float)) else self.opaque(st, fr, 'double')
        fr.idx += 1
        return st

    def i_atomicrmw(self, st, fr, i):
        if i.d is not None:
            fr.regs[i.d] = self.opaque(st, fr, i.t)
        fr.idx += 1
        return st

    # ------------------------------------------------------------ loops
    def shortexit(self, fn, b, body):
        """b only branches on a value chosen by the block before it, and may
        leave the loop."""
        blk = fn.blocks[b]
        x = blk[-1]
        if x.o != 'br' or not x.a or x.a[0][0] != 'r':
            return False
        t = x.x['s']
        if b not in body or (t[0] in body) == (t[1] in body):
            return False
        return any(y.o == 'phi' and y.d == x.a[0][1] for y in blk)

    def exitbr(self, st, fr, i, c, key):
        """Called at a branch in the loop `key`; the test of a short-circuit
        condition leaves the loop through a further branch."""
        rec = st.conc.get(key)
        if isinstance(c, int):
            ci = fr.ci.get(i.a[0][1]) if i.a[0][0] == 'r' else None
            op = (ci[2], ci[3]) if ci else None
            d = dict(rec) if rec else {}
            old = d.get(i.id)
            # counted: the operands of a decided exit test changed
            d[i.id] = (op, bool(old and op is not None and old[0] != op) or (old is None and op is not None and False))
            st.conc[key] = d

    def loopentry(self, st, fr, b, key):
        act = Act(key)
        self.scratch(st, fr, b)
        st.loops[key] = None
        st.conc.pop(key, None)
        g = Group(None, self.signature(st, fr, key))
        st.loops[key] = (act, g, 0)
        act.groups.append(g)
        self.hooks.on_loop(st, fr, key, 'entry')
        g.state = self.freeze(st)
        st.conc[key] = {}
        st.cnt[('iter', key)] = 0
        return st

    def freeze(self, st):
        s = st.fork()
        s.stack = [f for f in st.stack]
        s.stack[-1] = st.stack[-1].copy()
        self._fixframe(s.stack[-1], st.stack[-1])
        return s

    def _fixframe(self, a, b):
        pass

    def thaw(self, s):
        t = s.fork()
        self._fixframe(t.stack[-1], s.stack[-1])
        return t

    def backedge(self, st, fr, b, key):
        act, g0, ver = st.loops[key]
        it = st.cnt[('iter', key)] = st.cnt.get(('iter', key), 0) + 1
        self.hooks.on_loop(st, fr, key, 'back')
        conc = st.conc.get(key) or {}
        counted = any(v[1] for v in conc.values())
        first = it == 1 and any(v[0] is not None for v in conc.values())
        if (counted or first) and it < 70:
            # the trip count is a constant: follow the iterations
            self.gc(st)
            return st
        act.rounds += 1
        self.hooks.keep_lost(st)
        self.scratch(st, fr, b)
        if act.rounds > 20000:
            raise Inconclusive('loop at %s does not stabilise' % self.prog.fname(fr.fn, fr.fn.blocks[b][0].line or fr.inst.line))
        self.gc(st)
        st.conc[key] = {}
        sig = self.signature(st, fr, key)
        for g in act.groups:
            if g.sig == sig and g.state is not None:
                r = self.join(g, st, fr, key, act)
                self.loopjoins += 1
                if r is None:
                    return None
                # g was generalised: restart from it
                g.ver += 1
                g.state = r
                n = self.thaw(r)
                n.loops[key] = (act, g, g.ver)
                r.loops[key] = (act, g, g.ver)
                if n.loops and self.outdated(n):
                    return None
                return n
        g = Group(None, sig)
        act.groups.append(g)
        if len(act.groups) > 60:
            raise Inconclusive('too many kinds of loop states: %s' % ' / '.join(str([x for x in q.sig if len(x) == 2]) for q in act.groups[-4:]))
        st.loops[key] = (act, g, 0)
        st.cnt[('iter', key)] = 0
        g.state = self.freeze(st)
        return st

    def sweepmem(self, st):
        """Drop the locals of the innermost frame that are not used any more."""
        cand = set(st.stack[-1].allocas) | {o for o in st.mem if o.op in ('heap', 'ret')}
        cand = {o for o in cand if o in st.mem}
        live = set()
        todo = []

        def mark(v):
            if isinstance(v, Term):
                for o in v.objs:
                    if o in cand and o not in live:
                        live.add(o)
                        todo.append(o)
            elif isinstance(v, Agg):
                for x in v.values():
                    mark(x)
            elif isinstance(v, tuple):
                for x in v:
                    mark(x)
        for f in st.stack:
            for v in f.regs.values():
                mark(v)
            for v in f.args:
                mark(v)
        for v in st.ghost.values():
            mark(v)
        for o, m in st.mem.items():
            if o not in cand:
                for v in m.values():
                    mark(v)
        while todo:
            for v in st.mem.get(todo.pop(), {}).values():
                mark(v)
        for o in cand - live:
            sz = st.objs.get(o)
            st.drop(o)
            if o.op == 'alloca':
                st.mem[o] = {}
                st.owned.add(o)
                st.objs[o] = sz or (None, None)

    def gc(self, st):
        """Drop heap objects nothing refers to."""
        heap = [o for o in st.mem if o.op == 'heap']
        if not heap:
            return
        live = set()
        todo = []

        def mark(v):
            if isinstance(v, Term):
                for o in v.objs:
                    if o.op == 'heap' and o not in live:
                        live.add(o)
                        todo.append(o)
            elif isinstance(v, Agg):
                for x in v.values():
                    mark(x)
            elif isinstance(v, tuple):
                for x in v:
                    mark(x)
        for o, m in st.mem.items():
            if o.op != 'heap':
                for v in m.values():
                    mark(v)
        for f in st.stack:
            for v in f.regs.values():
                mark(v)
            for v in f.args:
                mark(v)
        for v in st.ghost.values():
            mark(v)
        while todo:
            for v in st.mem.get(todo.pop(), {}).values():
                mark(v)
        for o in heap:
            if o not in live:
                st.drop(o)

    def scratch(self, st, fr, b):
        """Unnamed scalar temporaries (return value slot, cleanup state) hold
        nothing across iterations."""
        marked = fr.fn.marked
        live = fr.fn.slotlive[b]
        for o in fr.allocas:
            if o.args[2] or o.args[1] in marked or o.args[1] in live:
                continue
            if st.mem.get(o) or T('bufbytes', o) in st.mem or T('cr', o) in st.mem:
                sz = st.objs.get(o, (0, None))[0]
                st.drop(o)
                st.mem[o] = {}
                st.owned.add(o)
                st.objs[o] = (sz, None)

    def kindof(self, st, fr, obj, off):
        """Debug-info kind of a cell: bool/enum cells are kept apart."""
        if obj.op == 'alloca' and off == 0:
            for f in st.stack:
                if f.ctx == obj.args[0]:
                    v = f.fn.vars.get(obj.args[1])
                    return v[2] if v else None
            return None
        return None

    def signature(self, st, fr, key):
        sig = []
        for obj, m in st.mem.items():
            if obj.op == 'alloca':
                k = self.kindof(st, fr, obj, 0)
                if k in ('bool', 'enum'):
                    v = m.get(0)
                    if isinstance(v, int):
                        sig.append((obj.id, v))
                for o, v in m.items():
                    if v is NULL:
                        sig.append((obj.id, o if isinstance(o, int) else o.id, 'null'))
            elif obj.op == 'obj':
                for o, v in m.items():
                    if isinstance(v, int) and 0 <= v < 512 and self.hooks.is_discrete(st, obj, o):
                        sig.append((obj.id, o if isinstance(o, int) else o.id, v))
        for k, v in st.ghost.items():
            s = self.gsig(v) if not (isinstance(k, str) and k[0] == '#') else 'N'
            if s is not None:
                sig.append((k, s))
        sig.sort(key=repr)
        return tuple(sig)

    def gsig(self, v):
        if isinstance(v, (int, str, bool)) or v is None:
            return repr(v)
        if isinstance(v, Term):
            return 'T'
        if isinstance(v, tuple):
            return '(' + ','.join(str(self.gsig(x)) for x in v) + ')'
        if isinstance(v, frozenset):
            return repr(sorted(str(self.gsig(x)) for x in v))
        return str(type(v))

    # ---- join
    def cells(self, st, fr):
        """All comparable cells of a state at a loop header."""
        r = {}
        for obj, m in st.mem.items():
            for o, v in m.items():
                r[('m', obj, o)] = v
        live = fr.fn.cfg['live']
        lv = live[fr.blk] if live else ()
        for f in st.stack:
            if f is st.stack[-1]:
                for d in f.regs:
                    if d in lv or any(x.d == d and x.o == 'phi' for x in f.fn.blocks[f.blk]):
                        r[('r', f.ctx, d)] = f.regs[d]
        for k, v in st.ghost.items():
            r[('g', k)] = v
        return r

    def setcell(self, st, c, v):
        if c[0] == 'm':
            if v is None:
                st.pop(c[1], c[2])
            else:
                st.put(c[1], c[2], v)
        elif c[0] == 'r':
            st.stack[-1].regs[c[2]] = v
        else:
            st.ghost[c[1]] = v

    def join(self, g, n, fr, key, act):
        """None if g's state covers n, else the generalised state."""
        G = g.state
        gf = G.stack[-1]
        gc = self.cells(G, gf)
        nc = self.cells(n, fr)
        key = (key, act.id, act.groups.index(g))
        bind = {}          # phi term -> value in n
        gbind = {}         # new phi term -> value in G
        changes = {}
        for c in sorted(set(gc) | set(nc), key=repr_cell):
            a, b = gc.get(c), nc.get(c)
            if isinstance(a, Term):
                a = G.norm(a)
            if isinstance(b, Term):
                b = n.norm(b)
            if a is TOP:
                continue
            if a is None and c[0] == 'm' and c[1].op == 'heap' and c[1] not in G.mem:
                # G cannot reach it
                continue
            if b is TOP or b is PROJ or a is PROJ:
                if a is not b:
                    changes[c] = (a, None)
                continue
            if b is TOP:
                changes[c] = (a, None)
                continue
            if a is b or (type(a) is type(b) and a == b):
                if isinstance(a, Term) and a.fresh and self.phis(a, key):
                    # unchanged: the phis in it must be bound to themselves
                    for p in self.phis(a, key):
                        if bind.get(p, p) is not p:
                            changes[c] = (a, b)
                        else:
                            bind[p] = p
                continue
            if a is None:
                # only in n: an untouched lazily known cell is no change
                if c[0] == 'm':
                    z = self.lazyz(n, c[1], c[2], b)
                    if z is b:
                        continue
                    if c[1].op in ('alloca',):
                        continue
                    if c[1].op == 'heap' and c[1] not in G.mem:
                        continue
                    if G.objs.get(c[1], (0, 0))[1] == 'summary':
                        continue
                    if not isinstance(c[2], int) or c[1].op not in ('obj', 'deref', 'g'):
                        changes[c] = (None, b)
                        continue
                    a = z
                else:
                    changes[c] = (None, b)
                    continue
            if b is None:
                if c[0] == 'm':
                    z = self.lazyz(G, c[1], c[2], a)
                    if z is a:
                        # known to be the initial content
                        continue
                    changes[c] = (a, None)
                    continue
                if c[0] == 'g':
                    changes[c] = (a, None)
                continue
            if not self.match(a, b, bind, key, G, n):
                changes[c] = (a, b)
        # shared symbols must agree: match() recorded the bindings
        newG = None
        if changes:
            newG = self.thaw(G)
            newG.stack[-1] = newG.stack[-1]
            seen = {}
            for c, (a, b) in changes.items():
                if a is None or b is None:
                    if c[0] == 'm':
                        if isinstance(c[2], int):
                            newG.put(c[1], c[2], TOP)
                        else:
                            newG.pop(c[1], c[2])
                            newG.objs[c[1]] = (newG.objs.get(c[1], (None, None))[0], 'summary')
                    elif c[0] == 'g':
                        v = self.hooks.join_ghost(c[1], a, b)
                        newG.ghost[c[1]] = v
                    continue
                v = self.generalise(a, b, c, key, bind, gbind, seen, G, n, act)
                self.setcell(newG, c, v)
        else:
            newG = self.thaw(G)
        # facts
        changed = bool(changes)
        if self.restrict(newG, G, n, bind, gbind):
            changed = True
        if changes:
            self.candidates(newG, G, n, bind, gbind, key)
            for p, x in gbind.items():
                if p.args[0] == 'p' and self.nonnull(G, x) and p in bind and self.nonnull(n, bind[p]):
                    newG.atoms[T('isnull', p)] = False
                    newG.dirty(True)
        if not changed:
            return None
        g.tries += 1
        if g.tries > 60:
            raise Inconclusive('loop state does not stabilise')
        return newG

    def nonnull(self, st, x):
        if x is NULL or not isinstance(x, Term):
            return False
        d = mk_isnull(x if x.op == 'ptr' else ptr(x, 0))
        return d == 0 if isinstance(d, int) else st.decide(d) is False

    def lazyz(self, st, obj, off, like):
        if obj.op in ('alloca', 'heap'):
            return UNDEF
        if is_ptr(like):
            # the end of an input vector
            if isinstance(off, int) and off >= 8 and like.args[0] is T('deref', obj, off - 8):
                n = T('count', obj, off - 8)
                for x, k in lparts(like.args[1])[1]:
                    if x is n:
                        return ptr(like.args[0], scale(n, k))
            return ptr(T('deref', obj, off), 0)
        if like is NULL:
            return ptr(T('deref', obj, off), 0)
        if isinstance(like, Term) and like.op == 'init':
            return T('init', obj, off, like.args[2])
        return self.hooks.lazy_other(st, obj, off, like)

    def phis(self, t, key):
        return [x for x in t.fresh if x.op == 'phi' and x.args[1] == key]

    def match(self, a, b, bind, key, G, n):
        """Find values for a's phis (of this loop) making it equal b."""
        if a is b or (not isinstance(a, Term) and not isinstance(b, Term) and type(a) is type(b) and a == b):
            if isinstance(a, Term):
                for p in self.phis(a, key):
                    if bind.get(p, p) is not p:
                        return False
                    bind[p] = p
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.match(x, y, bind, key, G, n) for x, y in zip(a, b))
        if not isinstance(a, Term):
            if isinstance(b, Term) and isinstance(a, int) and not is_ptr(b):
                return bool(n.decide(eq(a, b))) if b.op not in ('null', 'undef') else False
            return False
        if a.op == 'phi' and a.args[1] == key:
            if a in bind:
                return bind[a] is b or self.veq(n, bind[a], b)
            if a.args[-1] is not None and not self.fits(a, b, n):
                return False
            bind[a] = b
            return True
        ph = self.phis(a, key)
        if not ph:
            return self.veq(n, a, b)
        if a.op == 'ptr' and a.args[1] == 0 and a.args[0].op == 'phi' and a.args[0].args[0] == 'p' and a.args[0].args[1] == key \
                and b is NULL:
            p = a.args[0]
            if p in bind:
                return bind[p] is b
            bind[p] = b
            return True
        if isinstance(b, Term) and b.op == a.op and a.op != 'lin' and len(a.args) == len(b.args):
            return all(self.match(x, y, bind, key, G, n) for x, y in zip(a.args, b.args))
        # linear
        if is_ptr(b) or is_ptr(a) or b in (NULL, UNDEF) or isinstance(b, (str, tuple, float)):
            return False
        ca, pa = lparts(a)
        m = {p: bind[p] for p in ph if p in bind}
        free = [p for p in ph if p not in bind]
        if not free:
            return self.veq(n, n.norm(subst(a, m)), b)
        if len(free) == 1:
            p = free[0]
            k = dict(pa).get(p)
            if k is None or any(p in y.subs for y, _ in pa if y is not p):
                return False
            rest = subst(mklin(ca, {y: q for y, q in pa if y is not p}), m)
            d = n.norm(sub(b, rest))
            ck, pk = lparts(d)
            if ck % k or any(q % k for _, q in pk):
                return False
            v = mklin(ck // k, {y: q // k for y, q in pk})
            if not self.fits(p, v, n):
                return False
            bind[p] = v
            return True
        return False

    def fits(self, p, v, n):
        lo, hi = p.args[-2], p.args[-1]
        if lo is None:
            return True
        if p.args[0] == 'o':
            # a pointer offset never reaches 2^62
            return lo < 0 or n.entails_ge0(sub(v, lo))
        if p.args[0] == 'k' and isinstance(v, Term):
            d = sub(v, p)
            if isinstance(d, int) and d >= 0:
                return True      # an iteration counter below 2^62
        if not isinstance(v, (int, Term)) or is_ptr(v) or isinstance(v, (str,)) or v in (NULL, UNDEF):
            return False
        return n.entails_ge0(sub(v, lo)) and n.entails_ge0(sub(hi, v))

    def veq(self, n, a, b):
        if a is b:
            return True
        if isinstance(a, (str, float, tuple)) or isinstance(b, (str, float, tuple)):
            return type(a) is type(b) and a == b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        for x in (a, b):
            if x in (NULL, UNDEF):
                return False
            if isinstance(x, Term) and x.op == 'ptr':
                if not (is_ptr(a) and is_ptr(b) and a.args[0] is b.args[0]):
                    return False
                return bool(n.decide(eq(a.args[1], b.args[1])))
            if isinstance(x, Term) and self.isstr(x):
                return n.decide(mk_seq(a, b)) is True if isinstance(a, Term) and isinstance(b, Term) and self.isstr(a) and self.isstr(b) else False
        return bool(n.decide(eq(a, b)))

    def isstr(self, x):
        if isinstance(x, str):
            return True
        if x.op in ('init', 'phi'):
            return x.args[2 if x.op == 'init' else 0] == 'str'
        return x.op in ('concat', 'substr', 'pbstr', 'b64', 'bytesof', 'digest', 'strval', 'ctrunc', 'entkey', 'chr', 'rep',
                        'bytesv', 'splitpart', 'rs') or x.op == 'strfn' or (x.op == 'ret' and x.args[-1] == 'str')

    def generalise(self, a, b, c, key, bind, gbind, seen, G, n, act):
        ck = repr_cell(c)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = []
            for k, (x, y) in enumerate(zip(a, b)):
                if self.match(x, y, dict(bind), key, G, n) and self.match(x, y, bind, key, G, n):
                    r.append(x)
                else:
                    r.append(self.generalise(x, y, c + (k,), key, bind, gbind, seen, G, n, act))
            return tuple(r)
        if is_ptr(a) and is_ptr(b) and a.args[0] is b.args[0]:
            return ptr(a.args[0], self.gen_int(a.args[1], b.args[1], ck, key, bind, gbind, seen, G, n, 'o'))
        if is_ptr(a) or is_ptr(b) or a is NULL or b is NULL:
            q = seen.get(('p', a, b))
            if q is not None:
                return ptr(q, 0)
            p = T('phi', 'p', key, ck, None, None)
            while p in bind or p in gbind:
                ck += '+'
                p = T('phi', 'p', key, ck, None, None)
            seen[('p', a, b)] = p
            gbind[p] = a.args[0] if is_ptr(a) and a.args[1] == 0 else a
            bind[p] = b.args[0] if is_ptr(b) and b.args[1] == 0 else b
            return ptr(p, 0)
        sa = isinstance(a, str) or (isinstance(a, Term) and self.isstr(a))
        sb = isinstance(b, str) or (isinstance(b, Term) and self.isstr(b))
        if sa or sb:
            q = seen.get(('s', a, b))
            if q is not None:
                return q
            p = T('phi', 'str', key, ck, None, None)
            seen[('s', a, b)] = p
            gbind[p] = a
            bind[p] = b
            return p
        if isinstance(a, (float, tuple, frozenset)) or isinstance(b, (float, tuple, frozenset)) or a is UNDEF or b is UNDEF \
                or isinstance(a, Agg) or isinstance(b, Agg):
            if c[0] == 'g':
                return self.hooks.join_ghost(c[1], a, b)
            p = T('phi', 'v', key, ck, None, None)
            gbind[p] = a
            bind[p] = b
            return p
        if is_bool(a) or is_bool(b):
            p = T('phi', 'b', key, ck, 0, 1)
            gbind[p] = a
            bind[p] = b
            return p
        return self.gen_int(a, b, ck, key, bind, gbind, seen, G, n)

    def gen_int(self, a, b, ck, key, bind, gbind, seen, G, n, kind='i'):
        d = n.norm(sub(b, a))
        kap = T('phi', 'k', key, 0, 1 << 62)
        fresh_in_a = isinstance(a, Term) and self.phis(a, key)
        if isinstance(d, int) and d != 0 and not fresh_in_a:
            # a moves by a constant per iteration
            used = kap in bind and kap not in gbind
            if not used:
                if kap not in bind or bind[kap] == 1:
                    gbind[kap] = 0
                    bind[kap] = 1
                    return add(a, scale(kap, d))
        q = seen.get(('i', a, b))
        if q is not None:
            return q
        lo, hi = -(1 << 63), U64
        la, ha = bounds(a) if not isinstance(a, int) else (a, a)
        lb, hb = bounds(b) if not isinstance(b, int) else (b, b)
        lo = 0 if la >= 0 and lb >= 0 or (G.entails_ge0(a) and n.entails_ge0(b)) else lo
        if kind == 'o':
            lo, hi = max(lo, -(1 << 62)), 1 << 62
            # keep the alignment of the offsets
            from math import gcd
            w = 0
            for x in (a, b):
                k0, ps = lparts(x)
                w = gcd(w, k0)
                for _, q in ps:
                    w = gcd(w, q)
            if w > 1:
                p = T('phi', kind, key, '%s/%d' % (ck, w), lo // w, hi // w)
                if isinstance(a, Term) and p in a.subs:
                    p = T('phi', kind, key, "%s/%d'" % (ck, w), -((1 << 62) // w), hi // w)
                x, y = self.exact0(a, w), self.exact0(b, w)
                q = seen.get(('i', x, y))
                if q is not None:
                    return scale(q, w)
                while p in bind or p in gbind:
                    ck += '+'
                    p = T('phi', kind, key, '%s/%d' % (ck, w), p.args[-2], p.args[-1])
                if not (isinstance(a, Term) and p in a.subs):
                    gbind[p] = x
                    bind[p] = y
                    seen[('i', x, y)] = p
                    return scale(p, w)
        p = T('phi', kind, key, ck, lo, hi)
        if fresh_in_a and isinstance(a, Term) and a is p:
            p = T('phi', kind, key, ck + "'", -(1 << 62), hi)
        while p in bind or p in gbind:
            ck += '+'
            p = T('phi', kind, key, ck, p.args[-2], p.args[-1])
        seen[('i', a, b)] = p
        gbind[p] = a
        bind[p] = b
        return p

    def exact0(self, a, w):
        k, ps = lparts(a)
        return mklin(k // w, {x: q // w for x, q in ps})

    def facts(self, st):
        r = []
        for a, v in st.atoms.items():
            r.append(('a', a, v))
        for l in st.lin:
            r.append(('l', l, None))
        for l in st.neq:
            r.append(('n', l, None))
        for x, iv in st.fl.items():
            r.append(('f', x, iv))
        return r

    def restrict(self, newG, G, n, bind, gbind):
        """Keep in newG only the facts of G that n entails too."""
        changed = False
        m = {p: v for p, v in bind.items() if v is not p}
        # substitutions: a binding of G that n does not have is a lost fact
        for k, v in list(G.env.items()):
            kk = subst(k, m) if m else k
            vv = subst(v, m) if m else v
            x, y = n.norm(kk), n.norm(vv)
            if not (x is y or (type(x) is type(y) and x == y) or self.veq(n, x, y)):
                # keep G precise only if the key is used nowhere else
                newG.env.pop(k, None)
                newG.dirty(True)
                changed = True
        keep_a = {}
        for a, v in G.atoms.items():
            x = n.norm(subst(a, m)) if m else n.norm(a)
            d = n.decide(x)
            if d is not None and bool(d) == v:
                keep_a[a] = v
            else:
                changed = True
        keep_l = []
        for l in G.lin:
            x = subst(l, m) if m else l
            if n.entails_ge0(x):
                keep_l.append(l)
            else:
                changed = True
        keep_n = []
        for l in G.neq:
            x = n.norm(subst(l, m) if m else l)
            if n.decide(eq0(x)) is False:
                keep_n.append(l)
            else:
                changed = True
        keep_f = {}
        for x, iv in G.fl.items():
            y = n.norm(subst(x, m) if m else x)
            jv = n.finterval(y)
            lo, los, hi, his = iv
            if (jv[0] > lo or jv[0] == lo) and jv[2] <= hi:
                keep_f[x] = iv
            else:
                changed = True
        newG.atoms, newG.lin, newG.neq, newG.fl = keep_a, keep_l, keep_n, keep_f
        newG.dirty(True)
        return changed

    def candidates(self, newG, G, n, bind, gbind, key):
        """Linear invariants about the generalised values."""
        new = [p for p in gbind if p.args[-1] is not None]
        if not new:
            return
        cand = set()
        atoms = {}
        for s in (G, n):
            for l in list(s.lin) + list(s.neq):
                l = s.norm(l)
                if isinstance(l, Term):
                    for x, k in lparts(l)[1]:
                        if not (x.fresh and any(y.op == 'phi' and y.args[1] == key for y in x.fresh)):
                            atoms.setdefault(x, set()).add(abs(k))
        exprs = set()
        for obj, mm in newG.mem.items():
            for o, v in mm.items():
                if is_ptr(v):
                    v = v.args[1]
                if isinstance(v, Term) and v.op not in ('null', 'undef', 'ptr') and not self.isstr(v) and not v.subs.isdisjoint(gbind):
                    exprs.add(v)
        for f in newG.stack[-1:]:
            for v in f.regs.values():
                if is_ptr(v):
                    v = v.args[1]
                if isinstance(v, Term) and v.op not in ('null', 'undef', 'ptr') and not self.isstr(v) and not v.subs.isdisjoint(gbind):
                    exprs.add(v)
        for v in newG.ghost.values():
            if isinstance(v, Term) and not v.subs.isdisjoint(gbind) and v.op == 'lin':
                exprs.add(v)
        exprs |= set(new)
        for p in new:
            lows = [x if isinstance(x, int) else bounds(x)[0] for x in (gbind[p], bind.get(p)) if isinstance(x, (int, Term))]
            if lows and min(lows) > -(1 << 40):
                cand.add(sub(p, min(lows)))
                cand.add(sub(p, 1))
        others = set()
        for obj, mm in newG.mem.items():
            for o, v in mm.items():
                if is_ptr(v) and isinstance(v.args[1], Term):
                    others.add(v.args[1])
        for v in exprs:
            cand.add(v)
            cand.add(add(v, 1))
            for x, ks in atoms.items():
                for k in ks | {1}:
                    cand.add(sub(scale(x, k), v))
                    cand.add(sub(v, scale(x, k)))
                    cand.add(add(sub(scale(x, k), v), -1))
            for w in others:
                cand.add(sub(w, v))
        few = [p for p in new if p.args[0] in ('i', 'o')]
        if 2 <= len(few) <= 6:
            # what is left of a text: the offset and the length move against each other
            for a in range(len(few)):
                for b in range(a):
                    s2 = add(few[a], few[b])
                    for x in atoms:
                        if x.op in ('size', 'count', 'nsplit'):
                            cand.add(sub(x, s2))
                            cand.add(sub(s2, x))
                cand.add(sub(v, w))
        mg = dict(gbind)
        mn = {p: v for p, v in bind.items() if v is not p}
        add_ = []
        for l in sorted((x for x in cand if not isinstance(x, int)), key=lambda x: x.id):
            b = ge0(l)
            if isinstance(b, int):
                continue
            if newG.entails_ge0(l):
                continue
            if G.entails_ge0(subst(l, mg)) and n.entails_ge0(subst(l, mn)):
                add_.append(b.args[0])
        newG.lin += add_
        newG.dirty()


def repr_cell(c):
    if c[0] == 'm':
        return 'm%d.%s' % (c[1].id, c[2] if isinstance(c[2], int) else 't%d' % c[2].id) + ('' if len(c) < 4 else str(c[3:]))
    return repr(c)


def split_params(t):
    r = []
    d = 0
    cur = ''
    for c in t:
        if c in '<({[':
            d += 1
        elif c in '>)}]':
            if d == 0:
                break
            d -= 1
        elif c == ',' and d == 0:
            r.append(cur.strip())
            cur = ''
            continue
        cur += c
    if cur.strip():
        r.append(cur.strip())
    return r


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub',
          'fmul', 'fdiv', 'frem'}


class _Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


INLINE = _Tok('INLINE')
NORETURN = _Tok('NORETURN')


class Hooks:
    I = None
    alloc_fail = False       # memory exhaustion is outside every property
    copy_fail = False        # likewise: steps that fail only without memory

    def on_enter(self, st, fn):
        pass

    def on_leave(self, st, fr, v):
        pass

    def on_exit(self, st, fr, v):
        pass

    def on_back(self, st, fr, key):
        """About to go round a loop; may partition the state."""

    def pre_exit(self, st, fr, v):
        """About to leave the entry point; may partition the state."""

    def on_call(self, st, fr, i, fn, name, args):
        return None

    def after_model(self, st, fr, i, fn, name, args, v):
        pass

    def on_unknown(self, st, fr, i, fn, name, args):
        pass

    def on_load(self, st, fr, obj, off, ty):
        pass

    def on_store(self, st, fr, obj, off, v):
        pass

    def on_branch(self, st, fr, i, c, t):
        pass

    def on_abort(self, st, fr, i, what, detail):
        pass

    def on_loop(self, st, fr, key, kind):
        pass

    def on_fpto(self, st, fr, i, v, w, signed):
        pass

    merging = False

    def keep_cell(self, st, obj, off, v):
        return True

    def keep_fact(self, st, t):
        return True

    def is_discrete(self, st, obj, off):
        return False

    def lazy_other(self, st, obj, off, like):
        return T('init', obj, off, 'str')

    def join_ghost(self, k, a, b):
        return None

    def keep_lost(self, st):
        """A join may drop facts: remember that the path depends on a lost value."""


def _noop(self, *a, **k):
    pass


for _n in ('on_dangling', 'on_access', 'on_compare', 'on_crypto', 'on_index', 'on_vdestroy', 'on_push', 'on_insert',
           'on_imprecise', 'on_uprelease', 'on_delete', 'on_setinsert', 'on_acquire', 'on_transfer', 'on_release',
           'on_verify', 'on_verified', 'on_mac', 'on_static', 'on_mapelem'):
    setattr(Hooks, _n, _noop)
