"""C01-C08: the cache.  Every public operation is interpreted from every state
that satisfies the representation invariant, and must restore it and meet its
contract."""
import os
import math
import re
import signal
import time
from collections import namedtuple
from fractions import Fraction
from sa import shape
from sa.shape import (Lin, sym, ladd, lscale, isnum, isptr, iscond, Fork, Prune, Cut, UNDEF, State, Frame, show)
from sa.ir import Inconclusive

Node = namedtuple('Node', 'link ring dele freed new b moved oldok acc')
# b: (in table, deferred, pin, units, value, key, last_use) when first seen
Map = namedtuple('Map', 'ents absent closed vs epoch')
# ents: {eid: (key, visited)}
# calls that cannot reach the cache
HARMLESS = ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ostream', 'std::ostream', 'std::operator<<',
            'std::basic_string', 'std::operator+', 'std::to_string', 'std::basic_ios', 'std::ios_base', 'std::hex', 'std::dec', 'std::endl')
O = ('O',)
CACHE = ('p', O, 0)


def eqc(a, b):
    return ('eq', ladd(a, b, -1))


def nec(a, b):
    return ('ne', ladd(a, b, -1))


def gec(a, b):
    return ('ge', ladd(a, b, -1))


class Bad(Exception):
    """A violated obligation that ends the path."""


class Heap(shape.Interp):
    def __init__(self, prog, spec):
        super().__init__(prog)
        self.spec = spec
        m = {}
        E = [n for n in prog.structs if n.startswith('google::simple_lru_cache::SimpleLRUCacheElem<long')]
        B = [n for n in prog.structs if n.startswith('google::simple_lru_cache::SimpleLRUCacheBase<long, drv::Val, drv::Map') and n.endswith('>')]
        if not E or not B:
            raise Inconclusive('cache classes not found')
        self.E = {x[0]: x[1] for x in prog.structs[E[0]]['members']}
        self.B = {x[0]: x[1] for x in prog.structs[B[0]]['members']}
        for f in ('key', 'value', 'pin', 'units', 'next', 'prev', 'last_use_'):
            if f not in self.E:
                raise Inconclusive('no member %s in the element' % f)
        for f in ('table_', 'defer_', 'units_', 'max_units_', 'pinned_units_', 'head_', 'max_idle_', 'lru_'):
            if f not in self.B:
                raise Inconclusive('no member %s in the cache' % f)
        self.known_E = set(self.E.values())
        self.HEAD = ('p', O, self.B['head_'])
        self.NX, self.PV = self.E['next'], self.E['prev']
        self.precise = True

    # ------------------------------------------------------------ helpers
    def ob(self, st, c):
        return st.mem.get((O, self.B[c]))

    def fld(self, st, n, f):
        """Field of node n (id)."""
        return st.norm(st.mem.get((('N', n), self.E[f]), UNDEF))

    def nid(self, p):
        return p[1][1] if isptr(p) and p[1][0] == 'N' and p[2] == 0 else None

    def setnode(self, st, n, **kw):
        st.nodes[n] = st.nodes[n]._replace(**kw)

    def entry_of(self, st, m, n):
        for e in st.maps[m].ents:
            if st.mem.get((('E', m, e), 8)) == ('p', ('N', n), 0):
                return e
        return None

    def newid(self, st):
        c = st.ghost.get('ctr', 0) + 1
        st.ghost['ctr'] = c
        return c

    def fail(self, st, prop, msg):
        self.spec.violation(self, st, prop, msg)

    def need(self, st, prop, kind, cond, msg):
        """Obligation: the facts of this path entail the condition."""
        ok = cond if isinstance(cond, bool) else st.known(cond)
        self.spec.obl(prop, kind, ok)
        if not ok:
            self.fail(st, prop, msg)
        return ok

    # ------------------------------------------------------------ tables
    def table_open(self, st):
        """Can the table hold an element that is not known here?"""
        T = st.maps['T']
        return not T.closed or (T.vs is not None and any(x.startswith('tab') for x in T.vs))

    def fresh_node(self, st, kind, key=None, ring=None, pinned=False, visited=None):
        n = self.newid(st)
        s = {}
        for f in ('key', 'value', 'pin', 'units', 'last_use_'):
            s[f] = self.fresh('%s:%d' % (f, n)) if not (f == 'key' and key is not None) else key
        for f, v in s.items():
            st.mem[(('N', n), self.E[f])] = v
        A = st.assume
        A(('ge', s['units']))
        A(('ge', s['last_use_']))
        A(('ge', s['pin']) if kind == 'tab' else ('ge', ladd(s['pin'], -1)))
        if pinned:
            A(('ge', ladd(s['pin'], -1)))
        A(('ne', s['value']))
        if st.ghost.get('unpinned') and kind == 'tab':
            A(('eq', s['pin']))
        for t in st.ghost.get('now', ())[:1]:
            A(gec(t, s['last_use_']))
        if 'newval' in st.ghost:
            A(nec(st.ghost['newval'], s['value']))
        for m, x in sorted(st.nodes.items()):
            if not x.dele:
                v = self.fld(st, m, 'value')
                if isnum(v):
                    A(nec(v, s['value']))
        st.nodes[n] = Node('lazy' if kind == 'tab' else 'done', None, 0, False, False,
                           (kind == 'tab', kind == 'def', s['pin'], s['units'], s['value'], s['key'], s['last_use_']), False, None, True)
        if kind == 'tab':
            T = st.maps['T']
            e = self.newid(st)
            for k2, _ in T.ents.values():
                A(nec(s['key'], k2))
            for k2 in T.absent:
                A(nec(s['key'], k2))
            vis = visited
            if vis is None:
                vis = False
                if T.closed:
                    vis = True
                elif T.vs is not None and any(x.startswith('tab') for x in T.vs):
                    vis = st.choose(2) == 1
            if vis and 'tab0' not in (T.vs or ('tab0',)):
                A(('ge', ladd(s['pin'], -1)))
            st.maps['T'] = T._replace(ents={**T.ents, e: (s['key'], vis)})
            st.mem[(('E', 'T', e), 8)] = ('p', ('N', n), 0)
        else:
            st.ghost['ads'] = ladd(st.ghost.get('ads', 0), s['units'])
            st.ghost['adn'] = ladd(st.ghost.get('adn', 0), 1)
        return n

    def fresh_entry(self, st, m, key=None, visited=None):
        """An entry of the table that was not known so far."""
        if m == 'T':
            T = st.maps['T']
            if visited is None and T.vs is not None and any(not x.startswith('tab') for x in T.vs) and st.choose(2):
                raise Cut('an entry seen earlier in an iteration')
            n = self.fresh_node(st, 'tab', key, visited=visited)
            return self.entry_of(st, 'T', n)
        D = st.maps['D']
        e = self.newid(st)
        if key is None:
            key = self.fresh('dkey:%d' % e)
        for k2, _ in D.ents.values():
            st.assume(nec(key, k2))
        for k2 in D.absent:
            st.assume(nec(key, k2))
        n = self.fresh_node(st, 'def', key)
        h = ('p', ('N', n), 0)
        s = self.newid(st)
        st.segs[s] = (('R', e), h, h, frozenset())
        st.mem[(h[1], self.NX)] = ('seg', s)
        st.mem[(h[1], self.PV)] = ('seg', s)
        st.maps['D'] = D._replace(ents={**D.ents, e: (key, D.closed)})
        st.mem[(('E', 'D', e), 8)] = h
        return e

    def lookup(self, st, m, key):
        """The entry with the key, or None."""
        M = st.maps[m]
        if not isnum(key):
            raise Cut('lookup of an unknown key')
        for e, (k, _) in sorted(M.ents.items()):
            if st.truth(eqc(k, key)):
                return e
        for k in M.absent:
            if st.truth(eqc(k, key)):
                return None
        if M.closed and M.vs is None:
            return None
        if st.choose(2) == 0:
            return self.fresh_entry(st, m, key)
        st.maps[m] = M._replace(absent=M.absent + (key,))
        return None

    def it(self, st, m, e):
        return ('it', m, e, st.maps[m].epoch)

    def deref(self, st, it):
        if not (isinstance(it, tuple) and len(it) == 4 and it[0] == 'it'):
            raise Cut('unknown iterator')
        _, m, e, ep = it
        M = st.maps[m]
        if e is None:
            self.fail(st, 'C03', 'reads the entry of an end iterator of %s' % self.mname(m))
            raise Prune()
        if e not in M.ents:
            self.fail(st, 'C01', 'uses an iterator of %s whose entry has been erased' % self.mname(m))
            raise Prune()
        if ep != M.epoch:
            self.fail(st, 'C01', 'uses an iterator of %s after an insertion that can move its entries' % self.mname(m))
            raise Prune()
        return m, e

    def mname(self, m):
        return 'the table' if m == 'T' else 'the deferred table'

    def erase(self, st, m, e):
        M = st.maps[m]
        p = st.mem.get((('E', m, e), 8), 0)
        key = M.ents[e][0]
        self.changed(st)
        if m == 'T':
            n = self.nid(p)
            if n is not None:
                self.spec.on_removed(self, st, n)
        ents = dict(M.ents)
        del ents[e]
        st.mem.pop((('E', m, e), 8), None)
        st.maps[m] = M._replace(ents=ents, absent=M.absent + (key,))

    def place(self, st, m, e, v):
        """Value v is stored into entry e."""
        old = st.mem.get((('E', m, e), 8), 0)
        if old == v:
            return
        if m == 'T':
            self.changed(st)
            n = self.nid(old)
            if n is not None:
                self.spec.on_removed(self, st, n)
        st.mem[(('E', m, e), 8)] = v

    def changed(self, st):
        st.ghost['ovf'] = None
        if self.spec.constop(st):
            self.fail(st, 'C08', 'a read-only query changes the cache')

    def insert_entry(self, st, m, key):
        """operator[]: (entry, inserted)"""
        e = self.lookup(st, m, key)
        if e is not None:
            return e, False
        M = st.maps[m]
        self.changed(st)
        e = self.newid(st)
        st.maps[m] = M._replace(ents={**M.ents, e: (key, M.closed)}, epoch=M.epoch + 1,
                                absent=tuple(k for k in M.absent if st.norm(k) != key))
        st.mem[(('E', m, e), 8)] = 0
        return e, True

    def begin(self, st, m):
        M = st.maps[m]
        if any(v for _, v in M.ents.values()) or M.vs is not None or M.closed:
            # a new iteration
            if M.vs is not None:
                if not all(x.startswith('tab') or x in 'CU' for x in M.vs):
                    raise Cut('second iteration over a table')
                M = M._replace(vs=None, closed=False)
            M = st.maps[m] = M._replace(ents={e: (k, False) for e, (k, _) in M.ents.items()})
        return self.advance(st, m)

    def advance(self, st, m):
        M = st.maps[m]
        un = sorted(e for e, (_, v) in M.ents.items() if not v)
        n = len(un) + (0 if M.closed else 1) + (0 if un else 1)
        c = st.choose(n)
        if c < len(un):
            e = un[c]
        elif not M.closed and c == len(un):
            e = self.fresh_entry(st, m, visited=False)
        else:
            st.maps[m] = M._replace(closed=True)
            return None
        M = st.maps[m]
        st.maps[m] = M._replace(ents={**M.ents, e: (M.ents[e][0], True)})
        return e

    def mapcount(self, st, m):
        M = st.maps[m]
        if M.closed and M.vs is None:
            return len(M.ents)
        k = 'size' + m
        v = st.ghost.get(k)
        if v is None or v[0] != (M.epoch, len(M.ents)):
            s = self.fresh(k)
            st.assume(gec(s, len(M.ents)))
            st.ghost[k] = v = ((M.epoch, len(M.ents)), s)
        return v[1]

    def mapempty(self, st, m):
        M = st.maps[m]
        if M.ents or M.vs is not None:
            return 0
        if M.closed:
            return 1
        if st.choose(2) == 0:
            self.fresh_entry(st, m)
            return 0
        st.maps[m] = M._replace(closed=True)
        return 1

    # ------------------------------------------------------------ links
    def sorted_fact(self, st, a, b):
        """a is nearer to the head's next than b."""
        if a == self.HEAD or b == self.HEAD or self.nid(a) is None or self.nid(b) is None:
            return
        st.assume(gec(self.fld(st, a[1][1], 'last_use_'), self.fld(st, b[1][1], 'last_use_')))

    def resolve(self, st, n):
        """Decide where element n is linked."""
        x = st.nodes[n]
        if x.link == 'done':
            return
        p = ('p', ('N', n), 0)
        if x.link == 'lazy':
            if st.known(('eq', x.b[2])) or st.choose(2) == 0:
                self.setnode(st, n, link='float', ring='M')
            else:
                st.assume(('ge', ladd(x.b[2], -1)))
                st.mem[(('N', n), self.NX)] = 0
                st.mem[(('N', n), self.PV)] = 0
                self.setnode(st, n, link='done')
                return
        x = st.nodes[n]
        cand = [s for s in sorted(st.segs) if st.segs[s][0] == x.ring and st.segs[s][1] and st.segs[s][2] and
                'X' not in st.segs[s][3]]
        if not cand:
            raise Prune()
        s = cand[st.choose(len(cand))]
        ring, l, r, fl = st.segs.pop(s)
        if 'P' in fl:
            st.assume(('ge', ladd(x.b[2], -1)))
        a, b = self.newid(st), self.newid(st)
        st.segs[a] = (ring, l, p, fl)
        st.segs[b] = (ring, p, r, fl)
        st.mem[(l[1], l[2] + self.NX)] = ('seg', a)
        st.mem[(p[1], self.PV)] = ('seg', a)
        st.mem[(p[1], self.NX)] = ('seg', b)
        st.mem[(r[1], r[2] + self.PV)] = ('seg', b)
        self.setnode(st, n, link='done', ring=None)
        if ring == 'M':
            self.sorted_fact(st, l, p)
            self.sorted_fact(st, p, r)

    def floats(self, st, ring):
        return [n for n, x in sorted(st.nodes.items()) if x.link == 'float' and x.ring == ring and not x.freed]

    def lazies(self, st):
        return [n for n, x in sorted(st.nodes.items()) if x.link == 'lazy' and not x.freed]

    def openseg(self, st, s, side):
        """Materialise the neighbour in the segment on the given side."""
        ring, l, r, fl = st.segs[s]
        if not l or not r:
            raise Cut('reads a list segment that has been cut off')
        if 'D' in fl:
            self.fail(st, 'C05', 'the recency list still holds a destroyed element')
            raise Prune()
        opts = ['empty']
        if 'X' not in fl:
            opts += self.floats(st, ring)
        if ring == 'M':
            opts += self.lazies(st)
            if self.table_open(st):
                opts.append('fresh')
        else:
            opts.append('fresh')
        o = opts[st.choose(len(opts))]
        if o == 'empty':
            if self.floats(st, ring) and not any(z != s and y[0] == ring and y[1] and y[2] and 'X' not in y[3] for z, y in st.segs.items()):
                raise Prune()
            del st.segs[s]
            st.mem[(l[1], l[2] + self.NX)] = r
            st.mem[(r[1], r[2] + self.PV)] = l
            if ring == 'M':
                self.sorted_fact(st, l, r)
            return
        if o == 'fresh':
            if ring == 'M':
                o = self.fresh_node(st, 'tab', pinned='P' in fl)
            else:
                e = ring[1]
                k = [self.fld(st, self.nid(q), 'key') for q in (l, r) if self.nid(q) is not None]
                o = self.fresh_node(st, 'def', st.maps['D'].ents[e][0] if e in st.maps['D'].ents else k[0])
            if 'C' in fl:
                # counted when it was folded
                if ring != 'M':
                    st.ghost['ads'] = ladd(st.ghost['ads'], self.fld(st, o, 'units'), -1)
                    st.ghost['adn'] = ladd(st.ghost['adn'], -1)
                if self.spec.opname == 'updateSize' and ring != 'M':
                    g = st.ghost
                    if st.truth(eqc(self.fld(st, o, 'key'), g['k'])) and \
                            (st.truth(('eq', g['v'])) or st.truth(eqc(self.fld(st, o, 'value'), g['v']))):
                        st.assume(eqc(self.fld(st, o, 'units'), g['n']))
        elif 'P' in fl:
            st.assume(('ge', ladd(st.nodes[o].b[2], -1)))
        p = ('p', ('N', o), 0)
        self.setnode(st, o, link='done', ring=None)
        del st.segs[s]
        z = self.newid(st)
        if side == 'next':
            st.mem[(l[1], l[2] + self.NX)] = p
            st.mem[(p[1], self.PV)] = l
            st.mem[(p[1], self.NX)] = ('seg', z)
            st.mem[(r[1], r[2] + self.PV)] = ('seg', z)
            st.segs[z] = (ring, p, r, fl)
        else:
            st.mem[(r[1], r[2] + self.PV)] = p
            st.mem[(p[1], self.NX)] = r
            st.mem[(p[1], self.PV)] = ('seg', z)
            st.mem[(l[1], l[2] + self.NX)] = ('seg', z)
            st.segs[z] = (ring, l, p, fl)
        if ring == 'M':
            self.sorted_fact(st, l, p)
            self.sorted_fact(st, p, r)

    def linked(self, st, n):
        """Both neighbours lead to n."""
        p = ('p', ('N', n), 0)
        for a, b in ((self.NX, self.PV), (self.PV, self.NX)):
            v = st.mem.get((p[1], a), 0)
            if isinstance(v, tuple) and v[0] == 'seg':
                s = st.segs.get(v[1])
                if s is None or s[1 if a == self.NX else 2] != p or not s[2 if a == self.NX else 1]:
                    return False
            elif not isptr(v) or st.mem.get((v[1], v[2] + b)) != p:
                return False
        return True

    def behind_pinned(self, st, n):
        """Every element older than n is pinned."""
        seen = set()
        p = ('p', ('N', n), 0)
        while True:
            v = st.mem.get((p[1], p[2] + self.NX), 0)
            if isinstance(v, tuple) and v[0] == 'seg':
                _, l, r, fl = st.segs[v[1]]
                if 'P' not in fl or not r:
                    return False
                p = r
            elif isptr(v):
                p = v
            else:
                return False
            if p == self.HEAD:
                return True
            m = self.nid(p)
            if m is None or m in seen:
                return False
            seen.add(m)
            if not st.known(('ge', ladd(self.fld(st, m, 'pin'), -1))):
                return False

    # ------------------------------------------------------------ memory
    def load(self, st, fr, p, ty):
        if not isptr(p):
            if p == 0:
                self.fail(st, 'C05', 'reads through a null pointer')
                raise Prune()
            return self.opaque(st, ty)
        r, o = p[1], p[2]
        k = r[0]
        if k == 'A':
            v = st.mem.get((r, o), UNDEF)
            return v
        if k == 'N':
            n = r[1]
            x = st.nodes.get(n)
            if x is None:
                raise Cut('reads a forgotten element')
            if x.freed:
                self.fail(st, 'C01', 'reads an element after it was deleted')
                raise Prune()
            if o in (self.NX, self.PV):
                self.resolve(st, n)
                return self.link(st, r, o)
            v = st.mem.get((r, o))
            if v is None:
                v = st.mem[(r, o)] = self.lazycell(st, r, o, ty)
            return v
        if k == 'O':
            h = self.HEAD[2]
            if o in (h + self.NX, h + self.PV):
                return self.link(st, r, o)
            v = st.mem.get((r, o))
            if v is None:
                v = st.mem[(r, o)] = self.lazycell(st, r, o, ty)
            return v
        if k == 'E':
            M = st.maps[r[1]]
            if r[2] not in M.ents:
                self.fail(st, 'C01', 'reads an entry of %s after it was erased' % self.mname(r[1]))
                raise Prune()
            if o == 0:
                return M.ents[r[2]][0]
            if o == 8:
                return st.mem.get((r, 8), 0)
        if k == 'G':
            g = self.prog.globals.get(r[1])
            for off, t, x in (g or {}).get('init', ()) or ():
                if off == o:
                    v = self.val(st, fr, x) if isinstance(x, (tuple, list)) else x
                    return v
            return self.opaque(st, ty)
        if k == 'null':
            self.fail(st, 'C05', 'follows a null pointer')
            raise Prune()
        v = st.mem.get((r, o))
        if v is None:
            v = st.mem[(r, o)] = self.lazycell(st, r, o, ty)
        return v

    def opaque_call(self, st, fr, i, fn, name, args):
        s = fn.short if fn is not None else name
        if not s.startswith(HARMLESS):
            st.ghost['imprecise'] = True
        return super().opaque_call(st, fr, i, fn, name, args)

    def lazycell(self, st, r, o, ty):
        if ty in ('i8', 'i1'):
            s = self.fresh('cell')
            st.assume(('ge', s))
            st.assume(gec(1, s))
            return s
        return self.opaque(st, ty)

    def link(self, st, r, o):
        v = st.mem.get((r, o), 0)
        if isinstance(v, tuple) and v[0] == 'seg':
            base = self.HEAD[2] if r == O else 0
            self.openseg(st, v[1], 'next' if o - base == self.NX else 'prev')
            v = st.mem.get((r, o), 0)
        return v

    def store(self, st, fr, p, v, ty):
        if not isptr(p):
            if p == 0:
                self.fail(st, 'C05', 'writes through a null pointer')
                raise Prune()
            return
        r, o = p[1], p[2]
        k = r[0]
        if k == 'N':
            n = r[1]
            x = st.nodes.get(n)
            if x is None:
                raise Cut('writes a forgotten element')
            if x.freed:
                self.fail(st, 'C01', 'writes an element after it was deleted')
                raise Prune()
            if not x.new and self.spec.constop(st):
                self.fail(st, 'C08', 'a read-only query writes an element of the cache')
            if o in (self.NX, self.PV):
                self.resolve(st, n)
                self.setlink(st, r, o, v)
                return
            st.mem[(r, o)] = v
            return
        if k == 'O':
            if self.spec.constop(st):
                self.fail(st, 'C08', 'a read-only query writes a member of the cache')
            h = self.HEAD[2]
            if o in (h + self.NX, h + self.PV):
                self.setlink(st, r, o, v)
                return
            if o in (self.B['units_'], self.B['max_units_']) and st.mem.get((r, o)) != v:
                st.ghost['ovf'] = None
            st.mem[(r, o)] = v
            return
        if k == 'E':
            if r[2] not in st.maps[r[1]].ents:
                self.fail(st, 'C01', 'writes an entry of %s after it was erased' % self.mname(r[1]))
                raise Prune()
            if o == 8:
                self.place(st, r[1], r[2], v)
            return
        if k == 'null':
            self.fail(st, 'C05', 'writes through a null pointer')
            raise Prune()
        st.mem[(r, o)] = v

    def setlink(self, st, r, o, v):
        base = self.HEAD[2] if r == O else 0
        nx = o - base == self.NX
        old = st.mem.get((r, o), 0)
        if isinstance(v, Lin):
            raise Cut('unknown link')
        # the order is lost with the first change: judge the position now
        for q in (old, ('p', r, base)):
            n = self.nid(q)
            if n is not None and v != old and not st.nodes[n].new and not st.nodes[n].freed and self.linked(st, n):
                self.setnode(st, n, oldok=self.behind_pinned(st, n))
        if isinstance(old, tuple) and old[0] == 'seg':
            s = old[1]
            ring, l, rr, fl = st.segs[s]
            if nx:
                l = None
            else:
                rr = None
            if l is None and rr is None:
                del st.segs[s]
                if ring == 'M' and (self.table_open(st) or self.floats(st, 'M') or self.lazies(st)):
                    st.ghost['lost'] = True
                elif ring != 'M':
                    st.ghost['lostd'] = True
            else:
                st.segs[s] = (ring, l, rr, fl)
        if nx and r[0] == 'N' and v == 0 and old != 0 and old != UNDEF:
            self.setnode(st, r[1], moved=True)
        st.mem[(r, o)] = v

    # ------------------------------------------------------------ models
    def model(self, st, fr, i, fn, name, args):
        s = fn.short if fn is not None else name
        if s.startswith('drv::Map::'):
            return self.m_map(st, fr, s[len('drv::Map::'):], fn, args)
        if s == 'lru::SimpleCycleTimer::now':
            t = self.fresh('now')
            for q in st.ghost.get('now', ()):
                st.assume(gec(t, q))
            for n, x in sorted(st.nodes.items()):
                v = self.fld(st, n, 'last_use_')
                if not x.freed and isnum(v):
                    st.assume(gec(t, v))
            st.assume(('ge', t))
            st.ghost['now'] = st.ghost.get('now', ()) + (t,)
            return (t,)
        if s == 'drv::Cache::removeElement':
            self.destroy(st, args[1])
            return (None,)
        if s == 'drv::Cache::isOverfull':
            v = st.ghost.get('ovf')
            if v is None:
                v = st.choose(2)
                st.ghost['ovf'] = v
            return (v,)
        if s == 'drv::Cache::debugIterator':
            return (None,)
        if name in ('_Znwm', '_Znam'):
            n = self.newid(st)
            st.nodes[n] = Node('done', None, 0, False, True, None, False, None, True)
            return (('p', ('N', n), 0),)
        if name in ('_ZdlPvm', '_ZdlPv') and self.spec.op[2] == 'calls':
            st.ghost['ev'] = st.ghost.get('ev', ()) + (('delete', args[0]),)
            return (None,)
        if name in ('_ZdlPvm', '_ZdlPv'):
            n = self.nid(args[0])
            if args[0] == 0:
                return (None,)
            if n is None:
                raise Cut('deletes something else')
            x = st.nodes[n]
            if x.freed:
                self.fail(st, 'C01', 'deletes an element twice')
                raise Prune()
            self.setnode(st, n, freed=True)
            return (None,)
        r = self.spec.on_call(self, st, fr, s, fn, args)
        if r is not None:
            return r
        m = re.fullmatch(r'(?:llvm\.|std::|__builtin_)?(floor|ceil|trunc|round|rint|nearbyint|roundeven)(?:f|l|\.f\d+)?', s)
        if m and len(args) == 1:
            c = self.fpco(st, args[0])
            if c is not None and c[0] == 0:
                x = c[1]
                f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': int,
                     'round': lambda y: int(math.copysign(math.floor(abs(y) + Fraction(1, 2)), y))}.get(m.group(1), round)
                return (('fp', 'of', f(x)),)
            return NotImplemented
        if s in ('std::isinf', 'std::isnan', 'std::isfinite', 'std::signbit'):
            x = self.fprange(st, args[0])
            if x is None:
                return NotImplemented
            inf = x != 'nan' and x[0] == x[1] and abs(x[0]) == float('inf')
            if s == 'std::isnan':
                return (int(x == 'nan'),)
            if s == 'std::isinf':
                return (int(inf),)
            if s == 'std::isfinite':
                return (int(x != 'nan' and not inf),)
            if x != 'nan' and (x[0] > 0 or x[1] < 0 or x == (0, 0)):
                return (int(x[1] < 0),)
            return NotImplemented
        return NotImplemented

    def follow(self, fn):
        if fn.repo or fn.dem.startswith('drv::'):
            return True
        s = fn.short
        return s in ('std::max', 'std::min', 'std::swap', 'std::exchange', 'std::move', 'std::forward', 'std::addressof',
                     'std::__addressof', 'std::get', 'std::next', 'std::prev', 'std::__exchange', 'std::as_const',
                     'std::make_pair', 'std::tie') or \
            s.startswith(('std::numeric_limits::', 'std::pair::', 'std::tuple::', 'std::unique_ptr::', 'std::default_delete::', 'std::__uniq_ptr',
                          'std::_Head_base', 'std::_Tuple_impl', 'std::__get_helper', 'std::optional'))

    def destroy(self, st, v):
        if self.spec.constop(st):
            self.fail(st, 'C08', 'a read-only query destroys a value')
        for n, x in sorted(st.nodes.items()):
            w = self.fld(st, n, 'value')
            if isnum(w) and isnum(v) and st.known(eqc(w, v)) and not (x.freed and x.dele):
                if x.dele:
                    self.spec.obl('C01', 'destroyed once', False)
                    self.fail(st, 'C01', 'hands a value to the deleter a second time')
                    raise Prune()
                self.spec.obl('C01', 'destroyed once', True)
                self.need(st, 'C01', 'no pin when destroyed', ('eq', self.fld(st, n, 'pin')),
                          'hands a value to the deleter while a pin may be outstanding')
                self.spec.on_destroy(self, st, n)
                self.setnode(st, n, dele=1)
                st.ghost['ovf'] = None
                return
        self.spec.obl('C01', 'destroys a live value', False)
        self.fail(st, 'C01', 'hands a value to the deleter that no live element holds')
        raise Prune()

    def m_map(self, st, fr, s, fn, args):
        if s.startswith(('iterator::', 'const_iterator::')):
            op = s.split('::', 1)[1]
            a = args[0]
            if op in ('operator*', 'operator->'):
                m, e = self.deref(st, st.mem.get((a[1], a[2]), UNDEF))
                return (('p', ('E', m, e), 0),)
            if op == 'operator++':
                it = st.mem.get((a[1], a[2]), UNDEF)
                m, e = self.deref(st, it)
                n = self.it(st, m, self.advance(st, m))
                st.mem[(a[1], a[2])] = n
                return (it,) if len(args) > 1 else (a,)
            if op in ('operator==', 'operator!='):
                x, y = (st.mem.get((q[1], q[2]), UNDEF) for q in args[:2])
                if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'it'):
                    return (self.opaque(st, 'i1'),)
                e = x[1] == y[1] and x[2] == y[2]
                return (int(e == (op == 'operator==')),)
            return NotImplemented
        if s in ('Map', '~Map'):
            return (None,)
        p = args[0]
        if not isptr(p) or p[1] != O:
            raise Cut('unknown table')
        m = {self.B['table_']: 'T', self.B['defer_']: 'D'}.get(p[2])
        if m is None:
            raise Cut('unknown table')

        def key(a):
            return st.norm(self.load(st, fr, a, 'i64'))
        if s == 'find':
            return (self.it(st, m, self.lookup(st, m, key(args[1]))),)
        if s in ('count', 'contains'):
            return (int(self.lookup(st, m, key(args[1])) is not None),)
        if s in ('end', 'cend'):
            return (self.it(st, m, None),)
        if s in ('begin', 'cbegin'):
            return (self.it(st, m, self.begin(st, m)),)
        if s == 'at':
            e = self.lookup(st, m, key(args[1]))
            if e is None:
                self.fail(st, 'C03', 'reads an absent entry of %s' % self.mname(m))
                raise Prune()
            return (('p', ('E', m, e), 8),)
        if s == 'operator[]':
            e, _ = self.insert_entry(st, m, key(args[1]))
            return (('p', ('E', m, e), 8),)
        if s in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if s == 'insert':
                k = key(args[1])
                v = self.load(st, fr, ('p', args[1][1], args[1][2] + 8), 'ptr')
            else:
                k, v = key(args[1]), args[2]
            e, new = self.insert_entry(st, m, k)
            if new or s == 'insert_or_assign':
                self.place(st, m, e, v)
            return (('agg', {0: self.it(st, m, e), 8: int(new)}),)
        if s == 'erase':
            a = args[1]
            if isinstance(a, tuple) and a[0] == 'it':
                m2, e = self.deref(st, a)
                self.erase(st, m2, e)
                return (None,)
            e = self.lookup(st, m, key(a))
            if e is not None:
                self.erase(st, m, e)
            return (int(e is not None),)
        if s == 'clear':
            self.changed(st)
            M = st.maps[m]
            for e in list(M.ents):
                n = self.nid(st.mem.get((('E', m, e), 8), 0))
                if m == 'T' and n is not None:
                    self.spec.on_removed(self, st, n)
                st.mem.pop((('E', m, e), 8), None)
            bad = not M.closed or (M.vs is not None and any(x.startswith('tab') for x in M.vs))
            self.need(st, 'C01', 'clearing loses no element', not bad,
                      'clears %s while it may hold elements that were neither destroyed nor deferred' % self.mname(m))
            st.maps[m] = Map({}, (), True, None, M.epoch + 1)
            return (None,)
        if s == 'size':
            return (self.mapcount(st, m),)
        if s == 'empty':
            return (self.mapempty(st, m),)
        if s in ('resize', 'rehash', 'reserve'):
            M = st.maps[m]
            st.maps[m] = M._replace(epoch=M.epoch + 1)
            return (None,)
        return NotImplemented

    # ------------------------------------------------------------ seconds
    LIM = Fraction(1 << 63, 1000000)
    RANGE = {'neg': (None, 0), 'small': (0, Fraction(9200000000000)), 'mid': (Fraction(9200000000000), Fraction(9300000000000)),
             'big': (Fraction(9300000000000), None)}

    def fpco(self, st, v):
        """(a, b): the value is a * seconds + b, in exact arithmetic; None if unknown."""
        if isinstance(v, int):
            return (0, Fraction(v))
        if not (isinstance(v, tuple) and v and v[0] == 'fp'):
            return None
        if v[1] == 'arg':
            r = st.ghost.get('fp')
            return (Fraction(0), r[1]) if isinstance(r, tuple) else (Fraction(1), Fraction(0))
        if v[1] == 'const':
            try:
                return (Fraction(0), Fraction(float(v[2])))
            except (ValueError, OverflowError):
                f = float(v[2])
                return None if f != f else ('inf', 1 if f > 0 else -1)
        if v[1] == 'of':
            return (Fraction(0), Fraction(v[2])) if isinstance(v[2], int) else None
        if v[1] in ('fmul', 'fadd', 'fsub', 'fdiv'):
            a, b = self.fpco(st, v[2]), self.fpco(st, v[3])
            if a is None or b is None or a[0] == 'inf' or b[0] == 'inf':
                return None
            if v[1] == 'fadd':
                return (a[0] + b[0], a[1] + b[1])
            if v[1] == 'fsub':
                return (a[0] - b[0], a[1] - b[1])
            if v[1] == 'fmul' and a[0] == 0:
                return (b[0] * a[1], b[1] * a[1])
            if v[1] == 'fmul' and b[0] == 0:
                return (a[0] * b[1], a[1] * b[1])
            if v[1] == 'fdiv' and b[0] == 0 and b[1] != 0:
                return (a[0] / b[1], a[1] / b[1])
        return None

    def fprange(self, st, v):
        """Range of the value: 'nan' or (low, high) with None for infinite and flags for +-inf itself."""
        c = self.fpco(st, v)
        if c is None:
            return None
        inf = float('inf')
        if c[0] == 'inf':
            return (c[1] * inf, c[1] * inf)
        a, b = c
        if a == 0:
            return (b, b)
        r = st.ghost.get('fp')
        if r is None:
            return None
        if r == 'nan':
            return 'nan'
        if r in ('-inf', '+inf'):
            x = inf if (r == '+inf') == (a > 0) else -inf
            return (x, x)
        lo, hi = self.RANGE[r]
        # finite numbers are less than infinite ones
        huge = Fraction(10) ** 400
        lo, hi = a * (-huge if lo is None else lo) + b, a * (huge if hi is None else hi) + b
        return (lo, hi) if a > 0 else (hi, lo)

    def i_fcmp(self, st, fr, i):
        a, b = self.val(st, fr, i.a[0]), self.val(st, fr, i.a[1])
        x, y = self.fprange(st, a), self.fprange(st, b)
        p = i.x['p']
        r = None
        if p in ('true', 'false'):
            r = int(p == 'true')
        elif p in ('ord', 'uno'):
            if x is not None and y is not None:
                r = int((x == 'nan' or y == 'nan') == (p == 'uno'))
        elif x == 'nan' or y == 'nan':
            r = int(p[0] == 'u')
        elif x is not None and y is not None:
            q = p[1:]
            if q in ('gt', 'ge'):
                x, y = y, x
                q = {'gt': 'lt', 'ge': 'le'}[q]
            # open upper ends: the regions are half open, only "neg" excludes its bound 0
            if q == 'lt':
                r = 1 if x[1] < y[0] or (x[1] == y[0] and st.ghost.get('fp') == 'neg' and x[0] != x[1]) else 0 if x[0] >= y[1] else None
            elif q == 'le':
                r = 1 if x[1] <= y[0] else 0 if x[0] > y[1] or (x[0] == y[1] and st.ghost.get('fp') == 'neg' and y[0] != y[1]) else None
            elif q in ('eq', 'ne'):
                if x[0] == x[1] == y[0] == y[1]:
                    r = int(q == 'eq')
                elif x[1] < y[0] or y[1] < x[0] or st.ghost.get('fp') == 'neg' and (x[1] <= y[0] or y[1] <= x[0]):
                    r = int(q == 'ne')
        if r is None:
            r = self.opaque(st, 'i1')
            if st.ghost.get('fp') != 'mid':
                st.ghost['imprecise'] = True
        fr.regs[i.d] = r
        fr.idx += 1
        return st

    def i_fptosi(self, st, fr, i):
        v = self.val(st, fr, i.a[0])
        c = self.fpco(st, v)
        r = st.ghost.get('fp')
        x = None
        if c is not None and c[0] != 'inf' and c[0] == 0:
            x = int(c[1])
        elif c is not None and c[0] != 'inf' and r == 'small':
            x = sym('us') if c == (1000000, 0) else sym('int(%s*seconds%+d)' % c)
        elif r in ('mid', 'small'):
            x = None
        elif c is not None and r is not None:
            self.fail(st, 'C07', 'converts a number of seconds that is out of range')
            raise Prune()
        if x is None:
            x = self.fresh('unk')
        fr.regs[i.d] = x
        fr.idx += 1
        return st

    i_fptoui = i_fptosi

    def i_fneg(self, st, fr, i):
        fr.regs[i.d] = ('fp', 'fmul', ('fp', 'const', '-1.0'), self.val(st, fr, i.a[0]))
        fr.idx += 1
        return st

    def i_fpext(self, st, fr, i):
        fr.regs[i.d] = self.val(st, fr, i.a[0])
        fr.idx += 1
        return st

    # ------------------------------------------------------------ events
    def over(self, st):
        if st.ghost.get('ovf') == 1:
            return True
        return st.known(('ge', ladd(ladd(self.ob(st, 'units_'), self.ob(st, 'max_units_'), -1), -1)))

    def on_branch(self, st, fr, i, t):
        if not st.ghost.get('lic') and fr.fn.repo and self.over(st):
            st.ghost['lic'] = True

    def on_exit(self, st, fr, v):
        self.spec.on_exit(self, st, v)


# ---------------------------------------------------------------- operations
# name -> (arguments, removal rule, flags)
#  arguments: C cache, K key, V value, N units, O options, F floating point, S output, B/W output cells
OPS = {
    'construct': ('CM', 'none', 'init'),
    'setMaxSize': ('CM', 'evict', ''),
    'setMaxIdleSeconds': ('CF', 'expire', ''),
    'setAgeBasedEviction': ('CF', 'expire', ''),
    'lookup': ('CK', 'expire', ''),
    'lookupWithOptions': ('CKO', 'expire', ''),
    'release': ('CKV', 'own', 'own'),
    'releaseWithOptions': ('CKVO', 'own', 'own'),
    'insert': ('CKVN', 'replace', 'newval'),
    'insertPinned': ('CKVN', 'replace', 'newval'),
    'updateSize': ('CKVN', 'evict', ''),
    'stillInUse1': ('CK', 'none', 'const'),
    'stillInUse2': ('CKV', 'none', 'const'),
    'remove': ('CK', 'key', ''),
    'removeAll': ('C', 'any', ''),
    'removeUnpinned': ('C', 'unpinned', ''),
    'clear': ('C', 'any', 'unpinned'),
    'removeExpiredEntries': ('C', 'expire', ''),
    'size': ('C', 'none', 'const'),
    'entries': ('C', 'none', 'const'),
    'deferredSize': ('C', 'none', 'const'),
    'deferredEntries': ('C', 'none', 'const'),
    'pinnedSize': ('C', 'none', 'const'),
    'maxSize': ('C', 'none', 'const'),
    'age': ('C', 'none', 'const'),
    'lastUse': ('CK', 'none', 'const'),
    'insertion': ('CK', 'none', 'const'),
    'debugOutput': ('CS', 'none', 'const'),
    'summary': ('CS', 'none', 'const'),
    'resizeTable': ('CM', 'none', ''),
    'iterate': ('CS', 'none', 'const'),
    'scoped': ('CKBW', 'none', 'calls'),
    'scopedWithOptions': ('CKOBW', 'none', 'calls'),
    'plainRemove': ('XV', 'none', 'calls'),
    'deleterRemove': ('XV', 'none', 'calls'),
}
# which operations each property is decided on
CONST = [o for o, x in OPS.items() if x[2] == 'const']
MUT = [o for o, x in OPS.items() if x[2] not in ('const', 'calls')]
PROPS = {
    'C01': MUT + ['plainRemove', 'deleterRemove'],
    'C02': MUT + ['size', 'pinnedSize', 'deferredSize', 'deferredEntries'],
    'C03': MUT + ['stillInUse1', 'stillInUse2'],
    'C04': ['construct', 'setMaxSize', 'release', 'releaseWithOptions', 'insert', 'insertPinned', 'updateSize', 'maxSize'],
    'C05': MUT,
    'C06': MUT + ['lastUse', 'insertion', 'age'],
    'C07': MUT,
    'C08': CONST + ['scoped', 'scopedWithOptions'],
}


class CacheSpec:
    drivers = ('drivers/cache.cc',)
    rule = ('every public operation of the cache, interpreted over linked elements, list segments of unknown length and '
            'tables of unknown content, from every state that satisfies the representation invariant: it must restore '
            'the invariant and meet its contract on every path')
    assumptions = ('keys compare equal only if they are the same key', 'unit totals and times do not overflow',
                   'the clock does not run backwards', 'no value is inserted twice, and only pins that were taken are released',
                   'the table is a map from keys to elements; an insertion may invalidate its iterators',
                   'the deleter and the overridden predicates do not call back into the cache',
                   'the overfull predicate depends on units and entries only')

    def __init__(self, P, only=None):
        self.P, self.only = P, only
        self.viol, self.notes, self.oblig, self.disch = {}, {}, {}, {}
        self.sites, self.stats = {}, {}
        self.entry = '?'
        self.tier = 'quick'
        self.phase = 'bounded'
        self.op = None

    def want(self, p):
        return self.only is None or p in self.only

    # ------------------------------------------------------------ results
    def obl(self, prop, kind, ok):
        if not self.want(prop) or self.phase != 'prove':
            return
        k = (prop, kind)
        self.oblig[k] = self.oblig.get(k, 0) + 1
        if ok:
            self.disch[k] = self.disch.get(k, 0) + 1

    def violation(self, H, st, prop, msg):
        if not self.want(prop):
            return
        fr = None
        for f in reversed(st.stack):
            if f.fn.repo:
                fr = f
                break
        fn, where = '?', '?'
        if fr is not None:
            i = fr.fn.blocks[fr.blk][fr.idx]
            k = fr.idx
            while i.line is None and k > 0:
                k -= 1
                i = fr.fn.blocks[fr.blk][k]
            fn, where = fr.fn.short, self.P.fname(fr.fn, i.line)
        if fr is None or len(st.stack) == 1:
            fn, where = self.entry, 'end of the operation'
        path = []
        t = st.path
        while t is not None:
            t, x = t
            path.append(x)
        path.reverse()
        d = self.viol if self.phase == 'bounded' and not st.ghost.get('imprecise') else self.notes
        key = (prop, fn, where, msg) if d is self.viol else (prop, fn, where, msg + ' (after folding)')
        if key not in d or len(path) < len(d[key]['path']):
            d[key] = {'property': prop, 'function': fn, 'where': where, 'what': msg, 'entry': self.entry, 'path': path,
                      'callstack': [f.fn.short for f in st.stack],
                      'facts': [show(g) + ' >= 0' for g in st.facts.ges] + [show(g) + ' != 0' for g in st.facts.nes]}
            if d is self.notes:
                d[key]['imprecision'] = 'states joined at a loop'

    def constop(self, st):
        return self.op is not None and self.op[2] == 'const'

    # ------------------------------------------------------------ events
    def on_call(self, H, st, fr, s, fn, args):
        if self.op[2] != 'calls':
            return None
        c = 'lru::SimpleLRUCacheBase::'
        ev = st.ghost.get('ev', ())

        def key(a):
            return st.norm(H.load(st, fr, a, 'i64'))
        if s in (c + 'lookup', c + 'lookupWithOptions'):
            r = H.fresh('found')
            u = H.load(st, fr, args[2], 'i8') if len(args) > 2 else 1
            st.ghost['ev'] = ev + (('lookup', args[0], key(args[1]), r, u),)
            return (r,)
        if s in (c + 'release', c + 'releaseWithOptions'):
            u = H.load(st, fr, args[3], 'i8') if len(args) > 3 else 1
            st.ghost['ev'] = ev + (('release', args[0], key(args[1]), args[2], u),)
            return (None,)
        if s in ('drv::Val::~Val', 'drv::Del::operator()'):
            st.ghost['ev'] = ev + ((s, args[-1]),)
            return (None,)
        return None

    def expired(self, H, st, n):
        """Known to be older than the limit."""
        mi = H.ob(st, 'max_idle_')
        b = st.nodes[n].b
        lu = b[6] if b else H.fld(st, n, 'last_use_')
        return st.known(('ge', mi)) and any(st.known(('ge', ladd(ladd(ladd(t, mi, -1), lu, -1), -1))) for t in st.ghost.get('now', ()))

    def on_removed(self, H, st, n):
        rule = self.op[1]
        x = st.nodes[n]
        if rule == 'any':
            return
        if rule == 'none':
            H.need(st, 'C03', 'nothing else is removed', False, 'removes an entry from the table')
        elif rule == 'expire':
            H.need(st, 'C07', 'only expired entries are removed', self.expired(H, st, n),
                   'removes an entry that is not known to be older than the limit')
        elif rule == 'key':
            H.need(st, 'C03', 'nothing else is removed', eqc(H.fld(st, n, 'key'), st.ghost['k']), 'removes the entry of another key')
        elif rule == 'unpinned':
            H.need(st, 'C03', 'only unpinned entries are removed', ('eq', H.fld(st, n, 'pin')), 'removes an entry that is pinned')
        else:
            if rule == 'replace' and not x.new and st.known(eqc(H.fld(st, n, 'key'), st.ghost['k'])):
                return
            if not x.dele:
                H.need(st, 'C04', 'evicted entries are unpinned', ('eq', H.fld(st, n, 'pin')), 'evicts an entry that is pinned')

    def on_destroy(self, H, st, n):
        rule = self.op[1]
        x = st.nodes[n]
        if rule not in ('own', 'replace', 'evict'):
            return
        if rule == 'replace' and not x.new and st.known(eqc(H.fld(st, n, 'key'), st.ghost['k'])):
            return
        if x.b and x.b[1]:
            return
        H.need(st, 'C04', 'evicts only while overfull', bool(st.ghost.get('lic')),
               'evicts an entry without having found the cache overfull')
        st.ghost['lic'] = False
        if n == st.ghost.get('own') or x.new:
            return
        ok = H.behind_pinned(st, n) if x.link == 'done' and H.linked(st, n) else x.oldok
        H.need(st, 'C04', 'evicts the oldest unpinned entry', bool(ok), 'evicts an entry that is not the least recently used unpinned one')

    # ------------------------------------------------------------ start states
    def starts(self, H, op, own=None):
        if 'F' not in OPS[op][0]:
            yield self.start(H, op, own)
            return
        mode = 1 if op == 'setMaxIdleSeconds' else 0
        points = [('at', Fraction(x)) for x in (0, Fraction(1, 4), Fraction(3, 2), 1000000 + Fraction(3, 4))]
        for r in ['nan', '-inf', 'neg', 'small', 'mid', 'big', '+inf'] + points:
            for c in (('eq', ladd(sym('max_idle_'), 1)), ('ge', sym('max_idle_'))):
                st, args = self.start(H, op, own)
                st.ghost['fp'] = r
                if r == 'small':
                    st.assume(('ge', sym('us')))
                st.assume(c)
                if c[0] == 'ge':
                    st.assume(eqc(sym('lru_'), mode))
                yield st, args

    def start(self, H, op, own=None):
        st = State()
        g = st.ghost
        argspec, rule, flag = OPS[op]
        g['ctr'] = 0
        B = H.B
        st.maps['T'] = Map({}, (), False, None, 0)
        st.maps['D'] = Map({}, (), False, None, 0)
        if flag != 'init':
            vt = [n for n in self.P.globals if n == '_ZTVN3drv5CacheE']
            st.mem[(O, 0)] = ('p', ('G', vt[0]), 16)
            for f in ('units_', 'max_units_', 'pinned_units_', 'max_idle_', 'lru_'):
                st.mem[(O, B[f])] = sym(f)
            st.assume(('ge', sym('units_')))
            st.assume(('ge', sym('pinned_units_')))
            st.assume(('ge', ladd(sym('max_idle_'), 1)))
            st.assume(('ge', sym('lru_')))
            st.assume(gec(1, sym('lru_')))
            h = B['head_']
            st.mem[(O, h + H.E['pin'])] = 0
            st.mem[(O, h + H.E['units'])] = 0
            st.mem[(O, h + H.E['value'])] = 0
            st.mem[(O, h + H.E['key'])] = 0
            st.mem[(O, h + H.E['last_use_'])] = -1
            st.mem[(O, h + H.NX)] = ('seg', 0)
            st.mem[(O, h + H.PV)] = ('seg', 0)
            st.segs[0] = ('M', H.HEAD, H.HEAD, frozenset())
            g['U0'], g['P0'] = sym('units_'), sym('pinned_units_')
        else:
            g['U0'] = g['P0'] = 0
        if flag == 'unpinned':
            g['unpinned'] = True
            st.maps['D'] = Map({}, (), True, None, 0)
            st.mem[(O, B['pinned_units_'])] = 0
            g['P0'] = 0
        args = []
        for c in argspec:
            if c == 'C':
                args.append(CACHE)
            elif c == 'K':
                st.mem[(('K',), 0)] = g['k'] = sym('k')
                args.append(('p', ('K',), 0))
            elif c == 'V':
                g['v'] = sym('v')
                args.append(sym('v'))
            elif c == 'N':
                g['n'] = sym('n')
                st.assume(('ge', sym('n')))
                args.append(sym('n'))
            elif c == 'M':
                g['n'] = sym('n')
                args.append(sym('n'))
            elif c == 'O':
                st.assume(('ge', sym('upd')))
                st.assume(gec(1, sym('upd')))
                st.mem[(('OPT',), 0)] = g['upd'] = sym('upd')
                args.append(('p', ('OPT',), 0))
            elif c == 'X':
                args.append(('p', ('X', 'X'), 0))
            elif c == 'F':
                args.append(('fp', 'arg', 'seconds'))
            else:
                args.append(('p', ('X', c), 0))
        if 'upd' not in g:
            g['upd'] = 1
        if op in ('plainRemove', 'deleterRemove'):
            st.assume(('ne', sym('v')))
        if flag == 'newval':
            st.assume(('ne', sym('v')))
            g['newval'] = sym('v')
        if own == 'tab':
            n = H.fresh_node(st, 'tab', sym('k'))
            st.assume(('ge', ladd(H.fld(st, n, 'pin'), -1)))
        elif own == 'head':
            e = H.fresh_entry(st, 'D', sym('k'))
            n = H.nid(st.mem[(('E', 'D', e), 8)])
        elif own == 'deferred':
            e = H.fresh_entry(st, 'D', sym('k'))
            n = H.fresh_node(st, 'def', sym('k'))
            H.setnode(st, n, link='float', ring=('R', e))
        if own:
            st.assume(eqc(H.fld(st, n, 'value'), sym('v')))
            g['own'] = n
        return st, args

    # ------------------------------------------------------------ the end of an operation
    def ring(self, H, st, start, prop, what):
        """Walk a ring: list of elements and segments in order; None if broken."""
        out = []
        p = start
        seen = set()
        while True:
            v = st.mem.get((p[1], p[2] + H.NX), 0)
            if isinstance(v, tuple) and v[0] == 'seg':
                s = st.segs.get(v[1])
                if s is None or s[1] != p or not s[2] or st.mem.get((s[2][1], s[2][2] + H.PV)) != v:
                    H.need(st, prop, what + ' is circular', False, what + ' is cut: a part of it is not reachable in both directions')
                    return None
                out.append(('seg', s[3]))
                q = s[2]
            elif isptr(v):
                if st.mem.get((v[1], v[2] + H.PV)) != p:
                    H.need(st, prop, what + ' is circular', False, what + ' is inconsistent: next and prev of neighbours disagree')
                    return None
                q = v
            else:
                H.need(st, prop, what + ' is circular', False, what + ' ends in a null pointer')
                return None
            if q == start:
                H.need(st, prop, what + ' is circular', True, '')
                return out
            if q in seen:
                H.need(st, prop, what + ' is circular', False, what + ' does not return to its head')
                return None
            seen.add(q)
            n = H.nid(q)
            if n is None:
                H.need(st, prop, what + ' is circular', False, what + ' leads to something that is no element')
                return None
            out.append(('node', n))
            p = q

    def settle(self, H, st):
        """Make decisions the checks at the end of an operation depend on."""
        for n, x in sorted(st.nodes.items()):
            if x.freed or x.dele:
                continue
            if x.link == 'lazy' and H.fld(st, n, 'pin') != st.norm(x.b[2]):
                H.resolve(st, n)

    def inD(self, H, st):
        """Elements on known deferred rings -> entry"""
        r = {}
        for e in sorted(st.maps['D'].ents):
            h = st.mem.get((('E', 'D', e), 8), 0)
            n = H.nid(h)
            if n is None:
                H.need(st, 'C01', 'deferred entries hold elements', False, 'leaves an entry of the deferred table without an element')
                continue
            w = self.ring(H, st, h, 'C01', 'a deferred list')
            if w is None:
                continue
            for kind, m in [('node', n)] + w:
                if kind == 'node':
                    r[m] = e
            for m in H.floats(st, ('R', e)):
                r[m] = e
        return r

    def on_exit(self, H, st, v):
        if self.op[2] == 'calls':
            getattr(self, 'post_' + self.opname)(H, st, v)
            return
        self.settle(H, st)
        g = st.ghost
        inD = self.inD(H, st)
        T = st.maps['T']
        inT = {}
        for e in sorted(T.ents):
            p = st.mem.get((('E', 'T', e), 8), 0)
            n = H.nid(p)
            if n is None:
                H.need(st, 'C03', 'table entries hold elements', False, 'leaves a table entry without an element')
                continue
            inT[n] = e
            x = st.nodes[n]
            if x.dele or x.freed:
                H.need(st, 'C03', 'table entries hold live elements', False, 'leaves a destroyed element in the table')
                continue
            if n in inD:
                H.need(st, 'C03', 'table entries hold live elements', False, 'leaves a removed element in the table')
                continue
            H.need(st, 'C03', 'table keys', eqc(T.ents[e][0], H.fld(st, n, 'key')), 'an element is in the table under another key')
        if T.vs is not None and not T.vs <= {'tab0', 'tab+'}:
            H.need(st, 'C03', 'table entries hold live elements', False, 'leaves removed elements in the table')
        # the recency list
        main = self.ring(H, st, H.HEAD, 'C05', 'the recency list')
        onlist = set()
        if main is not None:
            last = None
            for kind, m in main:
                if kind == 'seg':
                    if 'D' in m:
                        H.need(st, 'C05', 'list holds live elements', False, 'leaves a destroyed element on the recency list')
                    continue
                onlist.add(m)
                x = st.nodes[m]
                if x.freed or x.dele:
                    H.need(st, 'C05', 'list holds live elements', False, 'leaves a destroyed element on the recency list')
                    continue
                H.need(st, 'C05', 'list holds present elements', m in inT, 'leaves an element on the recency list that is not in the table')
                if last is not None:
                    H.need(st, 'C06', 'list is ordered', gec(H.fld(st, last, 'last_use_'), H.fld(st, m, 'last_use_')),
                           'the recency list is not in the order of the time stamps')
                last = m
            onlist |= set(H.floats(st, 'M'))
            if H.floats(st, 'M') and not any(k == 'seg' for k, _ in main):
                H.need(st, 'C05', 'list is complete', False, 'an unpinned element is no longer on the recency list')
            if g.get('lost') and H.table_open(st):
                H.need(st, 'C05', 'list is complete', False, 'a part of the recency list is dropped')
        for n, e in inT.items():
            x = st.nodes[n]
            if x.link == 'lazy' or n in onlist or x.dele or x.freed or main is None:
                continue
            H.need(st, 'C05', 'list is complete', ('ge', ladd(H.fld(st, n, 'pin'), -1)),
                   'a present unpinned element is not on the recency list')
            H.need(st, 'C05', 'links off the list', all(st.mem.get((('N', n), o), 0) == 0 for o in (H.NX, H.PV)),
                   'an element that is off the recency list keeps links into it')
        if g.get('lostd'):
            H.need(st, 'C01', 'deferred elements stay reachable', False, 'a part of a deferred list is dropped')
        # every element
        for n, x in sorted(st.nodes.items()):
            if x.freed:
                H.need(st, 'C01', 'values are destroyed', bool(x.dele), 'deletes an element whose value is never handed to the deleter')
            if x.dele or x.freed:
                continue
            w = 'the new element' if x.new else 'an element'
            H.need(st, 'C01', 'no element is lost', n in inT or n in inD, w + ' is neither present nor deferred nor destroyed')
            if n in inD:
                H.need(st, 'C01', 'deferred elements are pinned', ('ge', ladd(H.fld(st, n, 'pin'), -1)),
                       'a removed element without a pin stays on the deferred list and is not destroyed')
                H.need(st, 'C03', 'deferred keys', eqc(st.maps['D'].ents[inD[n]][0], H.fld(st, n, 'key')),
                       'an element is deferred under another key')
            self.unchanged(H, st, n, n in inT)
        # accounts
        eu, ep = g['U0'], g['P0']
        for n, x in sorted(st.nodes.items()):
            live = not (x.dele or x.freed)
            if x.b:
                eu = ladd(eu, x.b[3], -1)
            if live:
                eu = ladd(eu, self.units(H, st, n))
            wasp = x.b and x.b[0]
            isp = live and n in inT
            if wasp and isp and st.norm(x.b[2]) == H.fld(st, n, 'pin') and st.norm(x.b[3]) == H.fld(st, n, 'units'):
                continue
            if wasp and st.truth(('ge', ladd(x.b[2], -1))):
                ep = ladd(ep, x.b[3], -1)
            if isp and st.truth(('ge', ladd(H.fld(st, n, 'pin'), -1))):
                ep = ladd(ep, self.units(H, st, n))
        D = st.maps['D']
        noT = T.closed and T.vs is None and not inT
        if noT:
            st.assume(('eq', ep))
            if D.closed and D.vs is None and not inD:
                st.assume(('eq', eu))
        H.need(st, 'C02', 'size accounts', eqc(H.ob(st, 'units_'), eu), 'size() is not the total of the live values')
        H.need(st, 'C02', 'pinned size accounts', eqc(H.ob(st, 'pinned_units_'), ep), 'pinnedSize() is not the total of the pinned present values')
        getattr(self, 'post_' + self.opname, self.post_default)(H, st, v, inT, inD, main)

    def units(self, H, st, n):
        u = H.fld(st, n, 'units')
        if not isnum(u):
            H.need(st, 'C02', 'size accounts', False, 'the units of an element are not set')
            return 0
        return u

    def unchanged(self, H, st, n, present):
        """What no operation but the one on this element may change."""
        x = st.nodes[n]
        if not x.b:
            return
        H.need(st, 'C03', 'values stay', eqc(H.fld(st, n, 'value'), x.b[4]), 'changes the value of an element')
        H.need(st, 'C03', 'keys stay', eqc(H.fld(st, n, 'key'), x.b[5]), 'changes the key of an element')
        tgt = n == st.ghost.get('own') or n == st.ghost.get('hit')
        if not tgt and not self.opname.startswith('lookup'):
            H.need(st, 'C03', 'pins stay', eqc(H.fld(st, n, 'pin'), x.b[2]), 'changes the pins of another element')
        if not tgt:
            H.need(st, 'C06', 'stamps stay', eqc(H.fld(st, n, 'last_use_'), x.b[6]), 'changes the time stamp of an element')
            if x.moved and present and not self.opname.startswith('lookup'):
                H.need(st, 'C06', 'positions stay', False, 'moves another element on the recency list')
        if self.opname != 'updateSize':
            H.need(st, 'C02', 'units stay', eqc(H.fld(st, n, 'units'), x.b[3]), 'changes the units of an element')

    # ------------------------------------------------------------ contracts
    def post_default(self, H, st, v, inT, inD, main):
        pass

    def may_have(self, H, st, key, inT):
        """(element, certain) the table has for the key at the end."""
        T = st.maps['T']
        for e, (k, _) in sorted(T.ents.items()):
            if st.truth(eqc(k, key)):
                return H.nid(st.mem.get((('E', 'T', e), 8), 0)), True
        if any(st.known(eqc(k, key)) for k in T.absent) or not H.table_open(st):
            return None, True
        return None, False

    def lim_units(self, H, st):
        return st.known(gec(H.ob(st, 'max_units_'), H.ob(st, 'units_')))

    def within(self, H, st, main):
        """Within the limit, or nothing evictable is left."""
        if st.ghost.get('ovf') == 0 and self.lim_units(H, st):
            return True
        if main is None:
            return False
        may = H.table_open(st)
        for kind, m in main:
            if kind == 'seg':
                if may and 'P' not in m:
                    return False
            elif not st.nodes[m].dele and not st.known(('ge', ladd(H.fld(st, m, 'pin'), -1))):
                return False
        if all('P' in m for kind, m in main if kind == 'seg'):
            return True
        for n in H.floats(st, 'M') + H.lazies(st):
            if not st.known(('ge', ladd(H.fld(st, n, 'pin'), -1))):
                return False
        return True

    def need_within(self, H, st, main):
        H.need(st, 'C04', 'within the limit at the end', self.within(H, st, main),
               'ends over the limit although an unpinned entry may be left')

    def stamped(self, H, st, n):
        lu = H.fld(st, n, 'last_use_')
        return any(st.norm(t) == lu for t in st.ghost.get('now', ())) or any(st.known(eqc(lu, t)) for t in st.ghost.get('now', ()))

    def post_construct(self, H, st, v, inT, inD, main):
        for f, w, p in (('units_', 0, 'C02'), ('pinned_units_', 0, 'C02'), ('max_units_', st.ghost['n'], 'C04'), ('max_idle_', -1, 'C07'),
                        ('lru_', 1, 'C06')):
            x = H.ob(st, f)
            H.need(st, p, 'a new cache is empty', isnum(x) and st.known(eqc(x, w)), 'a new cache does not start with %s == %s' % (f, show(w)))
        H.need(st, 'C05', 'a new cache is empty', main == [], 'the recency list of a new cache is not empty')

    def post_setMaxSize(self, H, st, v, inT, inD, main):
        H.need(st, 'C04', 'the limit is the given one', eqc(H.ob(st, 'max_units_'), st.ghost['n']), 'the limit is not the given number of units')
        self.need_within(H, st, main)

    def settings(self, H, st):
        """Members only their own operations change."""
        for f, p in (('max_units_', 'C04'), ('max_idle_', 'C07'), ('lru_', 'C06')):
            H.need(st, p, 'settings stay', eqc(H.ob(st, f), sym(f)), 'changes %s' % f)

    def post_updateSize(self, H, st, v, inT, inD, main):
        self.settings(H, st)
        g = st.ghost
        T = st.maps['T']
        hit = False
        for n, x in sorted(st.nodes.items()):
            if x.freed or not x.b:
                continue
            same = st.truth(eqc(H.fld(st, n, 'key'), g['k'])) and (st.truth(('eq', g['v'])) or st.truth(eqc(H.fld(st, n, 'value'), g['v'])))
            if same and x.b[0]:
                hit = True
                H.need(st, 'C02', 'updateSize sets the units', eqc(H.fld(st, n, 'units'), g['n']), 'updateSize leaves the units of the entry unchanged')
            elif not same:
                H.need(st, 'C02', 'units stay', eqc(H.fld(st, n, 'units'), x.b[3]), 'updateSize changes the units of another element')
        if not hit and n_known(H, st, g['k']) is None:
            H.need(st, 'C02', 'updateSize finds the entry', False, 'updateSize does not look at the entry of the key')
        if not hit:
            for n in inD:
                x = st.nodes[n]
                if not x.freed and st.truth(eqc(H.fld(st, n, 'key'), g['k'])) and \
                        (st.truth(('eq', g['v'])) or st.truth(eqc(H.fld(st, n, 'value'), g['v']))):
                    H.need(st, 'C02', 'updateSize sets the units', eqc(H.fld(st, n, 'units'), g['n']),
                           'updateSize leaves the units of the deferred value unchanged')
                    hit = True
            for e, (k, _) in sorted(st.maps['D'].ents.items()):
                if st.truth(eqc(k, g['k'])) and (not hit or st.truth(('eq', g['v']))):
                    w = self.ring(H, st, st.mem[(('E', 'D', e), 8)], 'C01', 'a deferred list') or []
                    H.need(st, 'C02', 'updateSize finds the value', all(m != 'seg' or 'C' in fl for m, fl in w),
                           'updateSize may leave out the deferred value')
        self.need_within(H, st, main)

    def post_insertPinned(self, H, st, v, inT, inD, main, pin=1):
        self.settings(H, st)
        g = st.ghost
        new = [n for n, x in sorted(st.nodes.items()) if x.new]
        mine = [n for n in new if isnum(H.fld(st, n, 'value')) and st.known(eqc(H.fld(st, n, 'value'), g['v']))]
        if len(mine) != 1 or len(new) != 1:
            H.need(st, 'C03', 'the value is inserted', False, 'does not make one element for the value')
            return
        n = mine[0]
        x = st.nodes[n]
        if x.dele:
            H.need(st, 'C01', 'a pinned insertion survives', pin == 0, 'destroys the value it has just inserted with a pin')
        else:
            m, _ = self.may_have(H, st, g['k'], inT)
            H.need(st, 'C03', 'the value is inserted', m == n, 'the table does not hold the inserted value under the key')
            H.need(st, 'C03', 'the insertion has its pin', eqc(H.fld(st, n, 'pin'), pin), 'the inserted value does not have %d pins' % pin)
            H.need(st, 'C02', 'the insertion has its units', eqc(H.fld(st, n, 'units'), g['n']), 'the inserted value does not have the given units')
            H.need(st, 'C06', 'insertions are stamped', self.stamped(H, st, n), 'the inserted entry is not stamped with the current time')
            if not st.truth(('eq', H.ob(st, 'lru_'))):
                pass
            else:
                H.need(st, 'C06', 'insertions are newest', H.link(st, O, H.HEAD[2] + H.NX) == ('p', ('N', n), 0),
                       'the inserted entry is not at the newest end in age-based mode')
        for m, y in sorted(st.nodes.items()):
            if y.b and y.b[0] and m not in inT and not y.dele and st.known(eqc(H.fld(st, m, 'key'), g['k'])):
                H.need(st, 'C03', 'replaced entries are deferred', m in inD, 'the replaced entry is not deferred')
        self.need_within(H, st, main)

    def post_insert(self, H, st, v, inT, inD, main):
        self.post_insertPinned(H, st, v, inT, inD, main, 0)
        for n, x in sorted(st.nodes.items()):
            if x.new and not x.dele:
                lru = st.truth(('ge', ladd(H.ob(st, 'lru_'), -1)))
                if lru:
                    H.need(st, 'C06', 'released entries are newest', H.link(st, O, H.HEAD[2] + H.NX) == ('p', ('N', n), 0),
                           'the inserted entry is not at the most recently used end')

    def post_remove(self, H, st, v, inT, inD, main):
        self.settings(H, st)
        m, sure = self.may_have(H, st, st.ghost['k'], inT)
        H.need(st, 'C03', 'the entry is gone', m is None and sure, 'the table may still hold the entry')

    def gone(self, H, st, what):
        T = st.maps['T']
        H.need(st, 'C03', 'all entries are gone', T.closed and T.vs is None and not T.ents, what)

    def post_removeAll(self, H, st, v, inT, inD, main):
        self.settings(H, st)
        self.gone(H, st, 'removeAll leaves entries in the table')

    def post_clear(self, H, st, v, inT, inD, main):
        self.settings(H, st)
        self.gone(H, st, 'clear leaves entries in the table')
        H.need(st, 'C05', 'the list is empty after clear', main == [] or main == [('seg', frozenset())] and not H.table_open(st),
               'clear leaves the recency list non-empty')

    def post_removeUnpinned(self, H, st, v, inT, inD, main):
        self.settings(H, st)
        ok = main is not None
        for kind, m in main or ():
            if kind == 'seg':
                ok = ok and ('P' in m or not H.table_open(st))
            else:
                ok = ok and st.known(('ge', ladd(H.fld(st, m, 'pin'), -1)))
        H.need(st, 'C03', 'no unpinned entry is left', ok, 'removeUnpinned may leave an unpinned entry in the table')

    def fresh_enough(self, H, st, n):
        mi = H.ob(st, 'max_idle_')
        lu = st.nodes[n].b[6] if st.nodes[n].b else H.fld(st, n, 'last_use_')
        return any(st.known(gec(lu, ladd(t, mi, -1))) for t in st.ghost.get('now', ()))

    def tail(self, H, st, main):
        """No expired entry is left."""
        if main is None:
            return
        mi = H.ob(st, 'max_idle_')
        if not st.truth(('ge', mi)):
            return
        lru = st.truth(('ge', ladd(H.ob(st, 'lru_'), -1)))
        ok = True
        for kind, m in reversed(main):
            if kind == 'seg':
                if 'P' in m and lru or not H.table_open(st):
                    continue
                ok = False
                break
            if self.fresh_enough(H, st, m):
                break
            if lru and st.known(('ge', ladd(H.fld(st, m, 'pin'), -1))):
                continue
            ok = False
            break
        H.need(st, 'C07', 'no expired entry is left', ok, 'an entry older than the limit may still be present')

    def post_removeExpiredEntries(self, H, st, v, inT, inD, main):
        self.settings(H, st)
        self.tail(H, st, main)

    def post_lookupWithOptions(self, H, st, v, inT, inD, main):
        self.settings(H, st)
        g = st.ghost
        if isptr(v) or not isnum(v):
            H.need(st, 'C03', 'lookup returns the value', False, 'lookup returns something that is no value of the cache')
            return
        m, sure = self.may_have(H, st, g['k'], inT)
        hit = None
        if st.truth(('eq', v)):
            H.need(st, 'C03', 'a failed lookup means the key is absent', m is None and sure, 'lookup returns null although the table may hold the key')
        else:
            if m is None:
                H.need(st, 'C03', 'lookup returns the value of the key', False, 'lookup returns a value although the table does not hold the key')
                return
            hit = m
            x = st.nodes[m]
            H.need(st, 'C03', 'lookup returns the value of the key', eqc(v, H.fld(st, m, 'value')), 'lookup returns the value of another entry')
            H.need(st, 'C03', 'lookup adds one pin', eqc(H.fld(st, m, 'pin'), ladd(x.b[2], 1)), 'a successful lookup does not add exactly one pin')
            if st.truth(('ge', H.ob(st, 'max_idle_'))) and st.truth(('eq', x.b[2])):
                if x.link != 'done':
                    H.resolve(st, m)
                if x.moved or True:
                    H.need(st, 'C07', 'no expired entry is returned', self.fresh_enough(H, st, m) or self.was_fresh(H, st, m, main),
                           'lookup may return an entry older than the limit')
        for n, x in sorted(st.nodes.items()):
            if x.dele or x.freed:
                continue
            if n != hit:
                H.need(st, 'C03', 'pins stay', eqc(H.fld(st, n, 'pin'), x.b[2]), 'lookup changes the pins of another element')
            if x.moved and n in inT:
                ok = n == hit and st.known(('ge', ladd(H.ob(st, 'lru_'), -1))) and st.known(('ge', ladd(g['upd'], -1)))
                H.need(st, 'C06', 'positions stay', ok, 'lookup takes an entry off the recency list that should keep its place')
        self.tail(H, st, main)

    post_lookup = post_lookupWithOptions

    def was_fresh(self, H, st, n, main):
        return False

    def post_releaseWithOptions(self, H, st, v, inT, inD, main):
        self.settings(H, st)
        g = st.ghost
        n = g['own']
        x = st.nodes[n]
        p1 = ladd(x.b[2], -1)
        if x.dele:
            H.need(st, 'C03', 'release takes one pin', ('eq', p1), 'destroys the released value although it has another pin')
            return
        H.need(st, 'C03', 'release takes one pin', eqc(H.fld(st, n, 'pin'), p1), 'release does not take away exactly one pin of the value')
        if x.b[1]:
            H.need(st, 'C01', 'destroyed at the last release', ('ge', ladd(p1, -1)), 'the last release of a removed value does not destroy it')
            return
        H.need(st, 'C03', 'release keeps the entry', n in inT, 'release removes the entry')
        if st.truth(('eq', p1)):
            H.need(st, 'C04', 'within the limit at the end', st.ghost.get('ovf') == 0 and self.lim_units(H, st),
                   'keeps the entry whose last pin was released without finding the cache within its limit')
        if st.truth(('ge', ladd(H.ob(st, 'lru_'), -1))) and st.truth(('ge', ladd(g['upd'], -1))):
            H.need(st, 'C06', 'released entries are stamped', self.stamped(H, st, n), 'release does not stamp the entry with the current time')
            if st.known(('eq', p1)):
                H.need(st, 'C06', 'released entries are newest', H.link(st, O, H.HEAD[2] + H.NX) == ('p', ('N', n), 0),
                       'release does not move the entry to the most recently used end')
        else:
            H.need(st, 'C06', 'stamps stay', eqc(H.fld(st, n, 'last_use_'), x.b[6]), 'release changes the time stamp although it should not')

    post_release = post_releaseWithOptions

    # calls
    def post_scoped(self, H, st, v):
        g = st.ghost
        ev = g.get('ev', ())
        lk = [e for e in ev if e[0] == 'lookup']
        rl = [e for e in ev if e[0] == 'release']
        H.need(st, 'C08', 'one lookup', len(lk) == 1 and ev[0] == lk[0], 'a scoped lookup does not look its key up exactly once')
        if len(lk) != 1:
            return
        _, c, k, r, u = lk[0]
        H.need(st, 'C08', 'the given lookup', c == CACHE and st.known(eqc(k, g['k'])) and st.known(eqc(u, g['upd'])),
               'a scoped lookup does not use the given cache, key and options')
        found = st.mem.get((('X', 'B'), 0), UNDEF)
        out = st.mem.get((('X', 'W'), 0), UNDEF)
        hit = st.truth(('ne', r))
        H.need(st, 'C08', 'found() and value()', isnum(found) and st.known(eqc(found, int(hit))) and isnum(out) and st.known(eqc(out, r)),
               'found() or value() is not the result of the lookup')
        if hit:
            H.need(st, 'C08', 'one release', len(rl) == 1, 'a scoped lookup that found a value does not release it exactly once')
            for _, c, k, w, u in rl:
                H.need(st, 'C08', 'the same release', c == CACHE and st.known(eqc(k, g['k'])) and isnum(w) and st.known(eqc(w, r)) and
                       st.known(eqc(u, g['upd'])), 'a scoped lookup does not release with the key, value and options of its lookup')
        else:
            H.need(st, 'C08', 'no release', not rl, 'a scoped lookup that missed releases something')

    post_scopedWithOptions = post_scoped

    def post_plainRemove(self, H, st, v):
        g = st.ghost
        ev = g.get('ev', ())
        H.need(st, 'C01', 'the value is deleted', [e for e in ev] == [('drv::Val::~Val', g['v']), ('delete', g['v'])],
               'the removed value is not deleted exactly once')

    def post_deleterRemove(self, H, st, v):
        g = st.ghost
        H.need(st, 'C01', 'the deleter is called', list(g.get('ev', ())) == [('drv::Del::operator()', g['v'])],
               'the deleter is not called exactly once with the removed value')

    # settings
    def post_setMaxIdleSeconds(self, H, st, v, inT, inD, main, lru=1):
        g = st.ghost
        H.need(st, 'C04', 'settings stay', eqc(H.ob(st, 'max_units_'), sym('max_units_')), 'changes max_units_')
        mi = H.ob(st, 'max_idle_')
        H.need(st, 'C06', 'the mode is set', eqc(H.ob(st, 'lru_'), lru), 'does not select the mode')
        r = g['fp']
        what = 'the limit is not the given number of seconds'
        if not isnum(mi):
            mi = sym('unk')
        if r in ('nan', '-inf', 'neg', '+inf'):
            H.need(st, 'C07', 'no limit', ('ge', ladd(-1, mi, -1)) , 'a negative, infinite or undefined limit is not treated as none')
            return
        if any(s.startswith('unk') for s in shape.lsyms(mi)):
            st.ghost['imprecise'] = True
        if isinstance(r, tuple):
            H.need(st, 'C07', 'the limit in microseconds', eqc(mi, int(r[1] * 1000000)), what)
        elif r == 'small':
            H.need(st, 'C07', 'the limit in microseconds', eqc(mi, sym('us')), what)
        elif r == 'big':
            H.need(st, 'C07', 'the limit in microseconds', eqc(mi, (1 << 63) - 1), 'a huge limit is not the largest one')

    def post_setAgeBasedEviction(self, H, st, v, inT, inD, main):
        self.post_setMaxIdleSeconds(H, st, v, inT, inD, main, 0)

    # queries
    def post_maxSize(self, H, st, v, inT, inD, main):
        self.result(H, st, v, 'C04', 'maxSize() reports the limit', H.ob(st, 'max_units_'), 'maxSize() does not return the limit')

    def post_lastUse(self, H, st, v, inT, inD, main):
        m, sure = self.may_have(H, st, st.ghost['k'], inT)
        if m is None:
            H.need(st, 'C06', 'no stamp of an absent key', sure and isnum(v) and st.known(eqc(v, -1)), 'returns a time for a key that may be absent')
        else:
            self.result(H, st, v, 'C06', 'the stamp of the entry', H.fld(st, m, 'last_use_'), 'does not return the time stamp of the entry')

    post_insertion = post_lastUse

    def post_age(self, H, st, v, inT, inD, main):
        if main == []:
            self.result(H, st, v, 'C06', 'age of an empty list', 0, 'reports an age without an entry')
        elif main and main[-1][0] == 'node' and st.ghost.get('now'):
            self.result(H, st, v, 'C06', 'age of the oldest', ladd(st.ghost['now'][-1], H.fld(st, main[-1][1], 'last_use_'), -1),
                        'the age is not that of the least recently used entry')
        else:
            H.need(st, 'C06', 'age of the oldest', False, 'does not look at the least recently used entry')

    def post_stillInUse2(self, H, st, v, inT, inD, main):
        g = st.ghost
        val = g.get('v', 0)
        hit, sure = False, True
        for n, x in sorted(st.nodes.items()):
            if st.truth(eqc(H.fld(st, n, 'key'), g['k'])) and (st.truth(eqc(val, 0)) or st.truth(eqc(val, H.fld(st, n, 'value')))):
                hit = True
        if isnum(v) and st.known(('eq', v)) and not hit:
            _, sure = self.may_have(H, st, g['k'], inT)
            D = st.maps['D']
            e = [e for e, (k, _) in D.ents.items() if st.truth(eqc(k, g['k']))]
            if e:
                w = self.ring(H, st, st.mem[(('E', 'D', e[0]), 8)], 'C01', 'a deferred list')
                sure = sure and w is not None and all(k != 'seg' or 'C' in fl for k, fl in w)
            elif not D.closed and not any(st.known(eqc(k, g['k'])) for k in D.absent):
                sure = False
        if hit:
            self.result(H, st, v, 'C03', 'a value in use is reported', 1, 'stillInUse() denies a value that is present or deferred')
        else:
            H.need(st, 'C03', 'only values in use are reported', sure and isnum(v) and st.known(('eq', v)),
                   'stillInUse() confirms or denies without having found or excluded the value')

    post_stillInUse1 = post_stillInUse2

    def post_entries(self, H, st, v, inT, inD, main):
        pass

    def result(self, H, st, v, prop, kind, want, msg):
        H.need(st, prop, kind, isnum(v) and st.known(eqc(v, want)), msg)

    def post_size(self, H, st, v, inT, inD, main):
        self.result(H, st, v, 'C02', 'size() reports the account', H.ob(st, 'units_'), 'size() does not return the total of the units')

    def post_pinnedSize(self, H, st, v, inT, inD, main):
        self.result(H, st, v, 'C02', 'pinnedSize() reports the account', H.ob(st, 'pinned_units_'), 'pinnedSize() does not return the total of the pinned units')

    def deferred(self, H, st, v, want, what):
        D = st.maps['D']
        full = D.closed and not st.ghost.get('unc') and (D.vs is None or D.vs <= {'C'})
        for e in D.ents:
            w = self.ring(H, st, st.mem[(('E', 'D', e), 8)], 'C01', 'a deferred list')
            if w is None or any(k == 'seg' and 'C' not in fl for k, fl in w):
                full = False
        H.need(st, 'C02', what + ' counts every deferred element', full, what + ' may leave out deferred elements')
        if full:
            self.result(H, st, v, 'C02', what + ' counts each once', want, what + ' does not count every deferred element once')

    def post_deferredSize(self, H, st, v, inT, inD, main):
        self.deferred(H, st, v, st.ghost.get('ads', 0), 'deferredSize()')

    def post_deferredEntries(self, H, st, v, inT, inD, main):
        self.deferred(H, st, v, st.ghost.get('adn', 0), 'deferredEntries()')

    # ------------------------------------------------------------ running
    def fnof(self, op):
        for f in self.P.fns.values():
            if f.short == 'drv::op_' + op and not f.decl:
                return f
        raise Inconclusive('operation %s not found' % op)

    def runop(self, op, own=None, loops=None):
        self.opname = op
        self.op = OPS[op]
        self.entry = op + {'tab': ' of a present value', 'head': ' of the first deferred value', 'deferred': ' of a deferred value', None: ''}[own]
        if self.phase == 'bounded':
            H = Bounded(self.P, self)
        else:
            from sa.fold import Folding
            H = Folding(self.P, self)
        if loops:
            H.LOOPS = loops
        for st, args in self.starts(H, op, own):
            st.stack = [Frame(self.fnof(op), args, 0)]
            H.explore(st)
        s = self.stats.setdefault(self.entry, {})
        s[self.phase] = {'states': H.nstates, 'steps': H.steps, 'exits': H.nexits}
        if loops:
            s[self.phase]['loop headers followed'] = loops
        self.sites.setdefault('functions', set()).update(x for x in H.fnsused if self.P.fns[x].repo)
        self.sites.setdefault('calls', set()).update(H.sites)
        return H

    def task(self, op, own):
        """All of one operation."""
        err = []
        try:
            # exact states, loops followed a few times: what is found here is real
            self.phase = 'bounded'
            t1 = t2 = 0
            budget = BUDGET if self.tier == 'quick' else 6 * BUDGET
            for loops in range(2, 4 if self.tier == 'quick' else 6):
                t = time.time()
                H = self.runop(op, own, loops)
                t1, t2 = t2, max(time.time() - t, 0.01)
                if not H.cuts or self.viol or t2 * max(t2 / t1 if t1 else 8, 4) > budget:
                    break
            if not self.viol:
                self.phase = 'prove'
                H = self.runop(op, own)
                for w, n in sorted(H.cuts.items()):
                    err.append('%s: %d paths not followed (%s)' % (self.entry, n, w))
        except Inconclusive as e:
            err.append('%s: %s' % (self.entry, e))
        return self.viol, self.notes, self.oblig, self.disch, self.stats, self.sites, err

    def tasks(self):
        ops = []
        for p in PROPS:
            if self.want(p):
                ops += [o for o in PROPS[p] if o not in ops]
        r = [(op, own) for op in ops for own in (('tab', 'head', 'deferred') if OPS[op][2] == 'own' else (None,))]
        heavy = ['removeAll', 'insert', 'insertPinned', 'updateSize', 'setAgeBasedEviction', 'setMaxIdleSeconds']
        r.sort(key=lambda x: heavy.index(x[0]) if x[0] in heavy else 99)
        return r

    def copies(self):
        """The compile-fail witness: neither a cache nor a scoped lookup can be copied or assigned."""
        from sa import ir
        bad = ir.witness(os.path.join(ir.VERIF, "drivers", "cache.cc"), 'WITNESS')
        for w in ('a cache can be copied', 'a cache can be assigned', 'a scoped lookup can be copied', 'a scoped lookup can be assigned'):
            self.obl('C08', 'no copies', w not in bad)
            if w in bad:
                c = 'ScopedLookup' if 'scoped' in w else 'SimpleLRUCacheBase'
                self.viol[('C08', c, w)] = {'function': 'lru::' + c, 'where': 'simple_lru_cache/simple_lru_cache_inl.h', 'what': w,
                                            'entry': 'witness', 'path': [], 'facts': []}

    def analyse(self):
        import multiprocessing as mp
        import gc
        if self.want('C08'):
            self.copies()
            if self.viol and self.tier == 'quick':
                return
        global _SPEC
        _SPEC = self
        gc.freeze()
        trouble = []
        with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1), initializer=_init) as pool:
            for viol, notes, oblig, disch, stats, sites, err in pool.imap_unordered(_task, self.tasks()):
                self.viol.update(viol)
                self.notes.update(notes)
                for a, b in ((self.oblig, oblig), (self.disch, disch)):
                    for k, n in b.items():
                        a[k] = a.get(k, 0) + n
                self.stats.update(stats)
                for k, x in sites.items():
                    self.sites.setdefault(k, set()).update(x)
                trouble += err
                if self.viol and self.tier == 'quick':
                    pool.terminate()
                    break
        if trouble and not self.viol:
            raise Inconclusive('; '.join(trouble))


_SPEC = None
BUDGET = 40


def _init():
    signal.signal(signal.SIGALRM, signal.SIG_DFL)


def _task(a):
    S = _SPEC
    S.viol, S.notes, S.oblig, S.disch, S.stats, S.sites = {}, {}, {}, {}, {}, {}
    return S.task(*a)


def n_known(H, st, key):
    for e, (k, _) in st.maps['T'].ents.items():
        if st.known(eqc(k, key)):
            return True
    for n, x in sorted(st.nodes.items()):
        if x.b and x.b[0] and st.known(eqc(x.b[5], key)):
            return True
    if any(st.known(eqc(k, key)) for k in st.maps['T'].absent):
        return True
    return None


class Bounded(Heap):
    """Follows loops a few times without folding: what it reports needs no join."""
    LOOPS = 3
    nexits = 0

    def header(self, st, fr, b, back):
        n = fr.visits[b] = fr.visits.get(b, 0) + 1
        if n > self.LOOPS:
            raise Cut('loop bound')
        return st

    def on_exit(self, st, fr, v):
        self.nexits += 1
        super().on_exit(st, fr, v)

