"""Folding at loop headers: elements nothing refers to are merged into list
segments and unknown table contents, and the numbers of all states that meet at
a header in the same shape are replaced by their affine hull and the order
facts they share.  The result covers any number of iterations."""
from fractions import Fraction
from sa.shape import (Lin, sym, ladd, lscale, isnum, isptr, iscond, Prune, Cut, UNDEF, Facts, show)
from sa.spec_cache import Bounded, Map, O

INPUTS = ('units_', 'max_units_', 'pinned_units_', 'max_idle_', 'lru_', 'k', 'v', 'n', 'upd', 'us')
NUMGHOST = ('U0', 'P0', 'ads', 'adn', 'newval', 'k', 'v', 'n', 'upd')
ROLES = ('own',)
FLAGS = ('lic', 'ovf', 'lost', 'lostd', 'imprecise', 'fp', 'unpinned', 'unc')


class Folding(Bounded):
    LOOPS = 10 ** 9
    MAXKEYS = 3000
    PEEL = True
    KINDS = ('tab0', 'tab+', 'dead', 'def', 'C', 'U')

    def __init__(self, prog, spec):
        super().__init__(prog, spec)
        self.table = {}
        self.joins = self.folds = 0

    def header(self, st, fr, b, back):
        fr.visits[b] = fr.visits.get(b, 0) + 1
        if not back and self.PEEL:
            return st
        self.folds += 1
        self.blur(st)
        return self.join(st)

    # ------------------------------------------------------------ references
    def frames(self, st):
        """Drops what is dead in every frame."""
        for j in range(len(st.stack)):
            f = st.stack[j]
            if j < len(st.stack) - 1:
                f = st.stack[j] = f.copy()
                i = f.fn.blocks[f.blk][f.idx]
                live = f.fn.live_at(f.blk, f.idx) - ({i.d} if i.d is not None else set())
            else:
                live = f.fn.live_at(f.blk, f.idx)
            f.regs = {r: v for r, v in f.regs.items() if r in live}

    def places(self, st):
        """(kind, get, set) of everything that is named from outside the heap, in a fixed order."""
        r = []
        for j, f in enumerate(st.stack):
            for k in sorted(f.regs):
                r.append((('reg', j, k), f.regs[k]))
            for k in range(len(f.args)):
                r.append((('arg', j, k), f.args[k]))
        cells = [k for k in st.mem if k[0][0] not in ('N', 'E')]
        for k in sorted(cells, key=repr):
            r.append((('cell', k), st.mem[k]))
        for g in NUMGHOST:
            if g in st.ghost:
                r.append((('ghost', g), st.ghost[g]))
        for j, t in enumerate(st.ghost.get('now', ())):
            r.append((('now', j), t))
        return r

    def refs_of(self, v, nodes, ents):
        if isptr(v):
            if v[1][0] == 'N':
                nodes.add(v[1][1])
            elif v[1][0] == 'E':
                ents.add((v[1][1], v[1][2]))
        elif isinstance(v, tuple) and not isinstance(v, Lin) and v:
            if v[0] == 'it' and v[2] is not None:
                ents.add((v[1], v[2]))
            elif v[0] == 'agg':
                for x in v[1].values():
                    self.refs_of(x, nodes, ents)

    # ------------------------------------------------------------ blurring
    def rings(self, st):
        """Element -> ring it is linked in, for intact rings."""
        at = {}
        starts = [('M', self.HEAD)]
        for e in sorted(st.maps['D'].ents):
            h = st.mem.get((('E', 'D', e), 8), 0)
            if self.nid(h) is not None:
                starts.append((('R', e), h))
        for ring, s in starts:
            out = [s]
            p = s
            ok = False
            for _ in range(100):
                v = st.mem.get((p[1], p[2] + self.NX), 0)
                if isinstance(v, tuple) and v[0] == 'seg':
                    z = st.segs.get(v[1])
                    if z is None or z[1] != p or not z[2] or st.mem.get((z[2][1], z[2][2] + self.PV)) != v:
                        break
                    p = z[2]
                elif isptr(v) and v[1][0] in ('N', 'O'):
                    if st.mem.get((v[1], v[2] + self.PV)) != p:
                        break
                    p = v
                else:
                    break
                if p == s:
                    ok = True
                    break
                if p in out:
                    break
                out.append(p)
            if ok:
                for q in out:
                    # a list that has got another entry
                    v = st.mem.get((q[1], q[2] + self.NX), 0)
                    if isinstance(v, tuple) and v[0] == 'seg' and st.segs[v[1]][0] != ring:
                        old = st.segs[v[1]][0]
                        st.segs[v[1]] = (ring,) + st.segs[v[1]][1:]
                        for n in self.floats(st, old):
                            self.setnode(st, n, ring=ring)
                for q in out:
                    if self.nid(q) is not None:
                        at[self.nid(q)] = ring
        return at

    def counted(self, st, n):
        """The operation has dealt with this deferred element."""
        g = st.ghost
        x = st.nodes[n]
        if self.spec.opname.startswith('stillInUse'):
            return st.known(('ne', g.get('v', 0))) and st.known(('ne', ladd(self.fld(st, n, 'value'), g['v'], -1)))
        u = self.fld(st, n, 'units')
        if not st.truth(('eq', ladd(self.fld(st, n, 'key'), g['k'], -1))):
            return True
        m = st.truth(('eq', g['v'])) or st.truth(('eq', ladd(self.fld(st, n, 'value'), g['v'], -1)))
        return st.known(('eq', ladd(u, g['n'] if m else x.b[3], -1)))

    def same(self, st, n, units=True):
        x = st.nodes[n]
        for f, j in (('value', 4), ('key', 5), ('last_use_', 6), ('pin', 2)) + ((('units', 3),) if units else ()):
            v = self.fld(st, n, f)
            if not isnum(v) or not st.known(('eq', ladd(v, x.b[j], -1))):
                return False
        return True

    def blur(self, st):
        self.frames(st)
        g = st.ghost
        now = g.get('now', ())
        if len(now) > 2:
            g['now'] = (now[0], now[-1])
        g.pop('sizeT', None)
        g.pop('sizeD', None)
        nodes, ents = set(), set()
        for _, v in self.places(st):
            self.refs_of(v, nodes, ents)
        if g.get('own') is not None:
            nodes.add(g['own'])
        for n, x in st.nodes.items():
            if not x.b and not (x.freed and x.dele):
                nodes.add(n)
        at = self.rings(st)
        for m, e in list(ents):
            n = self.nid(st.mem.get((('E', m, e), 8), 0))
            if n is not None:
                nodes.add(n)
        # a deferred entry one of whose elements is named is named
        for n in nodes:
            r = at.get(n)
            if r and r != 'M':
                ents.add(('D', r[1]))
            elif st.nodes[n].link == 'float' and st.nodes[n].ring not in (None, 'M'):
                ents.add(('D', st.nodes[n].ring[1]))
        for m, e in list(ents):
            n = self.nid(st.mem.get((('E', m, e), 8), 0))
            if n is not None:
                nodes.add(n)
        inT = {}
        for e in st.maps['T'].ents:
            n = self.nid(st.mem.get((('E', 'T', e), 8), 0))
            if n is not None:
                inT[n] = e
        upd = self.spec.opname == 'updateSize'
        crit = upd or self.spec.opname.startswith('stillInUse')
        const = self.spec.constop(st) and not crit
        self.strange = []
        # 1. the main list
        for n in sorted(st.nodes):
            if n in nodes:
                continue
            x = st.nodes[n]
            dead = x.dele and x.freed
            if at.get(n) == 'M':
                if dead:
                    self.merge(st, n, {'D'})
                elif n in inT and x.b and x.b[0] and not x.moved and not x.dele and not x.freed and self.same(st, n):
                    self.merge(st, n, {'P'} if st.known(('ge', ladd(self.fld(st, n, 'pin'), -1))) else set())
                else:
                    self.strange.append(n)
                    nodes.add(n)
        # 2. elements of the table and destroyed ones
        refs = set()
        for (r, o), v in st.mem.items():
            if isptr(v) and v[1][0] == 'N' and r[0] == 'N' and r[1] != v[1][1]:
                refs.add(v[1][1])
        for z in st.segs.values():
            for q in z[1:3]:
                if q and self.nid(q) is not None:
                    refs.add(self.nid(q))
        T = st.maps['T']
        for n in sorted(st.nodes):
            if n in nodes or at.get(n, 'M') != 'M':
                continue
            x = st.nodes[n]
            e = inT.get(n)
            if e is not None and ('T', e) in ents:
                nodes.add(n)
                continue
            if x.dele and x.freed:
                if at.get(n) != 'M' and n in refs:
                    self.strange.append(n)
                    nodes.add(n)
                    continue
                if x.b:
                    g['U0'] = ladd(g['U0'], x.b[3], -1)
                    if x.b[0] and st.truth(('ge', ladd(x.b[2], -1))):
                        g['P0'] = ladd(g['P0'], x.b[3], -1)
                if e is not None:
                    self.forget_entry(st, 'T', e, 'dead')
                self.drop(st, n)
                continue
            if e is None or not x.b or not x.b[0] or x.moved or not self.same(st, n) or n in refs and at.get(n) != 'M':
                self.strange.append(n)
                nodes.add(n)
                continue
            if x.link == 'done' and at.get(n) != 'M':
                if not (st.known(('ge', ladd(self.fld(st, n, 'pin'), -1))) and
                        all(st.mem.get((('N', n), o), 0) == 0 for o in (self.NX, self.PV))):
                    self.strange.append(n)
                    nodes.add(n)
                    continue
            self.forget_entry(st, 'T', e, 'tab+' if st.known(('ge', ladd(self.fld(st, n, 'pin'), -1))) else 'tab0')
            self.drop(st, n)
        # 3. deferred lists
        D = st.maps['D']
        for e in sorted(D.ents):
            h = self.nid(st.mem.get((('E', 'D', e), 8), 0))
            mine = [n for n, r in at.items() if r == ('R', e)]
            fl = [n for n, x in st.nodes.items() if x.link == 'float' and x.ring == ('R', e)]
            keep = ('D', e) in ents
            if h is None or h not in mine:
                nodes.update(mine)
                self.strange.append(('D', e))
                ents.add(('D', e))
                continue
            good = {}
            for n in mine + fl:
                x = st.nodes[n]
                good[n] = x.b and not x.dele and not x.freed and st.known(('ge', ladd(self.fld(st, n, 'pin'), -1))) and \
                    self.same(st, n, not upd) and (n not in inT or self.shed(st, n, inT[n], ents)) and st.known(('eq', ladd(D.ents[e][0], self.fld(st, n, 'key'), -1)))
                if good[n] and upd and not self.counted(st, n) and not st.known(('eq', ladd(self.fld(st, n, 'units'), x.b[3], -1))):
                    good[n] = False
            if not keep and all(good.values()) and not any(n in nodes for n in mine + fl):
                done = D.ents[e][1]
                zs = [z for z, y in st.segs.items() if y[0] == ('R', e)]
                allc = all('C' in st.segs[z][3] for z in zs)
                if crit:
                    allc = allc and all(self.counted(st, n) for n in mine + fl)
                for n in mine + fl:
                    self.account(st, n, upd, const and not (done and allc))
                    if n in inT:
                        self.forget_entry(st, 'T', inT[n], 'def')
                    self.drop(st, n)
                for z in zs:
                    del st.segs[z]
                self.forget_entry(st, 'D', e, 'C' if allc else 'U')
                continue
            ents.add(('D', e))
            nodes.add(h)
            for n in mine:
                if n in nodes or n == h:
                    continue
                if not good[n]:
                    self.strange.append(n)
                    nodes.add(n)
                    continue
                near = [st.segs[v[1]][3] for v in (st.mem.get((('N', n), o)) for o in (self.NX, self.PV))
                        if isinstance(v, tuple) and v[0] == 'seg']
                c = (const or crit) and all('C' in f for f in near)
                if crit and not self.counted(st, n):
                    c = False
                self.account(st, n, upd, const and not c)
                if n in inT:
                    self.forget_entry(st, 'T', inT[n], 'def')
                self.merge(st, n, {'C', 'X'} if c else {'X'}, uncount=const)
                self.drop(st, n)
        for n in list(st.nodes):
            if n not in nodes and n not in at:
                x = st.nodes[n]
                if x.link == 'float':
                    self.strange.append(n)
                nodes.add(n)
        if len(self.strange) > 4:
            raise Cut('elements in an unusual state')
        for m in ('T', 'D'):
            M = st.maps[m]
            keys = {st.norm(st.ghost[q]) for q in ('k',) if q in st.ghost}
            st.maps[m] = M._replace(absent=tuple(k for k in M.absent if st.norm(k) in keys)[:1])

    def shed(self, st, n, e, ents):
        """A deferred element whose entry in the table is still to be cleared away."""
        return ('T', e) not in ents and st.nodes[n].b and st.nodes[n].b[0]

    def account(self, st, n, upd, uncount):
        """The state in which element n is left is the new basis of the accounts."""
        x = st.nodes[n]
        g = st.ghost
        if x.b[0] and st.truth(('ge', ladd(x.b[2], -1))):
            g['P0'] = ladd(g['P0'], x.b[3], -1)
        if upd:
            g['U0'] = ladd(ladd(g['U0'], self.fld(st, n, 'units')), x.b[3], -1)
        if uncount and x.b[1]:
            g['ads'] = ladd(g.get('ads', 0), self.fld(st, n, 'units'), -1)
            g['adn'] = ladd(g.get('adn', 0), -1)

    def forget_entry(self, st, m, e, status):
        M = st.maps[m]
        done = M.ents[e][1]
        ents = dict(M.ents)
        del ents[e]
        st.mem.pop((('E', m, e), 8), None)
        vs = M.vs
        if done or M.closed:
            vs = frozenset(vs or ()) | {status}
        elif status in ('dead', 'def'):
            vs = frozenset(vs or ()) | {status}
        st.maps[m] = M._replace(ents=ents, vs=vs)

    def drop(self, st, n):
        for k in [k for k in st.mem if k[0] == ('N', n)]:
            del st.mem[k]
        st.nodes.pop(n, None)

    def merge(self, st, n, flags, uncount=False):
        """Element n becomes part of a segment between its neighbours."""
        p = ('p', ('N', n), 0)
        ring = None
        fl = [frozenset(flags)]
        ends = []
        for o, j in ((self.PV, 1), (self.NX, 2)):
            v = st.mem.get((p[1], o))
            if isinstance(v, tuple) and v[0] == 'seg':
                z = st.segs.pop(v[1])
                ring = z[0]
                fl.append(z[3])
                ends.append(z[j])
            else:
                ends.append(v)
        l, r = ends
        if ring is None:
            ring = self.ringof(st, p)
        f = set()
        if all('P' in x for x in fl):
            f.add('P')
        if all('C' in x for x in fl):
            f.add('C')
        elif uncount and any('C' in x for x in fl[1:]):
            raise Cut('partly counted deferred list')
        if all('X' in x for x in fl):
            f.add('X')
        if any('D' in x for x in fl):
            f.add('D')
        z = self.newid(st)
        st.segs[z] = (ring, l, r, frozenset(f))
        st.mem[(l[1], l[2] + self.NX)] = ('seg', z)
        st.mem[(r[1], r[2] + self.PV)] = ('seg', z)
        for o in (self.NX, self.PV):
            st.mem.pop((p[1], o), None)

    def ringof(self, st, p):
        q = p
        heads = {st.mem.get((('E', 'D', e), 8)): ('R', e) for e in st.maps['D'].ents}
        for _ in range(100):
            if q == self.HEAD:
                return 'M'
            if q in heads:
                return heads[q]
            v = st.mem.get((q[1], q[2] + self.NX), 0)
            if isinstance(v, tuple) and v[0] == 'seg':
                return st.segs[v[1]][0]
            if not isptr(v):
                break
            q = v
        raise Cut('list of an element unknown')

    # ------------------------------------------------------------ joining
    def join(self, st):
        nums, keyparts = [], []
        names, enames = {}, {}
        queue = []
        F = st.facts

        def num(v, where):
            nums.append((st.norm(v), where))

        def name(n):
            if n not in names:
                names[n] = len(names)
                queue.append(('N', n))
            return names[n]

        def ename(m, e):
            if (m, e) not in enames:
                enames[(m, e)] = len(enames)
                queue.append(('E', m, e))
            return enames[(m, e)]

        def shape(v, where, small=False):
            """Shape of a value; its numbers go to nums."""
            if isinstance(v, bool):
                v = int(v)
            if isnum(v):
                v = st.norm(v)
                if small and isinstance(v, int) and 0 <= v <= 1:
                    return ('c', v)
                num(v, where)
                return '#'
            if v is None or v == UNDEF:
                return 'undef'
            if isptr(v):
                r = v[1]
                if r[0] == 'N':
                    return ('n', name(r[1]), v[2]) if r[1] in st.nodes else 'lostnode'
                if r[0] == 'E':
                    return ('e', r[1], ename(r[1], r[2]) if r[2] in st.maps[r[1]].ents else 'erased', v[2])
                return v
            if iscond(v):
                if isinstance(v[1], int):
                    return v
                num(v[1], where + ('cond',))
                return ('cond', v[0])
            if v[0] == 'it':
                m, e, ep = v[1:]
                if e is not None:
                    e = ename(m, e) if e in st.maps[m].ents else 'erased'
                return ('it', m, e, ep == st.maps[m].epoch)
            if v[0] == 'agg':
                return ('agg',) + tuple((o, shape(x, where + (o,))) for o, x in sorted(v[1].items()))
            if v[0] == 'fp':
                return v if not any(isinstance(y, Lin) for y in v) else 'fp'
            if v[0] == 'seg':
                return 'seg'
            return repr(v)
        for s in INPUTS:
            num(sym(s), ('in', s))
        fs = []
        for f in st.stack:
            fs.append((f.fn.name, f.blk, f.idx, ()))
        keyparts.append(tuple(fs))
        links = (self.HEAD[2] + self.NX, self.HEAD[2] + self.PV)
        for w, v in self.places(st):
            if w[0] == 'cell' and w[1][0] == O and w[1][1] in links:
                continue
            keyparts.append((w, shape(v, w, w[0] in ('reg', 'arg') or w[0] == 'cell' and w[1][0][0] == 'A')))
        if st.ghost.get('own') is not None:
            keyparts.append(('own', name(st.ghost['own'])))
        for n in sorted(st.nodes):
            if st.nodes[n].new:
                name(n)
        # the main list in order, then what is reached from it
        self.walk(st, self.HEAD, name, keyparts)
        done = 0
        order = []
        while True:
            while done < len(queue):
                q = queue[done]
                done += 1
                order.append(q)
                if q[0] == 'N':
                    n = q[1]
                    x = st.nodes[n]
                    pin = self.fld(st, n, 'pin')
                    sg = '?'
                    if isnum(pin):
                        sg = '0' if st.known(('eq', pin)) else '+' if st.known(('ge', ladd(pin, -1))) else '?'
                    ring = x.ring
                    if ring not in (None, 'M'):
                        ring = ('R', ename('D', ring[1]))
                    for f, q in (('value', 'v'), ('key', 'k')):
                        y = self.fld(st, n, f)
                        if q in st.ghost and isnum(y):
                            y = ladd(y, st.ghost[q], -1)
                            keyparts.append(1 if st.known(('eq', y)) else 0 if st.known(('ne', y)) else None)
                    keyparts.append((x.link, ring, bool(x.dele), x.freed, x.new, x.moved, x.oldok, sg,
                                     (x.b[0], x.b[1]) if x.b else None))
                    for (r, o) in sorted(k for k in st.mem if k[0] == ('N', n)):
                        if o in (self.NX, self.PV):
                            v = st.mem[(r, o)]
                            keyparts.append(('seg', st.segs[v[1]][3], v[1] in st.segs) if isinstance(v, tuple) and v and v[0] == 'seg'
                                            else shape(v, ('m', n, o)))
                            continue
                        keyparts.append((o, shape(st.mem[(r, o)], ('m', n, o))))
                    if x.b:
                        for j in range(2, 7):
                            num(x.b[j], ('b', n, j))
                else:
                    _, m, e = q
                    k, vis = st.maps[m].ents[e]
                    num(k, ('ek', m, e))
                    keyparts.append((m, vis, shape(st.mem.get((('E', m, e), 8), 0), ('m8', m, e))))
                    h = st.mem.get((('E', m, e), 8), 0)
                    if m == 'D' and self.nid(h) is not None:
                        self.walk(st, h, name, keyparts)
            rest = [n for n in sorted(st.nodes) if n not in names]
            if rest:
                name(rest[0])
                continue
            rest = [(m, e) for m in 'TD' for e in sorted(st.maps[m].ents) if (m, e) not in enames]
            if rest:
                ename(*rest[0])
                continue
            break
        for m in 'TD':
            M = st.maps[m]
            keyparts.append((m, M.closed, M.vs, len(M.ents), len(M.absent)))
            for j, k in enumerate(M.absent):
                num(k, ('ab', m, j))
        keyparts.append(tuple(sorted(repr((y[0] == 'M', sorted(y[3]), bool(y[1]), bool(y[2]))) for y in st.segs.values())))
        keyparts.append(tuple((f, st.ghost.get(f)) for f in FLAGS))
        keyparts.append(tuple((s, (1 if st.known(('ne', sym(s))) else 0 if st.known(('eq', sym(s))) else None))
                              for s in ('lru_', 'upd') + (('v',) if 'v' in st.ghost else ())))
        key = tuple(keyparts)
        hash(key)
        vec = [v for v, _ in nums]
        old = self.table.get(key)
        if old is None:
            if len(self.table) > self.MAXKEYS:
                raise Cut('too many shapes')
            hull = Hull(len(vec))
            hull.add(vec)
            cands = self.candidates(st, vec, [w for _, w in nums])
            self.table[key] = [hull, cands, 1]
        else:
            hull, cands, cnt = old
            grew = hull.add(vec)
            keep = [c for c in cands if self.holds(F, c, vec)]
            if not grew and len(keep) == len(cands):
                raise Prune()
            self.joins += 1
            cands = keep
            self.table[key] = [hull, cands, cnt + 1]
            if cnt > 60:
                raise Cut('no fixpoint at a loop')
        self.rebuild(st, nums, hull, cands)
        return st

    def walk(self, st, start, name, keyparts):
        p = start
        r = []
        for _ in range(60):
            v = st.mem.get((p[1], p[2] + self.NX), 0)
            if isinstance(v, tuple) and v and v[0] == 'seg':
                z = st.segs.get(v[1])
                if z is None or not z[2]:
                    r.append('cut')
                    break
                r.append(('seg', z[3]))
                p = z[2]
            elif isptr(v):
                p = v
            else:
                r.append('null')
                break
            if p == start:
                r.append('closed')
                break
            n = self.nid(p)
            if n is None or n not in st.nodes:
                r.append('out')
                break
            r.append(name(n))
        # the same backwards, in case the two directions differ
        v = st.mem.get((start[1], start[2] + self.PV), 0)
        r.append(name(self.nid(v)) if isptr(v) and self.nid(v) in st.nodes else 'seg' if isinstance(v, tuple) and v and v[0] == 'seg' else 'head')
        keyparts.append(tuple(r))

    # candidate facts: (kind, const, ((slot, coefficient), ...))
    def holds(self, F, c, vec):
        k, l = self.inst(c, vec)
        return (l >= 0 if k == 'ge' else l != 0) if isinstance(l, int) else F.decide((k, l)) is True

    def inst(self, c, vec):
        k, c0, t = c
        l = c0
        for i, m in t:
            l = ladd(l, vec[i], m)
        return k, l

    def candidates(self, st, vec, where):
        F = st.facts
        first = {}
        for i, v in enumerate(vec):
            if isinstance(v, Lin) and v not in first:
                first[v] = i
        r = []
        one = {v[1][0][0]: i for v, i in first.items() if v[0] == 0 and len(v[1]) == 1 and v[1][0][1] == 1}
        used = set()
        for kind, ls in (('ge', F.ges), ('ne', F.nes)):
            for g in ls:
                if all(s in one for s, _ in g[1]):
                    r.append((kind, g[0], tuple((one[s], k) for s, k in g[1])))
                    used.update(s for s, _ in g[1])
        for v, i in first.items():
            for c, m in ((0, 1), (-1, 1), (0, -1), (1, -1), (1, 1)):
                x = ('ge', c, ((i, m),))
                if self.holds(F, x, vec):
                    r.append(x)
            x = ('ne', 0, ((i, 1),))
            if self.holds(F, x, vec):
                r.append(x)
        for i, v in enumerate(vec):
            if isinstance(v, int) and where[i][0] == 'cell' and v >= 0:
                r.append(('ge', 0, ((i, 1),)))
        lim = [i for i, w in enumerate(where) if w == ('in', 'max_units_')]
        for i, w in enumerate(where):
            if w[0] == 'cell' and w[1][0] == O and lim and isinstance(vec[i], Lin) and len(vec[i][1]) > 1:
                for c, m in ((0, -1), (-1, 1)):
                    x = ('ge', c, ((i, m), (lim[0], -m)))
                    if self.holds(F, x, vec):
                        r.append(x)
        lu = self.E['last_use_']
        L, got = [], set()
        for v, w, i in zip(vec, where, range(len(vec))):
            if isinstance(v, Lin) and v not in got and (w[0] == 'now' or w[0] in ('m', 'b') and w[2] == (lu if w[0] == 'm' else 6)):
                got.add(v)
                L.append((v, i))
        for a, i in L:
            for b, j in L:
                if i == j:
                    continue
                for c in (-1, 0):
                    x = ('ge', c, ((i, 1), (j, -1)))
                    if self.holds(F, x, vec):
                        r.append(x)
                        break
        return r

    def rebuild(self, st, nums, hull, cands):
        """Replace every number by its form in the hull."""
        vals, eqs = hull.forms(nums, self)
        F = Facts()
        st.facts = F
        for c in eqs:
            st.assume(c)
        for c in cands:
            k, l = self.inst(c, vals)
            st.assume((k, l)) if isinstance(l, Lin) else None
        it = iter(vals)
        put = {}
        for (v, w), nv in zip(nums, vals):
            put[w] = nv
        nodeb = {}
        for w, nv in put.items():
            if w[0] == 'm':
                st.mem[(('N', w[1]), w[2])] = self.patch(st.mem.get((('N', w[1]), w[2])), nv)
            elif w[0] == 'b':
                nodeb.setdefault(w[1], {})[w[2]] = nv
            elif w[0] == 'ek':
                M = st.maps[w[1]]
                st.maps[w[1]] = M._replace(ents={**M.ents, w[2]: (nv, M.ents[w[2]][1])})
            elif w[0] == 'ab':
                M = st.maps[w[1]]
                a = list(M.absent)
                a[w[2]] = nv
                st.maps[w[1]] = M._replace(absent=tuple(a))
            elif w[0] == 'reg':
                f = st.stack[w[1]]
                f.regs[w[2]] = self.patch(f.regs[w[2]], nv, w[3:])
            elif w[0] == 'arg':
                f = st.stack[w[1]]
                a = list(f.args)
                a[w[2]] = self.patch(a[w[2]], nv, w[3:])
                f.args = a
            elif w[0] == 'cell':
                st.mem[w[1]] = self.patch(st.mem[w[1]], nv, w[2:])
            elif w[0] == 'ghost':
                st.ghost[w[1]] = nv
            elif w[0] == 'now':
                t = list(st.ghost['now'])
                t[w[1]] = nv
                st.ghost['now'] = tuple(t)
        for n, d in nodeb.items():
            x = st.nodes[n]
            st.nodes[n] = x._replace(b=x.b[:2] + tuple(d[j] for j in range(2, 7)))

    def patch(self, old, nv, path=()):
        if path == ('cond',):
            return (old[0], nv)
        if path:
            d = dict(old[1])
            d[path[0]] = self.patch(d[path[0]], nv, path[1:])
            return ('agg', d)
        if iscond(old):
            return (old[0], nv)
        return nv


class Hull:
    """Affine hull of vectors of linear forms: a point and a reduced echelon basis."""

    def __init__(self, n):
        self.n = n
        self.p = None
        self.rows = {}      # pivot -> {col: coefficient}

    def reduce(self, v):
        v = dict(v)
        for c in sorted(v):
            if v.get(c) and c in self.rows:
                k = v[c]
                for j, x in self.rows[c].items():
                    y = v.get(j, 0) - k * x
                    if y:
                        v[j] = y
                    else:
                        v.pop(j, None)
        # reduction by a row may create entries at later pivots
        while any(c in self.rows for c in v):
            c = min(c for c in v if c in self.rows)
            k = v[c]
            for j, x in self.rows[c].items():
                y = v.get(j, 0) - k * x
                if y:
                    v[j] = y
                else:
                    v.pop(j, None)
        return v

    def direction(self, v):
        v = self.reduce(v)
        if not v:
            return False
        c = min(v)
        k = v[c]
        row = {j: Fraction(x, 1) / k for j, x in v.items()}
        for q, r in self.rows.items():
            if r.get(c):
                m = r[c]
                for j, x in row.items():
                    y = r.get(j, 0) - m * x
                    if y:
                        r[j] = y
                    else:
                        r.pop(j, None)
        self.rows[c] = row
        return True

    def add(self, vec):
        """Include a vector of linear forms; returns whether the hull grew."""
        p, dirs = {}, {}
        for i, v in enumerate(vec):
            if isinstance(v, int):
                p[i] = v
            else:
                p[i] = v[0]
                for s, k in v[1]:
                    dirs.setdefault(s, {})[i] = k
        grew = False
        if self.p is None:
            self.p = p
        else:
            grew = self.direction({i: p[i] - self.p[i] for i in p if p[i] != self.p[i]})
        for s in sorted(dirs):
            grew = self.direction(dirs[s]) or grew
        return grew

    def forms(self, nums, H):
        """Linear forms of all slots over the pivots, and equalities of the inputs."""
        base = dict(self.p)
        # move the point so that it is zero at the pivots
        pt = {i: Fraction(base[i]) for i in range(self.n)}
        for c in sorted(self.rows):
            k = pt[c]
            if k:
                for j, x in self.rows[c].items():
                    pt[j] -= k * x
        syms = {}
        for c in self.rows:
            w = nums[c][1]
            syms[c] = sym(w[1]) if w[0] == 'in' else H.fresh('h%s' % '_'.join(str(x) for x in w[:1]))
        vals, eqs = [], []
        for i in range(self.n):
            l = pt[i]
            ok = l.denominator == 1
            if ok:
                l = int(l)
                for c, row in self.rows.items():
                    k = row.get(i)
                    if not k:
                        continue
                    if Fraction(k).denominator != 1:
                        ok = False
                        break
                    l = ladd(l, syms[c], int(k))
            if not ok:
                l = H.fresh('q')
            w = nums[i][1]
            if w[0] == 'in':
                if ok and l != sym(w[1]):
                    eqs.append(('eq', ladd(sym(w[1]), l, -1)))
                l = sym(w[1])
            vals.append(l)
        return vals, eqs
