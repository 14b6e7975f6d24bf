"""Parsing: T01-T05."""
from .spec import *
from .term import T
from . import models as MO
from .interp import Prune

NAMES = ('alg', 'kid', 'iss', 'sub', 'iat', 'nbf', 'exp', 'jti', 'aud')
ALGS = ['ES256', 'ES384', 'ES512', 'HS256', 'HS384', 'HS512', 'RS256', 'RS384', 'RS512', 'PS256', 'PS384', 'PS512', 'EdDSA']
OK, MISSING, WRONG, RANGE = 0, 1, 2, 3
NUM, STR, BOOL, STRUCT, LIST = 2, 3, 4, 5, 6
FNAME = {0: 'OK', 1: 'MISSING', 2: 'WRONG_TYPE', 3: 'OUT_OF_RANGE'}
TWO64 = 18446744073709551616.0


def fin(lo, hi, v, must):
    """v in [lo, hi) and not NaN."""
    if isinstance(v, (int, float)):
        return lo <= v < hi
    return not must(T('pred', 'isnan', v)) and bool(must(T('fge', v, float(lo)))) and not must(T('fge', v, float(hi)))


class Floats:
    """T03: each conversion of a floating point number to an integer."""
    def on_fpto(self, st, fr, i, v, w, signed):
        lo, hi = (-2.0 ** (w - 1), 2.0 ** (w - 1)) if signed else (0.0, 2.0 ** w)
        self.sites.setdefault('fpto', set()).add((fr.fn.name, i.id))

        def f(s):
            x = s.norm(v) if isinstance(v, Term) else v
            if isinstance(x, Term) and x.op in ('i2f',):
                return s.must(lt(x.args[0], int(hi)))
            if signed:
                # the truncated value counts: anything above lo - 1
                if isinstance(x, Term) and s.must(T('pred', 'isnan', x)):
                    return False
                if isinstance(x, Term):
                    return bool(s.must(T('fge', x, lo))) and not s.must(T('fge', x, hi))
                return lo - 1 < x < hi
            return fin(lo, hi, x, s.must)
        self.check('T03', 'conversion', st, fr, f, 'converts %s to a %d-bit %s integer where it may not fit' % (
            show(v) if isinstance(v, Term) else v, w, 'signed' if signed else 'unsigned'), i,
            soft=None if not isinstance(v, Term) or imprecise_term(v) is None else 'unknown number')


class LookupSpec(Floats, Crash, Spec):
    """T05 on StructUtils, and the range part of T03."""
    props = ('T05', 'T03')
    crash_prop = 'T05'
    rule = ('the walk along the dotted name is followed by a ghost position (steps taken, object reached) advanced at each back edge; at every '
            'exit the path facts entail the result and the output the walk gives')
    expected = {'T05': {'GetString': 3, 'GetDouble': 3, 'GetUInt64': 4, 'GetBoolean': 3, 'GetStringList': 3, 'GetValue': 2},
                'T03': {'conversion': 1, 'range': 3}}
    assumptions = ('a lookup name has fewer than 2^31 parts',)
    KIND = {'GetString': STR, 'GetDouble': NUM, 'GetUInt64': NUM, 'GetBoolean': BOOL}

    def start_state(self):
        st = State()
        st.assume(le(T('nsplit', self.name, '.'), (1 << 31) - 1))
        st.assume(le(1, T('nsplit', self.name, '.')))
        st.ghost['#k'] = 0
        st.ghost['cur'] = self.root(st)
        if self.getter == 'GetStringList':
            st.ghost['#pushed'] = 0
            st.ghost['#chk'] = 0
        return st

    def root(self, st):
        m = self.P.members(NSV + 'StructUtils')
        o = [x for x in m.values() if 'Struct' in x[1]]
        if len(o) != 1:
            raise Inconclusive('StructUtils does not hold one struct')
        su = T('obj', 'su')
        if o[0][2] == 'ptr':
            return ptr(T('deref', su, o[0][0]), 0)
        return ptr(su, o[0][0])

    def pos(self, st):
        g = st.ghost
        k, cur = g.get('#k', 0), g.get('cur')
        if cur is None:
            cur = self.root(st)
        return (st.norm(k) if isinstance(k, Term) else k), st.norm(cur)

    def node(self, st, cur):
        return MO.node_of_struct(self.I, st, None, cur)

    def part(self, st, k):
        p = st.norm(T('splitpart', self.name, '.', k))
        if isinstance(p, Term) and p.op == 'splitpart' and k == 0 and st.decide(eq(self.n(st), 1)):
            pass
        return p

    def n(self, st):
        return st.norm(T('nsplit', self.name, '.'))

    def below(self, st):
        """(steps taken, object reached); None while the value reached is not established to be an object."""
        k, cur = self.pos(st)
        pv = st.ghost.get('pv')
        if pv is None:
            return k, cur
        v = MO.valnode(self.I, st, None, st.norm(pv))
        if v is not None and st.decide(eq(st.norm(T('kind', v)), STRUCT)) is True and st.decide(lt(k, self.n(st))) is True:
            return k, ptr(T('structof', v), 0)
        return k, None

    def on_back(self, st, fr, key):
        if fr.fn.repo is False:
            return
        for _ in range(3):
            k, cur = self.below(st)
            if cur is None:
                break
            st.ghost['pv'] = None
            st.ghost['cur'] = cur
            nd = self.node(st, cur)
            p = self.part(st, k)
            d = MO.has(self.I, st, nd, p)
            if isinstance(d, int) or st.decide(d) is not True:
                break
            v = T('mapval', nd, p)
            st.ghost['#k'] = add(k, 1)
            if st.decide(eq(st.norm(T('kind', v)), STRUCT)) is not True or st.decide(lt(add(k, 1), self.n(st))) is not True:
                # the value is reached, what it is is looked at later
                st.ghost['pv'] = ptr(T('pair', nd, p), 32)
                break
            st.ghost['cur'] = ptr(T('structof', v), 0)
        if self.getter == 'GetStringList':
            r, v = self.found(st)
            if v is not None:
                swept(st, v)

    def walk(self, st):
        """(OK, value node) | (MISSING, None) | (WRONG, None) | (None, None)"""
        k, cur = self.pos(st)
        pv = st.ghost.get('pv')
        if pv is not None:
            v = MO.valnode(self.I, st, None, st.norm(pv))
            if not st.assume(le(k, self.n(st))):
                return 'dead', None
            if v is None:
                return None, None
            if st.must(eq(k, self.n(st))):
                return OK, v
            if not st.must(eq(st.norm(T('kind', v)), STRUCT)):
                return WRONG, None
            cur = ptr(T('structof', v), 0)
        if not st.assume(lt(k, self.n(st))):
            return 'dead', None
        for _ in range(3):
            nd = self.node(st, cur)
            p = st.norm(self.part(st, k))
            if not st.must(MO.has(self.I, st, nd, p)):
                return MISSING, None
            v = st.norm(T('mapval', nd, p))
            if st.must(eq(k, sub(self.n(st), 1))):
                return OK, v
            if not st.must(eq(st.norm(T('kind', v)), STRUCT)):
                return WRONG, None
            cur = ptr(T('structof', v), 0)
            k = add(k, 1)
        return None, None

    def own_split(self, st):
        """The path looks up names the walk does not know."""
        for t in list(st.env) + list(st.atoms):
            for x in t.subs:
                if x.op == 'has' and isinstance(x.args[1], Term) and x.args[1] is not self.name and x.args[1].op != 'splitpart':
                    return 'another way of splitting the name'
        for t in list(st.env) + list(st.atoms) + list(st.lin) + list(st.neq):
            for x in (t.subs if isinstance(t, Term) else ()):
                if x.op == 'irange' and x.args[0] == 'find' or x.op == 'pred' and x.args[0] in ('contains', 'nochar'):
                    return 'another way of splitting the name'
        # a pointer the program moves along its own way
        k, cur = self.pos(st)
        mine = {x for x in cur.subs if x.op == 'phi'}
        pv = st.ghost.get('pv')
        if pv is not None:
            mine |= {x for x in st.norm(pv).subs if x.op == 'phi'}
        for t in list(st.env) + list(st.atoms) + list(st.lin) + list(st.neq):
            for x in (t.subs if isinstance(t, Term) else ()):
                if x.op == 'phi' and x.args[0] == 'p' and x not in mine:
                    return 'another way of following the name'
        return None

    def on_push(self, st, fr, i, p, t, args):
        if t != 'string':
            return
        if p.args[0] is not self.out or self.getter != 'GetStringList':
            st.ghost['othervec'] = 1
            return
        x = MO.S(self.I, st, fr, st.norm(args[0])) if args else ''
        m = st.ghost.get('#pushed', 0)
        m = st.norm(m) if isinstance(m, Term) else m
        r, v = self.found(st)
        if v is not None:
            allstrings(st, v, m)

        def f(s):
            if v is None:
                return 'nothing was found'
            y = s.norm(x)
            k = s.norm(T('kind', v))
            if s.must(eq(k, STR)):
                return y is s.norm(T('pbstr', v)) and s.must(eq(m, 0)) or 'stores %s' % show(y)
            if s.must(eq(k, LIST)):
                e = s.norm(T('listval', v, m))
                return y is s.norm(T('pbstr', e)) and s.must(lt(m, MO.lcount(v))) or 'stores %s as element %s' % (show(y), show(m))
            return 'stores an element of a value of another type'
        r = f(st)
        self.ob('T05', 'element')
        if r is not True:
            # counts only if the lookup succeeds
            st.ghost['badpush'] = 'stores a string that is not the element due at its place'
        st.ghost['#pushed'] = add(m, 1)

    def found(self, st):
        """The value at the position the path has established, if any."""
        pv = st.ghost.get('pv')
        k, cur = self.below(st)
        if cur is None:
            v = MO.valnode(self.I, st, None, st.norm(pv))
            return (OK, v) if v is not None and st.decide(eq(k, self.n(st))) is True else (None, None)
        nd = self.node(st, cur)
        s = st.fork()
        for _ in range(3):
            p = s.norm(self.part(s, k))
            h = MO.has(self.I, s, nd, p)
            if isinstance(h, int) or s.decide(h) is not True:
                return None, None
            v = s.norm(T('mapval', nd, p))
            if s.decide(eq(k, sub(self.n(s), 1))) is True:
                return OK, v
            nd = self.node(s, ptr(T('structof', v), 0))
            k = add(k, 1)
        return None, None

    def expect(self, st):
        """(result, output predicate) the lookup is due to give."""
        r, v = self.walk(st)
        if r != OK:
            return r, None
        g = self.getter
        if g == 'GetValue':
            return OK, ('ptr', v)
        k = st.norm(T('kind', v))
        if g == 'GetStringList':
            if st.must(eq(k, STR)):
                return OK, ('one', v)
            if st.must(eq(k, LIST)):
                return OK, ('list', v)
            return WRONG, None
        if not st.must(eq(k, self.KIND[g])):
            return WRONG, None
        if g == 'GetString':
            return OK, ('str', T('pbstr', v))
        if g == 'GetBoolean':
            return OK, ('bool', T('pred', 'boolval', v))
        if g == 'GetDouble':
            return OK, ('num', T('num', v))
        x = st.norm(T('num', v))
        if fin(0.0, TWO64, x, st.must):
            return OK, ('num', T('f2u', x, 64) if isinstance(x, Term) else int(x))
        return RANGE, None

    def pre_exit(self, st, fr, v):
        s = st
        # partition the exit state so that the obligations are decided
        k = self.expect(st)
        if isinstance(v, Term):
            for q in (0, 1, 2, 3):
                if st.must(eq(v, q)):
                    break

    def listelem_bad(self, st, v):
        """Some element of the list v is established not to be a string."""
        for t in set(x for y in list(st.env) + list(st.lin) + list(st.neq) + list(st.atoms) if isinstance(y, Term) for x in y.subs):
            if t.op == 'kind' and t.args[0].op == 'listval' and t.args[0].args[0] is v:
                i = t.args[0].args[1]
                if st.decide(eq(st.norm(t), STR)) is False and st.decide(lt(i, MO.lcount(v))) is True:
                    return True
        m = st.ghost.get('#pushed', 0)
        m = st.norm(m) if isinstance(m, Term) else m
        return st.decide(eq(st.norm(T('kind', T('listval', v, m))), STR)) is False and st.decide(lt(m, MO.lcount(v))) is True

    def outcell(self, st, off=0):
        v = st.get(self.out, off)
        return st.norm(v) if isinstance(v, Term) else v

    def unchanged(self, st):
        m = st.mem.get(self.out)
        if not m:
            return True
        for o, v in m.items():
            v = st.norm(v) if isinstance(v, Term) else v
            if isinstance(v, Term) and v.op == 'init' and v.args[0] is self.out and v.args[1] == o:
                continue
            return False
        return True

    def on_exit(self, st, fr, v):
        g = self.getter
        s = st.fork()
        want, out = self.expect(s)
        if want == 'dead':
            return
        got = None
        for q in (0, 1, 2, 3):
            if (v == q) if isinstance(v, int) else s.decide(eq(v, q)):
                got = q
        bad = None
        if g == 'GetStringList' and want == OK and out[0] == 'list' and got == WRONG and self.listelem_bad(s, out[1]):
            pass
        elif got != want or want is None:
            bad = 'returns %s where %s is due' % (FNAME.get(got, show(v) if isinstance(v, Term) else v),
                                                  FNAME.get(want, 'a further lookup'))
        elif got == OK:
            bad = self.badout(s, out)
        elif g not in ('GetStringList',) and not self.unchanged(s):
            bad = 'writes the output although it returns %s' % FNAME[got]
        soft = self.own_split(s)
        p = 'T05'
        self.ob('T05', g, bad is None)
        if bad:
            self.fail('T05', s, fr, bad, soft=soft)
        if g == 'GetUInt64' and got in (OK, RANGE):
            b = self.badrange(s, got)
            self.ob('T03', 'range', b is None)
            if b:
                self.fail('T03', s, fr, b, soft=soft)

    def badrange(self, s, got):
        if got == OK:
            x = self.outcell(s)
            if isinstance(x, int) or isinstance(x, Term) and x.op == 'f2u' and x.args[0].op == 'num':
                return None
            return 'stores %s, which is not the truncated number' % show(x)
        for t in {x for y in list(s.env) + list(s.atoms) + list(s.fl) if isinstance(y, Term) for x in y.subs if x.op == 'num'}:
            if s.decide(T('fge', t, TWO64)) is True or s.decide(T('fge', t, 0.0)) is False or s.decide(T('pred', 'isnan', t)) is True:
                return None
        return 'reports a number out of range that is not established to be'

    def badout(self, s, out):
        kind, w = out
        if kind == 'ptr':
            x = self.outcell(s)
            n = MO.valnode(self.I, s, None, x) if is_ptr(x) else None
            return None if n is s.norm(w) else 'finds %s where %s is due' % (show(x), show(w))
        if kind in ('one', 'list'):
            m = s.ghost.get('#pushed', 0)
            n = 1 if kind == 'one' else MO.lcount(w)
            ok = s.decide(eq(s.norm(m) if isinstance(m, Term) else m, n)) is True
            # nothing else happened to the list
            if s.ghost.get('badpush'):
                return s.ghost['badpush']
            return None if ok else 'stores %s strings where %s are due' % (show(m), show(n))
        x = self.outcell(s)
        if x is None:
            return 'returns OK without storing a value'
        w = s.norm(w)
        if x is w or (kind == 'str' and s.decide(mk_seq(x, w)) is True):
            return None
        if kind == 'bool' and isinstance(x, (int, Term)) and s.decide(w) is not None:
            return None if s.decide(eq(x, 1)) == s.decide(w) else 'stores %s where %s is due' % (show(x), show(w))
        if kind == 'bool':
            a = x if isinstance(x, Term) else T('x')
            return None if eq(x, 1) is w else 'stores %s where %s is due' % (show(x), show(w))
        if isinstance(x, (int, float)) and isinstance(w, (int, float)) and x == w:
            return None
        return 'stores %s where %s is due' % (show(x), show(w))

    def analyse(self):
        self.name = T('init', T('obj', 'name'), 0, 'str')
        self.out = T('obj', 'out')
        trouble = []
        for g in ('GetString', 'GetDouble', 'GetUInt64', 'GetBoolean', 'GetStringList', 'GetValue'):
            if self.only == {'T03'} and g != 'GetUInt64':
                continue
            self.getter = g
            try:
                self.run(self.fn('StructUtils::' + g), ['su', 'name', 'out'], self.start_state())
            except Inconclusive as e:
                trouble.append('%s: %s' % (g, e))
        if trouble:
            raise Inconclusive('; '.join(trouble))


def swept(st, v):
    """#chk: the elements before it are established to be strings."""
    for _ in range(3):
        k = st.ghost.get('#chk', 0)
        k = st.norm(k) if isinstance(k, Term) else k
        if st.decide(eq(st.norm(T('kind', T('listval', v, k))), STR)) is not True or st.decide(lt(k, MO.lcount(v))) is not True:
            return
        st.ghost['#chk'] = add(k, 1)


def allstrings(st, v, m):
    k = st.ghost.get('#chk', 0)
    k = st.norm(k) if isinstance(k, Term) else k
    if st.decide(lt(m, k)) is True:
        if not st.assume(eq(st.norm(T('kind', T('listval', v, m))), STR), True):
            raise Prune()


class ParseSpec(Floats, Crash, Spec):
    """T01-T04 on parseFromString: one pass for the text structure and one
    per claim; the facts and fields of the other claims are forgotten."""
    props = ('T01', 'T02', 'T03', 'T04')
    crash_prop = 'T01'
    rule = ('one pass per claim over all paths of parseFromString: at every exit the path facts entail that everything checked before the '
            'returned status is fine and that the named thing is wrong; after Ok each field is the term of its own source')
    expected = {'T01': {'status': 10, 'level': 10}, 'T02': {'field': 8, 'claim': 8}, 'T03': {'conversion': 1}, 'T04': {'field': 8, 'copy': 1}}
    merging = True

    STR = {'iss': ('iss_', 'JwtPayloadParseErrorIssNotString'), 'sub': ('sub_', 'JwtPayloadParseErrorSubNotString'),
           'jti': ('jti_', 'JwtPayloadParseErrorJtiNotString')}
    INT = {'iat': ('iat_', 'JwtPayloadParseErrorIatNotInteger', 'JwtPayloadParseErrorIatOutOfRange'),
           'nbf': ('nbf_', 'JwtPayloadParseErrorNbfNotInteger', 'JwtPayloadParseErrorNbfOutOfRange'),
           'exp': ('exp_', 'JwtPayloadParseErrorExpNotInteger', 'JwtPayloadParseErrorExpOutOfRange')}
    FIELD = {'alg': 'alg_', 'kid': 'kid_', 'iss': 'iss_', 'sub': 'sub_', 'iat': 'iat_', 'nbf': 'nbf_', 'exp': 'exp_', 'jti': 'jti_',
             'aud': 'audiences_'}

    alias = None

    def fail(self, prop, *a, **k):
        # the same call on a text the object does not own is right
        if self.alias and prop in ('T01', 'T02'):
            prop = 'T04'
        return super().fail(prop, *a, **k)

    def ob(self, prop, *a, **k):
        if self.alias and prop in ('T01', 'T02'):
            prop = 'T04'
        return super().ob(prop, *a, **k)

    # ------------------------------------------------------------- forgetting
    def foreign(self, t):
        if not isinstance(t, Term):
            return False
        for x in t.subs:
            if x.op in ('has', 'mapval', 'entry', 'pair') and x.args[1] in self.others:
                return True
            if x.op == 'ret' and x.args[0] == 'anystr':
                return True
        return False

    def keep_fact(self, st, t):
        return not self.foreign(t)

    def keep_cell(self, st, obj, off, v):
        if obj is self.jwt:
            return not any(o <= off < o + n for o, n in self.ocells) if isinstance(off, int) else True
        return True

    def pass_for(self, c):
        self.claim = c
        self.others = set(NAMES) - {c}
        m = self.P.members(NSV + 'Jwt')
        self.ocells = [(m[self.FIELD[k]][0], m[self.FIELD[k]][3]) for k in self.others if self.FIELD[k] in m]

    # ---------------------------------------------------------------- oracle
    def parts(self, st):
        t = st.norm(self.text)
        return [st.norm(T('splitpart', t, '.', k)) for k in range(3)]

    def b64(self, p):
        return T('b64', 'WebSafeBase64Unescape', p)

    def b64ok(self, p):
        return T('pred', 'b64ok', 'WebSafeBase64Unescape', p)

    def jsonok(self, p):
        return T('pred', 'jsonok', self.b64(p))

    def wrong(self, st, upto, must):
        """The first level (below upto) at which something is wrong, with the
        statuses due there: only the structure and this pass's claim."""
        S = self.status
        t = st.norm(self.text)
        if not must(eq(st.norm(T('nsplit', t, '.')), 3)):
            return 0, ('JwtBadFormat',)
        for p in self.parts(st):
            if must(eq0(mk_size(st.norm(p)))):
                return 0, ('JwtBadFormat',)
        h, b, g = self.parts(st)
        if upto <= 1:
            return None
        if not must(self.b64ok(h)):
            return 1, ('JwtHeaderParseErrorBadBase64',)
        if upto <= 2:
            return None
        if not must(self.jsonok(h)):
            return 2, ('JwtHeaderParseErrorBadJson',)
        if upto <= 3:
            return None
        H, B = T('json', self.b64(h)), T('json', self.b64(b))
        c = self.claim
        if c == 'alg':
            w = self.algwrong(st, H, must)
            if w:
                return 3, (w,)
        if c == 'kid' and must(T('has', H, 'kid')) and not must(eq(st.norm(T('kind', T('mapval', H, 'kid'))), STR)):
            return 3, ('JwtHeaderBadKid',)
        if upto <= 4:
            return None
        if not must(self.b64ok(b)):
            return 4, ('JwtPayloadParseErrorBadBase64',)
        if upto <= 5:
            return None
        if not must(self.jsonok(b)):
            return 5, ('JwtPayloadParseErrorBadJson',)
        if upto <= 6:
            return None
        if c in self.STR or c in self.INT or c == 'aud':
            w = self.claimwrong(st, B, c, must)
            if w:
                return 6, (w,)
        if upto <= 7:
            return None
        if not must(self.b64ok(g)):
            return 7, ('JwtSignatureParseErrorBadBase64',)
        return None

    def algwrong(self, st, H, must):
        v = T('mapval', H, 'alg')
        if not must(T('has', H, 'alg')):
            return 'JwtHeaderBadAlg'
        if not must(eq(st.norm(T('kind', v)), STR)):
            return 'JwtHeaderBadAlg'
        for a in ALGS:
            if must(st.norm(mk_seq(st.norm(T('pbstr', v)), a))):
                return None
        return 'JwtHeaderNotImplementedAlg'

    def claimwrong(self, st, B, c, must):
        v = T('mapval', B, c)
        if not must(T('has', B, c)):
            return None
        k = st.norm(T('kind', v))
        if c in self.STR:
            return None if must(eq(k, STR)) else self.STR[c][1]
        if c in self.INT:
            if not must(eq(k, NUM)):
                return self.INT[c][1]
            if fin(0.0, TWO64, st.norm(T('num', v)), must):
                return None
            return self.INT[c][2]
        if must(eq(k, STR)):
            return None
        if not must(eq(k, LIST)):
            return 'JwtPayloadParseErrorAudNotString'
        if self.listbad(st, v):
            return 'JwtPayloadParseErrorAudNotString'
        for k in ('#pushed', '#chk'):
            k = st.ghost.get(k, 0)
            if st.decide(eq(st.norm(k) if isinstance(k, Term) else k, MO.lcount(v))) is True:
                return None
        return '?'

    def listbad(self, st, v):
        return LookupSpec.listelem_bad(self, st, v)

    LEVEL = {'JwtBadFormat': 0, 'JwtHeaderParseErrorBadBase64': 1, 'JwtHeaderParseErrorBadJson': 2, 'JwtHeaderBadAlg': 3,
             'JwtHeaderNotImplementedAlg': 3, 'JwtHeaderBadKid': 3, 'JwtPayloadParseErrorBadBase64': 4, 'JwtPayloadParseErrorBadJson': 5,
             'JwtSignatureParseErrorBadBase64': 7, 'Ok': 8}

    def level(self, n):
        return 6 if n not in self.LEVEL and n.startswith('JwtPayloadParseError') else self.LEVEL.get(n)

    def owner(self, n):
        """The claim a status is about."""
        if n in ('JwtHeaderBadAlg', 'JwtHeaderNotImplementedAlg'):
            return 'alg'
        if n == 'JwtHeaderBadKid':
            return 'kid'
        for c, x in list(self.STR.items()) + list(self.INT.items()):
            if n in x[1:]:
                return c
        return 'aud' if n == 'JwtPayloadParseErrorAudNotString' else None

    # ---------------------------------------------------------------- events
    def on_push(self, st, fr, i, p, t, args):
        if t != 'string':
            return
        m = self.P.members(NSV + 'Jwt')
        if p is not ptr(self.jwt, m['audiences_'][0]):
            st.ghost['othervec'] = 1
            return
        if self.claim != 'aud':
            return
        x = MO.S(self.I, st, fr, st.norm(args[0])) if args else ''
        n = st.ghost.get('#pushed', 0)
        n = st.norm(n) if isinstance(n, Term) else n

        def f(s):
            y = s.norm(x)
            B = T('json', self.b64(self.parts(s)[1]))
            v = T('mapval', B, 'aud')
            if not s.must(T('has', B, 'aud')):
                return 'stores audience %s of a token without aud' % show(y)
            k = s.norm(T('kind', v))
            if s.must(eq(k, STR)):
                return y is s.norm(T('pbstr', v)) and s.must(eq(n, 0)) or 'stores %s' % show(y)
            if s.must(eq(k, LIST)):
                e = s.norm(T('listval', v, n))
                return y is s.norm(T('pbstr', e)) and s.must(lt(n, MO.lcount(v))) or 'stores %s as audience %s' % (show(y), show(n))
            return 'stores an audience from a value of another type'
        v = T('mapval', T('json', self.b64(self.parts(st)[1])), 'aud')
        allstrings(st, v, n)
        r = f(st)
        self.ob('T02', 'claim')
        if r is not True:
            st.ghost['badpush'] = 'stores a string that is not the element due at its place'
        st.ghost['#pushed'] = add(n, 1)

    def on_back(self, st, fr, key):
        if self.mode == 'parse' and self.claim == 'aud':
            swept(st, T('mapval', T('json', self.b64(self.parts(st)[1])), 'aud'))

    def soft(self, st):
        if st.ghost.get('othervec'):
            return 'audiences collected elsewhere'
        for t in list(st.env) + list(st.atoms) + list(st.lin) + list(st.neq):
            for x in (t.subs if isinstance(t, Term) else ()):
                if x.op == 'irange' and x.args[0] == 'find' or x.op == 'pred' and x.args[0] in ('contains', 'nochar'):
                    return 'another way of splitting the text'
        return None

    def name(self, st, v, must):
        for n, k in self.status.items():
            if (v == k) if isinstance(v, int) else must(eq(v, k)):
                return n
        return None

    def pre_exit(self, st, fr, v):
        if self.mode != 'parse':
            return
        n = self.name(st, v, st.must)
        lv = self.level(n) if n is not None else None
        if lv is None:
            lv = 8
        self.wrong(st, lv + 1, st.must)
        if n == 'Ok' and self.claim == 'kid':
            st.must(T('has', T('json', self.b64(self.parts(st)[0])), 'kid'))

    def on_exit(self, st, fr, v):
        if self.mode == 'copy':
            return self.copy_exit(st, fr, v)
        s = st.fork()
        n = self.name(s, v, s.decide)
        lv = self.level(n) if n is not None else None
        own = self.owner(n) if n else None
        soft = self.soft(s)
        if lv is None:
            self.ob('T01', 'status', False)
            self.fail('T01', s, fr, 'returns %s, no status of a parse' % (n or (show(v) if isinstance(v, Term) else v)), soft=soft)
            return
        w = self.wrong(s, lv + 1, s.must)
        if w is not None and w[1] == ('?',):
            w = None if own == 'aud' else w
        if n == 'Ok':
            self.ob('T01', 'status', w is None)
            if w is not None:
                p = 'T01' if w[0] not in (6,) and not (w[0] == 3 and self.claim == 'kid') else 'T02'
                self.fail(p, s, fr, 'returns Ok where %s is due' % w[1][0], soft=soft)
                return
            self.fields(s, fr, soft)
            return
        if w is not None and w[0] < lv:
            self.ob('T01', 'level', False)
            self.fail('T01', s, fr, 'returns %s where %s is due first' % (n, w[1][0]), soft=soft)
            return
        self.ob('T01', 'level')
        mine = own == self.claim if own else self.claim is None
        if mine or w is not None:
            ok = w is not None and n in w[1]
            if not ok and w is None and own is None and self.claim is None and self.level(n) == lv:
                ok = False
            p = 'T02' if own not in (None, 'alg') else 'T01'
            if w is not None and w[0] == lv and own and self.owner(w[1][0]) != own:
                ok = True      # another claim of the same level is wrong, too
            self.ob(p, 'status' if p == 'T01' else 'claim', ok)
            if not ok:
                self.fail(p, s, fr, 'returns %s where %s' % (n, '%s is due' % w[1][0] if w else 'nothing of the kind is wrong'), soft=soft)

    def fields(self, s, fr, soft):
        m = self.P.members(NSV + 'Jwt')
        h, b, g = self.parts(s)
        H, B = T('json', self.b64(h)), T('json', self.b64(b))
        want = [('jwt_', self.text), ('header_str_base64url_', h), ('header_str_', self.b64(h)), ('header_pb_', H),
                ('payload_str_base64url_', b), ('payload_str_', self.b64(b)), ('payload_pb_', B), ('signature_', self.b64(g))]
        c = self.claim
        if c is not None:
            want = []
            src = H if c in ('alg', 'kid') else B
            v = T('mapval', src, c)
            has = s.must(T('has', src, c))
            if c == 'aud':
                return self.audiences(s, fr, has, v, soft)
            if c in self.INT:
                want.append((self.FIELD[c], T('f2u', s.norm(T('num', v)), 64) if has else 0))
            else:
                want.append((self.FIELD[c], T('pbstr', v) if has else ''))
        for f, w in want:
            if f not in m:
                raise BrokenTree('member Jwt::%s not found' % f)
            x = s.get(self.jwt, m[f][0])
            w = s.norm(w) if isinstance(w, Term) else w
            if x is None:
                x = T('init', self.jwt, m[f][0], 'str')
            x = s.norm(x) if isinstance(x, Term) else x
            ok = x is w or x == w
            if not ok and isinstance(x, (Term, str)) and isinstance(w, (Term, str)) and m[f][2] == 'class' and 'string' in m[f][1]:
                ok = s.decide(mk_seq(x, w)) is True
            old = isinstance(x, Term) and any(y.op in ('init', 'count', 'deref') and y.args[0] is self.jwt for y in x.subs) \
                and not (self.alias is not None and all(y is s.norm(self.text) or y in s.norm(self.text).subs for y in x.subs if y.op == 'init'))
            p = 'T04' if old else 'T02'
            self.ob('T04', 'field', not (old and not ok))
            self.ob('T02', 'field', ok or old)
            if not ok:
                self.fail(p, s, fr, '%s holds %s where %s is due' % (f, show(x), show(w)) if not old else
                          '%s still depends on what the object held before: %s' % (f, show(x)), soft=soft or self.lost(x))

    def lost(self, x):
        y = imprecise_term(x) if isinstance(x, Term) else None
        return show(y) if y is not None else None

    def audiences(self, s, fr, has, v, soft):
        o = self.P.members(NSV + 'Jwt')['audiences_'][0]
        n = 0
        if has:
            n = 1 if s.must(eq(s.norm(T('kind', v)), STR)) else MO.lcount(v)
        b, e = s.get(self.jwt, o), s.get(self.jwt, o + 8)
        b, e = [s.norm(q) if isinstance(q, Term) else q for q in (b, e)]
        m = s.ghost.get('#pushed', 0)
        m = s.norm(m) if isinstance(m, Term) else m
        if b is NULL or b is e:
            cnt = 0
        elif is_ptr(b) and is_ptr(e) and b.args[0] is e.args[0]:
            cnt = s.norm(sub(e.args[1], b.args[1]))
        elif b is None and e is None:
            cnt = scale(T('count', self.jwt, o), 32)
        else:
            self.fail('T02', s, fr, 'audiences_ is not the list that was filled', soft=soft or 'unknown list')
            return
        if s.ghost.get('badpush') and has:
            self.fail('T02', s, fr, s.ghost['badpush'], soft=soft)
        stale = isinstance(cnt, Term) and any(y.op == 'count' and y.args[0] is self.jwt for y in cnt.subs)
        ok = s.decide(eq(cnt, scale(n, 32))) is True
        pushed = s.decide(eq(m, n)) is True
        self.ob('T04', 'field', not stale)
        self.ob('T02', 'field', ok and pushed or stale)
        if stale:
            self.fail('T04', s, fr, 'audiences_ still depends on what the object held before', soft=soft)
        elif not (ok and pushed):
            self.fail('T02', s, fr, 'audiences_ holds %s bytes of strings, %s of them stored, where %s strings are due' % (show(cnt), show(m), show(n)),
                      soft=soft or self.lost(cnt))

    # ------------------------------------------------------------------ copy
    def on_call(self, st, fr, i, fn, name, args):
        if self.mode != 'copy' or fn is None:
            return None
        if fn.short == 'jv::Jwt::parseFromString':
            a = [st.norm(x) if isinstance(x, Term) else x for x in args]
            src = MO.S(self.I, st, fr, a[1])
            st.ghost['parsed'] = (a[0], st.norm(src) if isinstance(src, Term) else src)
            # whatever it stores, it stores now
            for o in list(st.mem.get(self.jwt, {})):
                st.pop(self.jwt, o)
            return ('value', T('irange', 'parsestatus', 0, max(self.status.values())))
        return None

    def on_store(self, st, fr, obj, off, v):
        if self.mode != 'copy':
            return
        if obj is self.jwt:
            if isinstance(st.ghost.get('parsed'), tuple):
                st.ghost['late'] = 1
        elif obj is self.rhs:
            self.fail('T04', st, fr, 'changes the token that is copied')

    def copy_exit(self, st, fr, v):
        m = self.P.members(NSV + 'Jwt')
        p = st.ghost.get('parsed')
        want = T('init', self.rhs, m['jwt_'][0], 'str')
        bad = None
        if p is not None:
            if p[0] is not ptr(self.jwt, 0) or p[1] is not want:
                bad = 'parses %s where the text of the copied token is due' % show(p[1])
            elif st.ghost.get('late'):
                bad = 'changes fields after the parse'
        elif self.rhs is self.jwt:
            # nothing may change on self-assignment
            for o, x in st.mem.get(self.jwt, {}).items():
                x = st.norm(x) if isinstance(x, Term) else x
                if not (isinstance(x, Term) and any(y.op in ('init', 'deref') and y.args[0] is self.jwt and y.args[1] in (o, o - 8) for y in x.subs)):
                    bad = 'self-assignment changes the field at %s' % o
        else:
            for f, (o, ty, kd, sz) in m.items():
                if kd == 'class' and 'vector' in ty:
                    if st.ghost.get('vassign') is None and (o not in st.mem.get(self.jwt, {})):
                        bad = '%s is not copied' % f
                    continue
                x = st.get(self.jwt, o)
                x = st.norm(x) if isinstance(x, Term) else x
                if not (isinstance(x, Term) and x.op == 'init' and x.args[0] is self.rhs and x.args[1] == o):
                    bad = '%s is not copied' % f
                    break
        self.ob('T04', 'copy', bad is None)
        if bad:
            self.fail('T04', st, fr, bad)

    # --------------------------------------------------------------- analyse
    def analyse(self):
        self.status = self.enum()
        self.jwt = T('obj', 'jwt')
        m = self.P.members(NSV + 'Jwt')
        parse = self.fn('Jwt::parseFromString')
        trouble = []

        def go(entry, *a):
            try:
                self.run(*a, entry=entry)
            except Inconclusive as e:
                trouble.append('%s: %s' % (entry, e))
        passes = [None] + list(NAMES)
        if self.only and self.only <= {'T01'}:
            passes = [None, 'alg', 'kid', 'iss', 'exp', 'aud']
        for c in passes:
            self.mode, self.alias = 'parse', None
            self.pass_for(c)
            self.text = T('init', T('obj', 'str'), 0, 'str')
            st = State()
            if c == 'aud':
                st.ghost['#pushed'] = 0
                st.ghost['#chk'] = 0
            go('parseFromString (%s)' % (c or 'structure'), parse, ['jwt', 'str'], st)
        if self.want('T04'):
            # the text is one of the object's own fields
            for f, (o, ty, kd, sz) in m.items():
                if 'string' in ty and kd == 'class' and 'vector' not in ty:
                    self.mode, self.alias = 'parse', f
                    self.pass_for(None)
                    self.text = T('init', self.jwt, o, 'str')
                    go('parseFromString (own %s)' % f, parse, ['jwt', ptr(self.jwt, o)], State())
            self.mode = 'copy'
            self.claim, self.others, self.ocells = None, set(), []
            for fn in self.P.find(NSV + 'Jwt::Jwt') + self.P.find(NSV + 'Jwt::operator='):
                if fn.decl or 'Jwt const&' not in fn.ptext:
                    continue
                for rhs in ('jwt2', 'jwt') if 'operator=' in fn.short else ('jwt2',):
                    self.rhs = T('obj', rhs)
                    go('%s (%s)' % (fn.short, 'itself' if rhs == 'jwt' else 'another'), fn, ['jwt', rhs], State())
        if trouble:
            raise Inconclusive('; '.join(trouble))
