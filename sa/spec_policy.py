"""Time, audience and composition: V04, V05, V06."""
from .spec import *
from .term import T

NOW, SKEW = T('irange', 'now', 0, U64), T('irange', 'skew', 0, U64)


class Time:
    """The oracle of the time check, in exact arithmetic."""
    def times(self):
        jwt = T('obj', 'jwt')
        g = lambda m: T('init', jwt, self.off('Jwt', m), 'i64')
        return g('nbf_'), g('exp_')

    def time_status(self, st, now, skew):
        nbf, exp = [st.norm(x) for x in self.times()]
        now, skew = [st.norm(x) if isinstance(x, Term) else x for x in (now, skew)]
        if st.must(lt(add(now, skew), nbf)):
            return 'JwtNotYetValid'
        if not st.must(eq(exp, 0)) and st.must(lt(add(exp, skew), now)):
            return 'JwtExpired'
        return 'Ok'


class TimeSpec(Time, Spec):
    props = ('V04',)
    rule = ('at every exit of verifyTimeConstraint the path facts entail, in integer arithmetic without wrap-around, '
            'exactly the condition under which the returned status is due')
    expected = {'V04': {'exit': 3}}

    def pre_exit(self, st, fr, v):
        self.time_status(st, NOW, SKEW)
        self.result(st, v, st.must)

    def result(self, st, v, must):
        for n in ('Ok', 'JwtNotYetValid', 'JwtExpired'):
            if must(eq(v, self.enum()[n])):
                return n
        return show(v) if isinstance(v, Term) else str(v)

    def on_exit(self, st, fr, v):
        s = st.fork()
        want = self.time_status(s, NOW, SKEW)
        got = self.result(s, v, s.decide)
        self.ob('V04', 'exit', want == got)
        if want != got:
            self.fail('V04', st, fr, 'returns %s where %s is due' % (got, want))

    def on_store(self, st, fr, obj, off, v):
        if obj.op in ('obj', 'g'):
            self.fail('V04', st, fr, 'changes %s' % show(ptr(obj, off)))

    def analyse(self):
        self.run(self.fn('Jwt::verifyTimeConstraint'), ['jwt', NOW, SKEW])


def sanitized(st, a):
    """The audience without one leading scheme and one trailing slash."""
    a = st.norm(a)
    n = mk_size(a)
    if st.must(eq0(n)):
        return ''
    b = 0
    for p in ('http://', 'https://'):
        if st.must(mk_startswith(st.norm(a), p)):
            b = len(p)
            break
    a = st.norm(a)
    n = st.norm(mk_size(a))
    if b and st.must(eq(n, b)):
        return ''
    e = n
    if st.must(mk_endswith(st.norm(a), '/')):
        e = sub(n, 1)
    return st.norm(mk_substr(st.norm(a), b, sub(e, b)))


class AudienceSpec(Crash, Spec):
    props = ('V05',)
    crash_prop = 'V05'
    rule = ('sweep of both audience lists: each configured audience puts exactly its normal form into the set; each token audience is '
            'looked up by exactly its normal form; true is returned only for an empty set or a member, false only after all lookups failed')
    expected = {'V05': {'configured audience': 1, 'token audience': 1, 'allowed': 2}}

    def __init__(self, P, only=None):
        Spec.__init__(self, P, only)
        self.ca, self.vec = T('obj', 'ca'), T('obj', 'vec')
        self.mode = None
        self.sweep = Sweep(self, 'aud', T('deref', self.vec, 0), T('count', self.vec, 0), 32, self.done, drop=lambda k: [self.aud(k)])
        so = [m for n, m in P.members(NSV + 'CheckAudience').items() if 'set<' in m[1]]
        self.seto = so[0][0] if len(so) == 1 else None

    def on_load(self, st, fr, obj, off, ty):
        if obj is self.sweep.region:
            self.sweep.touch(st, fr, off)

    def aud(self, k):
        return T('init', self.sweep.region, scale(k, 32), 'str')

    def on_setinsert(self, st, fr, i, p, x):
        if p.args[0] is not self.ca:
            return
        if self.mode != 'ctor':
            self.fail('V05', st, fr, 'changes the configured audiences during the check', i)
            return
        k = self.sweep.cur(st)
        if k is None:
            self.check('V05', 'configured audience', st, fr, lambda s: False, 'configures %s, which is none of the given audiences' % show(x), i)
            return

        def f(s):
            w = sanitized(s, self.aud(k))
            return same(s, x, w) or 'puts %s into the set for %s where its normal form is %s' % (show(s.norm(x)), show(self.aud(k)), show(w))
        self.check('V05', 'configured audience', st, fr, f, 'configured audience', i)
        st.ghost['ins'] = st.ghost.get('ins', 0) + 1 if st.ghost.get('ins', 0) < 2 else 2

    def on_store(self, st, fr, obj, off, v):
        if obj is self.ca and self.mode == 'check':
            self.fail('V05', st, fr, 'changes the object during the check')
        if obj is self.ca and isinstance(v, Term) and v.op == 'setconst' and not v.args and self.sweep.get(st) is not None:
            self.fail('V05', st, fr, 'drops configured audiences')

    def members(self, st, k):
        """Lookups of the current audience's normal form: True/False/None."""
        w = sanitized(st, self.aud(k))
        return st.must(T('pred', 'member', T('setinit', self.ca, self.seto), w))

    def looked(self, st):
        """The strings looked up so far on this path with the answers."""
        r = []
        for t, v in list(st.env.items()):
            if t.op == 'pred' and t.args[0] == 'member' and t.args[1] is T('setinit', self.ca, self.seto):
                r.append((t.args[2], v))
        return r

    def done(self, st, fr, k, second):
        if self.mode == 'ctor':
            n = st.ghost.get('ins', 0)
            self.ob('V05', 'configured audience finished', second or n >= 1)
            if not second and n < 1:
                self.fail('V05', st, fr, 'a configured audience is left out')
            st.ghost.pop('ins', None)
            return
        # the facts of the path must say that the audience is no member
        w = sanitized(st, self.aud(k))
        d = st.decide(T('pred', 'member', T('setinit', self.ca, self.seto), w))
        self.ob('V05', 'token audience', d is False or second)
        if d is None and not second:
            st.ghost['skipped'] = 1
        elif d:
            st.ghost['hit'] = 1

    def on_back(self, st, fr, key):
        self.sweep.back(st, fr, key)

    def nonempty(self, st, must):
        return must(eq0(T('count', T('setinit', self.ca, self.seto), 0)))

    def pre_exit(self, st, fr, v):
        if self.mode == 'ctor':
            self.sweep.finalise(st, fr)
            self.sweep.complete(st)
            return
        self.nonempty(st, st.must)
        v = st.must(eq(v, 0))
        k = self.sweep.cur(st)
        if k is not None:
            sanitized(st, self.aud(k))
        self.sweep.complete(st)

    def on_exit(self, st, fr, v):
        if self.mode == 'ctor':
            okc = self.sweep.completed(st)
            self.ob('V05', 'all configured', okc)
            if not okc:
                self.fail('V05', st, fr, 'not all configured audiences are kept')
            return
        empty = self.nonempty(st, st.decide)
        res = not st.decide(eq(v, 0))
        k = self.sweep.cur(st)
        hit = bool(st.ghost.get('hit'))
        miss = False
        if k is not None:
            w = sanitized(st.fork(), self.aud(k))
            d = st.decide(T('pred', 'member', T('setinit', self.ca, self.seto), w))
            hit = hit or d is True
            miss = d is None
        bad = None
        if res:
            if not empty and not hit:
                bad = 'allows a token none of whose audiences was found among the configured ones'
        else:
            if empty:
                bad = 'rejects although no audience is configured'
            elif hit:
                bad = 'rejects a token with a configured audience'
            elif not self.sweep.completed(st) or miss or st.ghost.get('skipped'):
                bad = 'rejects before all audiences of the token were looked up in their normal form'
        self.ob('V05', 'allowed', bad is None)
        if bad:
            self.fail('V05', st, fr, bad)

    def analyse(self):
        if self.seto is None:
            raise Inconclusive('CheckAudience does not hold one set of strings')
        ctor = [f for f in self.P.find(NSV + 'CheckAudience::CheckAudience') if not f.decl and 'vector' in f.ptext]
        if not ctor:
            raise BrokenTree('constructor of CheckAudience not found')
        self.mode = 'ctor'
        self.run(ctor[0], ['ca', 'vec'], entry='CheckAudience::CheckAudience')
        self.mode = 'check'
        self.run(self.fn('CheckAudience::areAudiencesAllowed'), ['ca', 'vec'])


class ComposeSpec(Time, Spec):
    """V06: the overloads of verifyJwt, with the signature check and the
    audience check replaced by their results."""
    props = ('V06',)
    drivers = ('drivers/defaults.cc',)
    rule = ('each overload, interpreted with the signature check and the audience check as symbolic results: Ok only if the facts of the '
            'path entail that all its checks pass, any other status only if it is that of a failed check')
    expected = {'V06': {'exit': 12}}
    assumptions = ('the wall clock is later than 1970',)

    def on_call(self, st, fr, i, fn, name, args):
        if fn is None or self.mode == 'pure':
            return None
        a = [st.norm(x) if isinstance(x, Term) else x for x in args]
        if fn.short == 'jv::verifyJwtWithoutTimeChecking':
            if self.obj(a[0]) == 'jwt' and self.obj(a[1]) == 'jwks':
                return ('value', self.sig)
            st.ghost['wild'] = 'arguments of verifyJwtWithoutTimeChecking'
            return None
        if fn.short == 'jv::CheckAudience::CheckAudience' and 'vector' in fn.ptext:
            st.ghost[('ca', a[0])] = self.vec(st, a[1])
            return ('value', None)
        if fn.short == 'jv::CheckAudience::areAudiencesAllowed':
            cfg = st.ghost.get(('ca', a[0]))
            tok = self.vec(st, a[1])
            if cfg == 'auds' and tok == 'token':
                return ('value', self.allowed)
            if cfg == '?' or tok == '?' or cfg is None:
                st.ghost['wild'] = 'arguments of areAudiencesAllowed'
            return ('value', T('pred', 'otheraud', str(cfg), str(tok)))
        if fn.short == 'jv::CheckAudience::~CheckAudience':
            return ('value', None)
        if fn.repo and fn.short.startswith('jv::CheckAudience'):
            st.ghost['wild'] = fn.short
        return None

    def on_crypto(self, st, fr, i, name, args):
        st.ghost['wild'] = 'a signature check of its own'

    def on_setinsert(self, st, fr, i, p, x):
        st.ghost['wild'] = 'an audience check of its own'

    def obj(self, p):
        if isinstance(p, Term) and p.op == 'ptr' and p.args[0].op == 'obj' and p.args[1] == 0:
            return p.args[0].args[0]
        return None

    def vec(self, st, p):
        if p is ptr(T('obj', 'auds'), 0):
            return 'auds'
        if p is ptr(T('obj', 'jwt'), self.off('Jwt', 'audiences_')):
            return 'token'
        if self.obj(p):
            return self.obj(p)
        return '?'

    def names(self):
        return {v: k for k, v in self.status.items()}

    def verdict(self, st):
        ts = self.time_status(st, self.now, self.skew)
        al = st.must(self.allowed) if self.auds else True
        sg = st.must(eq(self.sig, self.status['Ok']))
        return ts, al, sg

    def pre_exit(self, st, fr, v):
        if self.mode == 'pure':
            return
        self.verdict(st)
        if isinstance(v, Term):
            st.must(eq(v, self.status['Ok']))
            st.must(eq(v, self.status['JwtAudienceNotAllowed']))

    def on_exit(self, st, fr, v):
        if self.mode == 'pure':
            return
        ts, al, sg = self.verdict(st.fork())
        v = st.norm(v) if isinstance(v, Term) else v
        S = self.status
        n = self.names().get(v)
        bad = None
        if n == 'Ok' or n is None and st.decide(eq(v, S['Ok'])):
            if ts != 'Ok':
                bad = 'returns Ok although the time check gives %s' % ts
            elif not al:
                bad = 'returns Ok although the audiences are not allowed'
            elif not sg:
                bad = 'returns Ok without a successful signature check'
        elif n is not None and n == ts or n == 'JwtAudienceNotAllowed' and not al:
            pass
        elif v is st.norm(self.sig) and not sg:
            pass
        else:
            bad = 'returns %s, the status of no failed check (time %s, audience %s, signature %s)' % (
                n or show(v), ts, 'allowed' if al else 'not allowed', 'good' if sg else 'bad')
        self.ob('V06', 'exit', bad is None)
        if bad:
            self.fail('V06', st, fr, bad)

    def on_store(self, st, fr, obj, off, v):
        if obj.op in ('obj', 'g') and not st.ghost.get('gopen') and not obj.args[0].startswith('_ZGV'):
            self.fail('V06', st, fr, 'changes %s' % show(ptr(obj, off)))

    def analyse(self):
        from .models import WALL
        self.status = self.enum()
        self.sig = T('irange', 'sigstatus', 0, max(self.status.values()))
        self.allowed = T('pred', 'allowed')
        D = 60
        self.mode = 'compose'
        for name, pt, args, now, skew, auds in (
                ('verifyJwt', 0, [], WALL, D, False),
                ('verifyJwt', 'unsigned long, unsigned long', [NOW, SKEW], NOW, SKEW, False),
                ('verifyJwt', 'vector', ['auds'], WALL, D, True),
                ('verifyJwt', 'vector+unsigned long', ['auds', NOW], NOW, D, True),
                ('drv::verifyDefaultSkew', None, [NOW], NOW, D, False),
                ('drv::timeDefaultSkew', None, [NOW], NOW, D, False)):
            if name.startswith('drv'):
                f = [x for x in self.P.find(name, repo=False) if not x.decl][0]
            else:
                f = [x for x in self.P.find(NSV + name) if not x.decl and x.dem.startswith(NSV + name + '(')]
                f = [x for x in f if ('vector' in x.ptext) == auds and len(x.params) - (x.sret is not None) == 2 + len(args)]
                if not f:
                    raise BrokenTree('overload of verifyJwt not found')
                f = f[0]
            self.now, self.skew, self.auds = now, skew, auds
            st = State()
            if 'timeDefault' in name:
                st.assume(eq(self.sig, self.status['Ok']), True)
            self.run(f, ['jwt', 'jwks'] + args, st, entry=f.short + '(%s)' % ', '.join(map(str, args)))
