"""Signature verification: V01, V02, V03, V07, V08, V09, V10, V11 on
verifyJwtWithoutTimeChecking and everything it calls."""
from .spec import *
from .term import T

RS = {'RS256': 'sha256', 'RS384': 'sha384', 'RS512': 'sha512'}
PS = {'PS256': 'sha256', 'PS384': 'sha384', 'PS512': 'sha512'}
ES = {'ES256': ('sha256', 415, 32), 'ES384': ('sha384', 715, 48), 'ES512': ('sha512', 716, 66)}
HS = {'HS256': 'sha256', 'HS384': 'sha384', 'HS512': 'sha512'}
HLEN = {'sha256': 32, 'sha384': 48, 'sha512': 64}
CLOCKS = ('absl::Now', 'time', 'clock_gettime', 'gettimeofday', 'std::chrono', 'rand', 'random', 'getenv', 'clock')
ERRKINDS = ('rsa-pkcs1', 'rsa-pss', 'rsa-pad', 'ecdsa')


class Effects:
    """V11: the analysed entry point writes nothing but its own locals and
    reads no clock and no mutable global."""
    effect_prop = 'V11'
    result_objs = ()
    clock_ok = False

    def fx_store(self, st, fr, obj, off):
        root = obj
        while isinstance(root, Term) and root.op in ('deref', 'buf', 'bufbytes', 'elem', 'cr', 'ecgroup', 'pctx', 'bnfield'):
            if root.op == 'buf':
                if len(root.args) > 1:
                    root = root.args[1]
                else:
                    return
            else:
                root = root.args[0]
        if not isinstance(root, Term):
            return
        p = self.effect_prop
        if root.op not in ('obj', 'g'):
            self.ob(p, 'store to memory of its own')
        elif root.op == 'obj':
            if root.args[0] in self.result_objs:
                return
            self.ob(p, 'no store to an argument', False)
            self.fail(p, st, fr, 'writes to %s, which verification must leave unchanged' % show(ptr(obj, off)))
        elif root.op == 'g':
            g = self.P.globals.get(root.args[0])
            if self.in_guard(st) or root.args[0].startswith('_ZGV'):
                return
            self.ob(p, 'no store to a global', False)
            self.fail(p, st, fr, 'writes to the static object %s' % root.args[0])

    def in_guard(self, st):
        """Inside the one-time initialisation of a function static."""
        return bool(st.ghost.get('gopen'))

    def on_static(self, st, fr, obj, off, v):
        self.fail(self.effect_prop, st, fr, 'keeps %s in the static object %s, where later calls find it' % (show(v), obj.args[0]))

    def fx_call(self, st, fr, i, fn, name):
        s = fn.short if fn is not None else name
        self.ob(self.effect_prop, 'call')
        if not self.clock_ok and any(s == c or s.startswith(c + '::') for c in CLOCKS):
            self.fail(self.effect_prop, st, fr, 'reads %s: the result must depend on the arguments only' % s, i)

    def fx_load(self, st, fr, obj, off):
        if isinstance(obj, Term) and obj.op == 'g':
            n = obj.args[0]
            g = self.P.globals.get(n)
            self.ob(self.effect_prop, 'load of a static')
            if g is None or g.get('const') or n.startswith(('_ZGV', '_ZTV', '_ZTI', '_ZTS')) or self.in_guard(st):
                return
            if n in self.P_mutable():
                self.fail(self.effect_prop, st, fr, 'reads the mutable static object %s' % n)

    _mut = None

    def P_mutable(self):
        """Globals stored to somewhere in the repository outside their initialisation."""
        if self._mut is None:
            self._mut = set()
            for f in dict.fromkeys(self.P.fns.values()):
                if f.decl or not f.repo or f.name in self.P.ctors or f.name.startswith(('_GLOBAL__', '__cxx_global')):
                    continue
                for b in f.blocks:
                    for x in b:
                        if x.o == 'store' and x.a[1][0] == 'g':
                            self._mut.add(x.a[1][1])
                        elif x.o == 'atomicrmw' and x.a[0][0] == 'g':
                            self._mut.add(x.a[0][1])
        return self._mut


class Ownership:
    """V09: typestate of every reference-owning crypto object."""
    def own_acquire(self, st, fr, i, o, kind):
        self.ob('V09', 'acquire %s' % kind)
        st.ghost[('own', o)] = st.ghost.get(('own', o), 0) + 1

    def own_transfer(self, st, fr, i, o, into):
        n = st.ghost.get(('own', o))
        if n is None:
            self.ob('V09', 'transfer', False)
            self.fail('V09', st, fr, 'gives away %s, which it does not own' % show(o), i)
            return
        self.ob('V09', 'transfer')
        if n == 1:
            del st.ghost[('own', o)]
        else:
            st.ghost[('own', o)] = n - 1
        st.ghost[('in', o)] = into

    def own_release(self, st, fr, i, o, name):
        n = st.ghost.get(('own', o))
        if n is None:
            self.ob('V09', 'release', False)
            what = 'an object it gave away' if ('in', o) in st.ghost else 'an object it does not own (borrowed, or freed before)'
            self.fail('V09', st, fr, '%s frees %s' % (name, what), i)
            return
        self.ob('V09', 'release')
        if n == 1:
            del st.ghost[('own', o)]
            for k in [k for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'in' and v is o]:
                del st.ghost[k]
        else:
            st.ghost[('own', o)] = n - 1

    def reachable(self, st, roots):
        seen = set()
        todo = [r for r in roots]
        while todo:
            v = todo.pop()
            if isinstance(v, Term):
                for o in v.objs:
                    if o not in seen:
                        seen.add(o)
                        todo += [st.norm(x) if isinstance(x, Term) else x for x in st.mem.get(o, {}).values()]
            elif isinstance(v, dict):
                todo += list(v.values())
            elif isinstance(v, tuple):
                todo += list(v)
        return seen

    def own_check(self, st, fr, roots, where):
        owned = [k[1] for k in st.ghost if isinstance(k, tuple) and k[0] == 'own']
        if not owned:
            return
        seen = self.reachable(st, roots)
        for o in owned:
            if o in seen:
                continue
            self.ob('V09', 'released or held ' + where, False)
            kind = o.args[-1] if o.op == 'heap' else show(o)
            self.fail('V09', st, fr, 'leaks a %s (still owned %s and reachable from nothing)' % (kind, where))
            del st.ghost[('own', o)]

    def own_drop_reachable(self, st, v):
        """Ownership handed to a container."""
        seen = self.reachable(st, [v])
        for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] in ('own', 'in') and k[1] in seen]:
            del st.ghost[k]

    def roots(self, st, final=False):
        r = []
        for o, m in st.mem.items():
            if o.op == 'heap' or (final and o.op == 'alloca'):
                continue
            r += [st.norm(v) if isinstance(v, Term) else v for v in m.values()]
        if not final:
            for f in st.stack:
                r += [st.norm(v) if isinstance(v, Term) else v for v in list(f.regs.values()) + list(f.args)]
        return r


def keysize(st):
    """The size of the signature was held against the size of the key: a signature of another size is none."""
    for l in list(st.lin) + list(st.neq):
        if isinstance(l, Term) and any(x.op == 'size' for x in l.subs) \
                and any(x.op == 'irange' and x.args[0] in ('BN_num_bytes', 'BN_num_bits', 'EVP_PKEY_size', 'EVP_PKEY_bits') for x in l.subs):
            return 'size of the signature compared with the key'
    return None


class VerifySpec(Effects, Ownership, Spec):
    props = ('V01', 'V02', 'V03', 'V07', 'V08', 'V09', 'V10', 'V11')
    expected = {'V01': {'Ok exit': 1, 'non-Ok exit': 1},
                'V02': {'primitive ecdsa': 1, 'primitive ed25519': 1, 'primitive rsa-pkcs1': 1, 'primitive rsa-pss': 1},
                'V03': {'exit status': 3, 'key finished': 1}, 'V07': {'constant time comparison': 1}, 'V08': {'access': 20},
                'V09': {'release': 10}, 'V10': {'queue cleared': 1, 'queue empty': 1}, 'V11': {'call': 100}}

    def __init__(self, P, only=None):
        Spec.__init__(self, P, only)
        J, K = 'Jwt', 'Jwks::Pubkey'
        self.jwt, self.jwks = T('obj', 'jwt'), T('obj', 'jwks')
        f = lambda m: str_field(self.jwt, self.off(J, m))
        self.alg, self.kid, self.sig = f('alg_'), f('kid_'), f('signature_')
        self.data = mk_concat(f('header_str_base64url_'), '.', f('payload_str_base64url_'))
        ko = None
        for n, m in P.members(NSV + 'Jwks').items():
            if 'vector' in m[1] and 'Pubkey' in m[1]:
                ko = m[0]
        if ko is None:
            raise BrokenTree('the vector of keys in Jwks was not found')
        self.keys = T('deref', self.jwks, ko)
        self.nkeys = T('count', self.jwks, ko)
        self.ko = {n: self.off(K, n) for n in ('hmac_key_', 'kid_', 'kty_', 'alg_', 'crv_', 'rsa_', 'ec_key_', 'okp_key_raw_')}
        self.status = self.enum()

    # ---------------------------------------------------------- terms of a key
    def kf(self, K, m):
        return str_field(K, self.ko[m])

    def elem(self, t):
        """The key set element a term stems from."""
        r = [x for x in t.subs if x.op == 'deref' and x.args[0] is self.keys]
        return r[0] if len(r) == 1 else None

    def eligible(self, st, K):
        kid, alg = self.kf(K, 'kid_'), self.kf(K, 'alg_')
        if not isempty(st, self.kid) and not isempty(st, kid) and not same(st, kid, self.kid):
            return False
        if not isempty(st, alg) and not same(st, alg, self.alg):
            return False
        return True

    def curve(self, st, K):
        return st.norm(T('irange', 'curve', T('ecgroup', T('deref', K, self.ko['ec_key_'])), 0, 1 << 20))

    def compatible(self, st, K):
        """The primitive for the token's alg could accept with this key."""
        kty = self.kf(K, 'kty_')
        n = mk_size(st.norm(self.sig))
        if istr(st, kty, 'RSA'):
            return any(istr(st, self.alg, a) for a in list(RS) + list(PS)) and not self.nullp(st, K, 'rsa_')
        if istr(st, kty, 'EC'):
            for a, (md, nid, fb) in ES.items():
                if istr(st, self.alg, a):
                    return (not self.nullp(st, K, 'ec_key_') and st.must(eq(self.curve(st, K), nid))
                            and st.must(eq(mk_size(st.norm(self.sig)), 2 * fb)))
            return False
        if istr(st, kty, 'oct'):
            for a, md in HS.items():
                if istr(st, self.alg, a):
                    return st.must(eq(mk_size(st.norm(self.sig)), HLEN[md]))
            return False
        if istr(st, kty, 'OKP'):
            return istr(st, self.kf(K, 'crv_'), 'Ed25519') and istr(st, self.alg, 'EdDSA')
        return False

    def nullp(self, st, K, m):
        return st.must(mk_isnull(ptr(T('deref', K, self.ko[m]), 0)))

    # ---------------------------------------------------------- the sweep
    # ghost #lo, #hi: the interval of keys looked at; #cur: the one in use;
    # 'swl': the loops active when it was first touched
    def on_load(self, st, fr, obj, off, ty):
        if obj is self.keys:
            self.touch(st, fr, off)
        if isinstance(obj, Term) and obj.op == 'heap' and 'freed' in st.ghost and obj in st.ghost['freed']:
            self.fail('V09', st, fr, 'uses a freed object')
        self.fx_load(st, fr, obj, off)

    def sw(self, st):
        g = st.ghost
        if '#lo' not in g:
            return None
        n = lambda x: st.norm(x) if isinstance(x, Term) else x
        return n(g['#lo']), n(g['#hi']), n(g.get('#cur')), g.get('second', 0)

    def setsw(self, st, lo, hi, cur, second):
        g = st.ghost
        g['#lo'], g['#hi'] = lo, hi
        if cur is None:
            g.pop('#cur', None)
        else:
            g['#cur'] = cur
        if second:
            g['second'] = second
        else:
            g.pop('second', None)

    def touch(self, st, fr, off):
        k = st.norm(off)
        k = k // 8 if isinstance(k, int) else self.I.exact(k, 8)
        if k is None:
            st.ghost['wild'] = 'key index'
            return
        sw = self.sw(st)
        if sw is None:
            self.setsw(st, k, add(k, 1), k, 0)
            st.ghost['swl'] = tuple(sorted(map(repr, st.loops)))
            return
        lo, hi, cur, tried = sw
        if cur is not None and st.must(eq(cur, k)):
            return
        if cur is not None:
            self.finalise(st, fr)
            lo, hi, cur, tried = self.sw(st)
        if st.must(eq(k, hi)):
            self.setsw(st, lo, add(hi, 1), k, 0)
        elif st.must(eq(add(k, 1), lo)):
            self.setsw(st, k, hi, k, 0)
        elif st.must(eq(k, 0)):
            # a new pass over the keys: the old one must stand by itself
            if not st.ghost.get('pass') and self.complete(st):
                st.ghost['pass'] = 1
            self.setsw(st, k, add(k, 1), k, 0)
        elif st.must(le(lo, k)) and st.must(lt(k, hi)):
            self.setsw(st, lo, hi, k, 2)       # a second look
        else:
            st.ghost['wild'] = 'order of keys'
            return
        st.ghost['swl'] = tuple(sorted(map(repr, st.loops)))

    def elemk(self, k):
        return T('deref', self.keys, scale(k, 8))

    def finalise(self, st, fr):
        """The current key will not be used any more: it must have been tried,
        or be filtered out, or be unusable for the alg.  May partition."""
        sw = self.sw(st)
        if sw is None or sw[2] is None:
            return
        lo, hi, cur, tried = sw
        K = st.norm(self.elemk(cur))
        e = self.eligible(st, K)
        used = bool(st.ghost.get('tried'))
        skipped = False
        if e and not used and tried != 2:
            skipped = self.compatible(st, K)
        ed = False
        if e:
            ed = istr(st, self.kf(K, 'kty_'), 'OKP') and istr(st, self.kf(K, 'crv_'), 'Ed25519') and istr(st, self.alg, 'EdDSA') \
                and not st.must(eq(mk_size(st.norm(self.sig)), 64))
        m = st.ghost.get('mac')
        lost = False
        if m is not None and (st.ghost.get('acc') or ('',))[0] != 'valid':
            # the MAC must have been found to differ from the signature
            a, b = st.norm(m[0]), st.norm(self.sig)
            lost = st.decide(eq(st.norm(mk_size(a)), st.norm(mk_size(b)))) is not False and bool(st.must(mk_seq(a, b))) and all(x is None for _, x in leaves(st, lambda s: self.validmac(s, m[0])))
        # no mutation before this point
        if m is not None:
            st.ghost.pop('mac')
        if lost:
            st.ghost['acc'] = ('valid',)
        self.ob('V03', 'key finished')
        if not e and used:
            self.fail('V03', st, fr, 'a key is used although its kid or alg excludes it')
        if skipped and not ed:
            if not st.ghost.get('pass'):
                self.fail('V03', st, fr, 'an eligible key of the right type is passed over without being tried', soft=keysize(st))
        if e:
            st.ghost['part'] = 1
        if ed:
            st.ghost['edlen'] = 1
        self.settle(st, fr)
        st.ghost.pop('tried', None)
        self.setsw(st, lo, hi, None, 0)

    def complete(self, st):
        sw = self.sw(st)
        n = st.norm(self.nkeys)
        if sw is None:
            return st.must(eq(n, 0))
        return st.must(eq(st.norm(sw[0]), 0)) and st.must(eq(st.norm(sw[1]), n))

    # ---------------------------------------------------------- primitives
    def mark(self, st, K):
        st.ghost['tried'] = 1

    def on_verify(self, st, fr, i, c):
        self.mark(st, None)

    def valid(self, st, c):
        """Why acceptance by this primitive does not prove the token: a
        (property, text) pair, or None when it does."""
        _, kind, key, md, params, sig, data = c.args
        K = self.elem(c)
        if K is None:
            return 'V01', 'the key used is not one of the key set'
        kty = self.kf(K, 'kty_')
        want = None
        sg, dt = st.norm(self.sig), st.norm(self.data)
        if kind in ('rsa-pkcs1', 'rsa-pss'):
            if key is not ptr(T('deref', K, self.ko['rsa_']), 0):
                return 'V02', 'the RSA primitive uses a key other than the RSA key of the entry'
            tab = RS if kind == 'rsa-pkcs1' else PS
            if not istr(st, kty, 'RSA'):
                return 'V02', 'an RSA primitive verifies with an entry that is no RSA key'
            al = [a for a, h in tab.items() if md is T('md', h)]
            if not al:
                return 'V02', 'hash %s' % show(md)
            if kind == 'rsa-pss' and (params[0] is not md or len(params) > 1 and params[1] not in (-2, -1, 0xfffffffe, 0xffffffff)):
                return 'V02', 'PSS parameters %s' % show(params)
            want = al[0]
            if not whole(st, data, dt):
                return 'V01', 'the data verified is %s' % show(data)
            if not whole(st, sig, sg):
                return 'V01', 'the signature verified is %s' % show(sig)
        elif kind == 'ecdsa':
            if key is not ptr(T('deref', K, self.ko['ec_key_']), 0):
                return 'V02', 'the ECDSA primitive uses a key other than the EC key of the entry'
            if not istr(st, kty, 'EC'):
                return 'V02', 'an ECDSA primitive verifies with an entry that is no EC key'
            dg = data
            if not (isinstance(dg, Term) and dg.op == 'digest' and dg.args[0] != 'hmac'):
                return 'V01', 'ECDSA is given %s, not a complete digest' % show(data)
            mdn, dd = dg.args[0], dg.args[1]
            al = [(a, x) for a, x in ES.items() if mdn is T('md', x[0])]
            if not al:
                return 'V02', 'hash %s' % show(mdn)
            want, (h, nid, fb) = al[0]
            if not whole(st, dd, dt):
                return 'V01', 'the data verified is %s' % show(dd)
            if not st.must(eq(self.curve(st, K), nid)):
                return 'V02', 'an EC key of another curve'
            if not st.must(eq(mk_size(sg), 2 * fb)):
                return 'V02', 'a signature whose length is not twice the field size'
            r, s = sig.args
            g = lambda b: st.norm(mk_substr(sg, b, fb))
            if not (r is g(0) and s is g(fb)):
                return 'V02', 'r and s are %s and %s' % (show(r), show(s))
        elif kind == 'ed25519':
            if not (istr(st, kty, 'OKP') and istr(st, self.kf(K, 'crv_'), 'Ed25519')):
                return 'V02', 'Ed25519 verifies with an entry that is no Ed25519 key'
            ks = self.kf(K, 'okp_key_raw_')
            if st.norm(key) not in (st.norm(ks), st.norm(mk_substr(ks, 0, 32))):
                return 'V02', 'Ed25519 uses %s as key' % show(key)
            if not st.must(eq(mk_size(sg), 64)):
                return 'V02', 'an Ed25519 signature that is not 64 bytes long'
            if st.norm(sig) not in (sg, st.norm(mk_substr(sg, 0, 64))):
                return 'V01', 'the signature verified is %s' % show(sig)
            if not whole(st, data, dt):
                return 'V01', 'the data verified is %s' % show(data)
            want = 'EdDSA'
        else:
            return 'V02', 'scheme %s' % show((kind,) + tuple(params))
        if not istr(st, self.alg, want):
            return 'V02', '%s is used for a token whose alg is not %s' % (kind, want)
        if not self.eligible(st, K):
            return 'V03', 'the key accepted is excluded by its kid or alg'
        return None

    def validmac(self, st, mac):
        _, md, key, data, n = mac.args
        K = self.elem(mac)
        if K is None:
            return 'V01', 'the MAC key is not one of the key set'
        if not istr(st, self.kf(K, 'kty_'), 'oct'):
            return 'V02', 'a MAC is computed with an entry that is no oct key'
        if not whole(st, key, self.kf(K, 'hmac_key_')):
            return 'V02', 'the MAC key is %s' % show(key)
        al = [a for a, h in HS.items() if md is T('md', h)]
        if not al or not istr(st, self.alg, al[0]):
            return 'V02', 'HMAC with %s for another alg' % show(md)
        if not whole(st, data, self.data):
            return 'V01', 'the data authenticated is %s' % show(data)
        if not self.eligible(st, K):
            return 'V03', 'the key accepted is excluded by its kid or alg'
        return None

    def accept(self, st, fr, r, what, i=None):
        old = st.ghost.get('acc')
        if r is None:
            st.ghost['acc'] = ('valid',)
        elif old is None or old[0] != 'valid':
            st.ghost['acc'] = ('bad', r[0], what + ': ' + r[1]) + self.repo_site(st, fr, i)

    def on_verified(self, st, fr, i, c, r):
        self.ob('V02', 'primitive ' + c.args[1])
        if not r:
            if c.args[1] in ERRKINDS:
                st.ghost['errq'] = self.repo_site(st, fr, i)
            return
        why = None
        for s, x in leaves(st, lambda s: self.valid(s, c)):
            if x is not None and (why is None or not imprecision(s)):
                why = x
        self.accept(st, fr, why, c.args[1], i)

    def on_mac(self, st, fr, i, mac, out, n):
        self.mark(st, None)
        st.ghost['mac'] = (mac,) + self.repo_site(st, fr, i)

    def settle(self, st, fr):
        """Has the MAC computed last been found equal to the signature?"""
        m = st.ghost.get('mac')
        if m is None:
            return
        mac = m[0]
        eqv = st.decide(mk_seq(st.norm(mac), st.norm(self.sig)))
        if eqv:
            why = None
            for s, x in leaves(st, lambda s: self.validmac(s, mac)):
                if x is not None:
                    why = x
            if why is None:
                st.ghost['acc'] = ('valid',)
            elif (st.ghost.get('acc') or ('', ))[0] != 'valid':
                st.ghost['acc'] = ('bad', why[0], 'HMAC: ' + why[1]) + m[1:]
        st.ghost.pop('mac', None)
        return

    def on_crypto(self, st, fr, i, name, args):
        if name == 'ERR_clear_error':
            st.ghost.pop('errq', None)
            self.ob('V10', 'queue cleared')
        elif name == 'internal':
            self.mark(st, None)
        elif name == 'CRYPTO_memcmp':
            x, y, n = args
            for a, b in ((x, y), (y, x)):
                if isinstance(a, Term) and any(z.op == 'digest' and z.args[0] == 'hmac' for z in a.subs):
                    full = a.op == 'digest' and st.decide(eq(n, mk_size(a)))
                    sg = whole(st, b, self.sig)
                    self.ob('V07', 'constant time comparison', bool(full and sg))
                    if not (full and sg):
                        st.ghost['cut'] = ('only a part of the MAC or of the signature is compared',) + self.repo_site(st, fr, i)

    # ---------------------------------------------------------- V07
    def has_mac(self, t):
        return isinstance(t, Term) and any(x.op == 'digest' and x.args[0] == 'hmac' for x in t.subs)

    def on_compare(self, st, fr, i, name, x, y, n):
        if self.has_mac(x) or self.has_mac(y):
            self.ob('V07', 'no early-exit comparison of the MAC', False)
            self.fail('V07', st, fr, 'the computed MAC is compared with %s, which stops at the first difference' % name, i)

    def on_branch(self, st, fr, i, c, t):
        if isinstance(c, Term) and self.has_mac(c):
            # the one permitted comparison decides seq(mac, signature)
            if not self.ct(c):
                self.ob('V07', 'no branch on MAC bytes', False)
                self.fail('V07', st, fr, 'a branch depends on bytes of the computed MAC: %s' % show(c), i)

    def ct(self, c):
        while c.op == 'not':
            c = c.args[0]
        if c.op == 'pred' and c.args[0] == 'ok':
            return True
        return c.op == 'seq'

    # ---------------------------------------------------------- V08
    def on_access(self, st, fr, obj, off, n, ext, what):
        if obj is None:
            if not (isinstance(n, int) and n == 0):
                self.notes.setdefault(('V08',) + self.repo_site(st, fr) + (what,), {'property': 'V08', 'what': 'unknown buffer: ' + what})
            return
        if ext is None:
            self.notes.setdefault(('V08',) + self.repo_site(st, fr) + (what,), {'property': 'V08', 'what': 'extent unknown: ' + what})
            return
        okp = None
        if obj.op == 'buf':
            c = obj.args[0]
            if isinstance(c, Term) and c.op == 'init' and self.elem(c) is not None and c.args[0] is self.elem(c) \
                    and c.args[1] == self.ko['okp_key_raw_']:
                okp = c.args[0]

        def f(s):
            o, k, e = s.norm(off), s.norm(n), s.norm(ext)
            if isinstance(k, int) and k == 0:
                return True
            if okp is not None and istr(s, self.kf(okp, 'kty_'), 'OKP'):
                e = 32          # established by the import (K02, K04)
            return s.must(ge0(o)) and s.must(le(add(o, k), e))
        self.check('V08', 'access', st, fr, f, '%s of %s bytes at offset %s of a buffer of %s bytes' % (what, show(n), show(off), show(ext)))

    def on_index(self, st, fr, k, n, what):
        self.check('V08', 'index', st, fr, lambda s: s.must(ge0(s.norm(k))) and s.must(lt(s.norm(k), s.norm(n))),
                   '%s %s of %s elements' % (what, show(k), show(n)))

    def on_dangling(self, st, fr, o, what):
        self.fail('V08', st, fr, 'reads characters of a string that no longer holds them')

    def on_abort(self, st, fr, i, what, detail):
        self.ob('V08', 'no abort', False)
        self.fail('V08', st, fr, 'can abort: %s %s' % (what, detail), i)

    # ---------------------------------------------------------- ownership, effects
    def on_acquire(self, st, fr, i, o, kind):
        self.own_acquire(st, fr, i, o, kind)

    def on_transfer(self, st, fr, i, o, into):
        self.own_transfer(st, fr, i, o, into)

    def on_release(self, st, fr, i, o, name):
        self.own_release(st, fr, i, o, name)

    def on_store(self, st, fr, obj, off, v):
        self.fx_store(st, fr, obj, off)

    def on_call(self, st, fr, i, fn, name, args):
        self.fx_call(st, fr, i, fn, name)
        return None

    # ---------------------------------------------------------- control
    def on_back(self, st, fr, key):
        if repr(key) in st.ghost.get('swl', ()):
            sw = self.sw(st)
            self.finalise(st, fr)
            if sw is not None and sw[2] is not None:
                st.forget(self.elemk(sw[2]))
        self.errq(st, fr, 'the next key is tried')
        self.own_check(st, fr, self.roots(st), 'when the loop goes round')

    def errq(self, st, fr, when):
        e = st.ghost.get('errq')
        if e:
            self.ob('V10', 'queue empty', False)
            self.fail('V10', st, fr, 'the crypto error queue is not cleared after a rejected signature before %s' % when, at=e)
            st.ghost.pop('errq', None)
        else:
            self.ob('V10', 'queue empty')

    def pre_exit(self, st, fr, v):
        """Partition until everything the verdict needs is decided."""
        S = self.status
        if isinstance(v, Term):
            for n in ('Ok', 'JwtVerificationFail', 'JwksKidAlgMismatch', 'JwtEd25519SignatureWrongLength'):
                if st.must(eq(v, S[n])):
                    v = S[n]
                    break
        if v != S['Ok']:
            self.finalise(st, fr)
            self.complete(st)
        else:
            self.settle(st, fr)

    def on_exit(self, st, fr, v):
        S = self.status
        v = st.norm(v) if isinstance(v, Term) else v
        if isinstance(v, Term):
            for n, k in S.items():
                if st.decide(eq(v, k)):
                    v = k
        names = {k: n for n, k in S.items()}
        self.errq(st, fr, 'returning')
        self.own_check(st, fr, self.roots(st, True), 'at return')
        acc = st.ghost.get('acc')
        if v == S['Ok']:
            self.ob('V01', 'Ok exit', acc is not None and acc[0] == 'valid')
            if acc is None:
                cut = st.ghost.get('cut')
                if cut:
                    self.fail('V07', st, fr, 'success after a partial comparison of the MAC: ' + cut[0], at=cut[1:])
                self.fail('V01', st, fr, 'returns Ok although no primitive accepted the signature')
            elif acc[0] == 'bad':
                self.fail(acc[1], st, fr, 'success by ' + acc[2], at=acc[3:])
                if acc[1] != 'V01':
                    self.ob('V01', 'Ok exit')
            return
        self.ob('V01', 'non-Ok exit', not (acc and acc[0] == 'valid'))
        if acc and acc[0] == 'valid':
            self.fail('V01', st, fr, 'a primitive accepted the signature for an eligible key, but the result is %s' % names.get(v, show(v)))
            return
        comp = st.ghost.get('pass') or self.decided_complete(st)
        part, edlen = st.ghost.get('part'), st.ghost.get('edlen')
        nm = names.get(v, show(v))
        bad = None
        if nm == 'JwtEd25519SignatureWrongLength':
            if not edlen:
                bad = 'JwtEd25519SignatureWrongLength without an eligible Ed25519 key and a signature of another length'
        elif nm == 'JwksKidAlgMismatch':
            if part:
                bad = 'JwksKidAlgMismatch although a key takes part'
            elif not comp:
                bad = 'JwksKidAlgMismatch before all keys were looked at'
        elif nm == 'JwtVerificationFail':
            if edlen:
                bad = 'JwtVerificationFail for an Ed25519 signature of the wrong length'
            elif not comp:
                bad = 'JwtVerificationFail before all eligible keys were tried'
            elif not part:
                bad = 'JwtVerificationFail although no key takes part'
        else:
            bad = 'status %s' % nm
        self.ob('V03', 'exit status', bad is None)
        if bad:
            self.fail('V03', st, fr, bad)

    def decided_complete(self, st):
        sw = self.sw(st)
        n = st.norm(self.nkeys)
        if sw is None:
            return bool(st.decide(eq(n, 0)))
        return bool(st.decide(eq(st.norm(sw[0]), 0)) and st.decide(eq(st.norm(sw[1]), n)))

    def start(self):
        # a parsed token: its text is the three sections (T02)
        st = State()
        s3 = T('sym', 'the signature section', 'str')
        st.put(self.jwt, self.off('Jwt', 'jwt_'), mk_concat(self.data, '.', s3))
        for x in self.data.args[::2] + (s3,):
            st.assume(T('pred', 'nochar', x, '.'), True)
        return st

    def analyse(self):
        f = self.fn('verifyJwtWithoutTimeChecking')
        self.run(f, ['jwt', 'jwks'], entry='verifyJwtWithoutTimeChecking')
