"""Key import: K01-K07, and the V08 and V09 obligations of jwks.cc."""
from .spec import *
from .term import T
from . import models as MO
from .interp import Prune
from .spec_verify import Ownership
from .spec_parse import ParseSpec, LookupSpec, STR, STRUCT, LIST

NOSTATUS = '?'
RSAALGS, ESALGS = ('RS', 'PS'), ('ES',)
CURVES = {'ES256': 'P-256', 'ES384': 'P-384', 'ES512': 'P-521'}
NID = {'P-256': 415, 'P-384': 715, 'P-521': 716}
CERT = ('-----BEGIN CERTIFICATE-----\n', '\n-----END CERTIFICATE-----\n')
MAXTEXT = (1 << 31) - 1
OWNERS = ('rsa_', 'ec_key_', 'bio_', 'x509_')


def prefixed(st, s, p):
    s = st.norm(s)
    if isinstance(s, str):
        return s.startswith(p)
    c = mk_startswith(s, p)
    d = st.decide(c) if isinstance(c, Term) else c
    if d is not None:
        return bool(d)
    if st.must(lt(mk_size(s), len(p))):
        return False
    s = st.norm(s)
    if isinstance(s, str):
        return s.startswith(p)
    return bool(st.must(mk_seq(st.norm(mk_substr(s, 0, len(p))), p)))


class ImportBase(Ownership, Crash, Spec):
    """What all import passes share: the Pubkey objects and their cells."""
    crash_prop = 'K07'

    def __init__(self, P, only=None):
        Spec.__init__(self, P, only)
        self.copy_fail = self.only == {'V09'}
        self.status = self.enum()
        self.names = {k: n for n, k in self.status.items()}
        m = P.members(NSV + 'Jwks')
        ko = [x[0] for x in m.values() if 'vector' in x[1] and 'Pubkey' in x[1]]
        if len(ko) != 1:
            raise BrokenTree('the vector of keys in Jwks was not found')
        self.keyoff = ko[0]
        so = [x[0] for x in P.members(NSV + 'WithStatus').values() if 'Status' in x[1]]
        if len(so) != 1:
            raise BrokenTree('the status in WithStatus was not found')
        self.stoff = so[0]
        self.size = P.structs[NSV + 'Jwks'][0] if isinstance(P.structs[NSV + 'Jwks'], tuple) else None
        self.ko = {n: self.off('Jwks::Pubkey', n) for n in ('hmac_key_', 'kid_', 'kty_', 'alg_', 'crv_', 'rsa_', 'ec_key_', 'okp_key_raw_',
                                                           'bio_', 'x509_')}

    # ------------------------------------------------------------- key objects
    def kcell(self, st, K, m):
        v = st.get(K, self.ko[m])
        if v is None:
            return T('init', K, self.ko[m], 'str')
        return st.norm(v) if isinstance(v, Term) else v

    def isval(self, st, x, w):
        """x is the text w."""
        w = st.norm(w) if isinstance(w, Term) else w
        x = st.norm(x) if isinstance(x, Term) else x
        if x is w or (isinstance(x, str) and isinstance(w, str) and x == w):
            return True
        if isinstance(x, Term) and (is_ptr(x) or x in (NULL, UNDEF)):
            return False
        if not isinstance(x, (Term, str)):
            return False
        return st.decide(mk_seq(x, w)) is True

    def badkey(self, st, K, want):
        """What is wrong with the key object K (property, text), or None.
        want: kty, kid, alg, crv and the material of the key."""
        for m, p in (('kty_', 'K03'), ('kid_', 'K03'), ('alg_', 'K03'), ('crv_', 'K03')):
            w = want.get(m)
            if w is None:
                continue
            x = self.kcell(st, K, m)
            if not self.isval(st, x, w):
                return p, 'its %s is %s where %s is due' % (m.rstrip('_'), show(x), show(w) if isinstance(w, Term) else repr(w)), x
        kind, mat = want['material']
        if kind in ('RSA', 'EC'):
            x = self.kcell(st, K, 'rsa_' if kind == 'RSA' else 'ec_key_')
            if not is_ptr(x) or st.decide(mk_isnull(x)) is True:
                return 'K03', 'a key of type %s without its key object (%s)' % (kind, show(x)), x
            o = x.args[0]
            if isinstance(mat, Term):
                if o is not mat:
                    return 'K03', 'its key object is %s where %s is due' % (show(o), show(mat)), x
                return None
            for c, (w, what) in enumerate(mat):
                v = st.get(o, 8 * c)
                v = st.norm(v) if isinstance(v, Term) else v
                good = v == w if isinstance(w, int) else v is not None and self.isval(st, v, w)
                if not good:
                    return 'K03', 'its %s is %s where %s is due' % (what, show(v), show(w)), v
            return None
        x = self.kcell(st, K, 'hmac_key_' if kind == 'oct' else 'okp_key_raw_')
        if not self.isval(st, x, mat):
            return 'K03', 'its key bytes are %s where %s is due' % (show(x), show(mat)), x
        return None

    def lost(self, x):
        y = imprecise_term(x) if isinstance(x, Term) else None
        return show(y) if y is not None else None

    def hand_over(self, st, fr, K):
        """The key set now owns what the key object holds (V09); the object
        was judged, and nothing reads it again."""
        for m in OWNERS:
            v = st.get(K, self.ko[m])
            v = st.norm(v) if isinstance(v, Term) else v
            if is_ptr(v) and v.args[0].op == 'heap':
                self.forget(st, v.args[0])
        self._hand_over(st, fr, K)
        self.forget(st, K)

    def forget(self, st, o):
        for k in list(st.mem.get(o, {})):
            st.put(o, k, TOP)

    def _hand_over(self, st, fr, K):
        for m in OWNERS:
            v = st.get(K, self.ko[m])
            v = st.norm(v) if isinstance(v, Term) else v
            if not is_ptr(v):
                continue
            o = v.args[0]
            if o.op not in ('heap', 'crypto'):
                continue
            n = st.ghost.get(('own', o))
            self.ob('V09', 'held by the key set', n is not None)
            if n is None:
                self.fail('V09', st, fr, 'a key of the set holds %s, which it does not own (borrowed, given away or freed before)' % show(o))
            elif n == 1:
                del st.ghost[('own', o)]
                for k in [k for k, x in st.ghost.items() if isinstance(k, tuple) and k[0] == 'in' and x is o]:
                    del st.ghost[k]
            else:
                st.ghost[('own', o)] = n - 1

    # ------------------------------------------------------------- events
    def on_acquire(self, st, fr, i, o, kind):
        self.own_acquire(st, fr, i, o, kind)

    def on_transfer(self, st, fr, i, o, into):
        self.own_transfer(st, fr, i, o, into)

    def on_release(self, st, fr, i, o, name):
        self.own_release(st, fr, i, o, name)

    def on_vdestroy(self, st, fr, i, p, b, lo, n, esz, targ):
        if 'Pubkey' not in (targ or '') or not is_ptr(b):
            return
        keep = {}
        for o, v in st.mem.get(b.args[0], {}).items():
            k = st.norm(sub(o, scale(lo, 8)))
            if lo == 0 or (isinstance(k, int) and k >= 0):
                keep[o] = v
        gone = set()
        for v in keep.values():
            v = st.norm(v) if isinstance(v, Term) else v
            self.own_drop_reachable(st, v)
            if is_ptr(v):
                gone.add(v.args[0])
        if lo == 0:
            st.ghost.pop('pushed', None)
        else:
            left = tuple(x for x in st.ghost.get('pushed', ()) if x not in gone)
            if left:
                st.ghost['pushed'] = left
            else:
                st.ghost.pop('pushed', None)

    def on_push(self, st, fr, i, p, t, args):
        if 'Pubkey' not in (t or '') or not args:
            return
        src = st.norm(args[0])
        v = self.I.load(st, src, 'ptr', fr) if is_ptr(src) else None
        v = st.norm(v) if isinstance(v, Term) else v
        if is_ptr(v):
            st.ghost['pushed'] = st.ghost.get('pushed', ()) + (v.args[0],)
        else:
            st.ghost['wild'] = 'an unknown key is added'

    def on_access(self, st, fr, obj, off, n, ext, what):
        if obj is None or ext is None:
            return
        p = 'V08' if self.only == {'V08'} else 'K07'

        def f(s):
            o, k, e = s.norm(off), s.norm(n), s.norm(ext)
            if isinstance(k, int) and k == 0:
                return True
            return s.must(ge0(o)) and s.must(le(add(o, k), e))
        self.check(p, 'access', st, fr, f, '%s of %s bytes at offset %s of a buffer of %s bytes' % (what, show(n), show(off), show(ext)))

    def on_dangling(self, st, fr, o, what):
        for p in ('K07', 'V08'):
            self.fail(p, st, fr, 'reads characters of a string that no longer holds them')

    # ------------------------------------------------------------- results
    def result(self, st):
        """The key set object returned through the result slot."""
        v = st.get(T('obj', 'ret'), 0)
        v = st.norm(v) if isinstance(v, Term) else v
        return v.args[0] if is_ptr(v) and v.args[0].op == 'heap' else None

    def stcell(self, st, o):
        v = st.get(o, self.stoff)
        return st.norm(v) if isinstance(v, Term) else v

    def code(self, st, v, must=None):
        if isinstance(v, int):
            return v
        if isinstance(v, Term):
            for k in self.names:
                if (must or st.decide)(eq(v, k)):
                    return k
        return None

    def vec(self, st, o):
        """(begin, end, number of keys) of the key vector of object o."""
        b, e = st.get(o, self.keyoff), st.get(o, self.keyoff + 8)
        b, e = [st.norm(x) if isinstance(x, Term) else x for x in (b, e)]
        if b is e and b is not None:
            return b, e, 0
        if is_ptr(b) and is_ptr(e) and b.args[0] is e.args[0]:
            d = st.norm(sub(e.args[1], b.args[1]))
            return b, e, (d // 8 if isinstance(d, int) else self.I.exact(d, 8))
        return b, e, None

    def name(self, v):
        return self.names.get(v, show(v) if isinstance(v, Term) else str(v))


class JsonImport(ImportBase):
    """K01, K02, K03, K05: createFrom(text, JWKS)."""
    props = ('K01', 'K02', 'K03', 'K05', 'K07', 'V08', 'V09')
    rule = ('a summary of the loop over the keys (or certificates): when an entry is left, the path facts entail that exactly the acceptable entries '
            'were added, with the material of that entry; at exit the status and the number of keys agree with the entries seen')
    assumptions = ('texts given to an import are shorter than 2 GiB',)
    expected = {'K01': {'exit status': 3, 'no keys on failure': 3}, 'K02': {'entry': 10}, 'K03': {'key': 3}, 'K05': {'map entry': 2, 'exit': 2},
                'K07': {'access': 1}, 'V08': {'access': 3}, 'V09': {'release': 5, 'held by the key set': 2}}

    def lookup(self, st, N, key, must):
        """'missing' | 'bad' | string term of member key of node N"""
        if not must(T('has', N, key)):
            return 'missing', None
        v = T('mapval', N, key)
        if not must(eq(st.norm(T('kind', v)), STR)):
            return 'bad', None
        return 'str', st.norm(T('pbstr', v))

    def b64(self, x):
        return T('b64', 'WebSafeBase64Unescape', x)

    def b64ok(self, st, x):
        x = st.norm(x)
        c = T('pred', 'b64ok', 'WebSafeBase64Unescape', x)
        return st.must(c)

    def empty(self, st, x):
        return x == '' if isinstance(x, str) else isempty(st, x)

    def is_(self, st, x, c):
        x = st.norm(x) if isinstance(x, Term) else x
        return x == c if isinstance(x, str) else istr(st, x, c)

    def judge(self, st, N):
        """('ok', wanted cells) or ('err', status name), partitioning."""
        L = lambda k: self.lookup(st, N, k, st.must)
        opt = lambda k: (lambda r: r[1] if r[0] == 'str' else '')(L(k))
        r, kty = L('kty')
        if r != 'str':
            return 'err', 'JwksMissingKty' if r == 'missing' else 'JwksBadKty'
        for t in ('EC', 'RSA', 'oct', 'OKP'):
            if self.is_(st, kty, t):
                break
        else:
            return 'err', 'JwksNotImplementedKty'
        alg = opt('alg')
        noalg = self.empty(st, alg)
        alg = '' if noalg else alg
        w = {'kty_': t}

        def need(k, missing, bad):
            r, v = L(k)
            if r == 'str':
                return v, None
            return None, ('err', missing if r == 'missing' else bad)
        if t == 'RSA':
            if not noalg and not any(prefixed(st, alg, p) for p in RSAALGS):
                return 'err', 'JwksRSAKeyBadAlg'
            n, e1 = need('n', 'JwksRSAKeyMissingN', 'JwksRSAKeyBadN')
            if e1:
                return e1
            e, e1 = need('e', 'JwksRSAKeyMissingE', 'JwksRSAKeyBadE')
            if e1:
                return e1
            bad = 'err', 'JwksRsaParseError'
            if not self.b64ok(st, n) or not self.b64ok(st, e):
                return bad
            n, e = self.b64(st.norm(n)), self.b64(st.norm(e))
            if not (st.must(T('pred', 'bnword', st.norm(e), 3)) or st.must(T('pred', 'bnword', st.norm(e), 65537))):
                return bad
            if not st.must(T('pred', 'ok', 'rsacheck', st.norm(n), st.norm(e))):
                return bad
            w['material'] = 'RSA', ((n, 'modulus'), (e, 'exponent'))
        elif t == 'EC':
            if not noalg and not prefixed(st, alg, 'ES'):
                return 'err', 'JwksECKeyBadAlg'
            r, crv = L('crv')
            if r == 'bad':
                return 'err', 'JwksECKeyBadCrv'
            crv = '' if r == 'missing' or self.empty(st, crv) else crv
            if not noalg and crv != '':
                for a, c in CURVES.items():
                    if self.is_(st, alg, a) and self.is_(st, crv, c):
                        break
                else:
                    return 'err', 'JwksECKeyAlgNotCompatibleWithCrv'
            elif noalg and crv == '':
                c = 'P-256'
            else:
                for a, c in CURVES.items():
                    if self.is_(st, crv, c) if noalg else self.is_(st, alg, a):
                        break
                else:
                    return 'err', 'JwksECKeyAlgOrCrvUnsupported'
            x, e1 = need('x', 'JwksECKeyMissingX', 'JwksECKeyBadX')
            if e1:
                return e1
            y, e1 = need('y', 'JwksECKeyMissingY', 'JwksECKeyBadY')
            if e1:
                return e1
            if not self.b64ok(st, x) or not self.b64ok(st, y):
                return 'err', 'JwksEcXorYBadBase64'
            x, y = self.b64(st.norm(x)), self.b64(st.norm(y))
            if not st.must(T('pred', 'ok', 'ecpoint', NID[c], st.norm(x), st.norm(y))):
                return 'err', 'JwksEcParseError'
            w['crv_'] = c
            w['material'] = 'EC', ((NID[c], 'curve'), (x, 'x coordinate'), (y, 'y coordinate'))
        elif t == 'oct':
            if not noalg and not any(self.is_(st, alg, a) for a in ('HS256', 'HS384', 'HS512')):
                return 'err', 'JwksHMACKeyBadAlg'
            k, e1 = need('k', 'JwksHMACKeyMissingK', 'JwksHMACKeyBadK')
            if e1:
                return e1
            if not self.b64ok(st, k) or isempty(st, self.b64(st.norm(k))):
                return 'err', 'JwksOctBadBase64'
            w['material'] = 'oct', self.b64(st.norm(k))
        else:
            if not noalg and not self.is_(st, alg, 'EdDSA'):
                return 'err', 'JwksOKPKeyBadAlg'
            crv, e1 = need('crv', 'JwksOKPKeyMissingCrv', 'JwksOKPKeyBadCrv')
            if e1:
                return e1
            if not self.is_(st, crv, 'Ed25519'):
                return 'err', 'JwksOKPKeyCrvUnsupported'
            x, e1 = need('x', 'JwksOKPKeyMissingX', 'JwksOKPKeyBadX')
            if e1:
                return e1
            if not self.b64ok(st, x):
                return 'err', 'JwksOKPXBadBase64'
            x = self.b64(st.norm(x))
            if not st.must(eq(st.norm(mk_size(st.norm(x))), 32)):
                return 'err', 'JwksOKPXWrongLength'
            w['crv_'] = 'Ed25519'
            w['material'] = 'OKP', x
        w['alg_'] = alg
        w['kid_'] = opt('kid')
        return 'ok', w

    # ------------------------------------------------------- array of keys
    def entry_node(self, k):
        return MO.node_of_struct(self.I, State(), None, ptr(T('structof', T('listval', self.V, k)), 0))

    def done(self, st, fr, k, second):
        """An entry of the array is left."""
        v = T('listval', self.V, k)
        if not st.must(eq(st.norm(T('kind', v)), STRUCT)):
            r = ('skip', None)
        else:
            r = self.judge(st, self.entry_node(st.norm(k)))
        pushed = st.ghost.get('pushed', ())
        # no mutation before this point
        kind, w = r
        first = st.ghost.get('phase') is None
        soft = self.lostentry(st, k)
        if kind == 'ok':
            self.ob('K02', 'entry', len(pushed) <= 1)
            if not pushed:
                st.ghost['miss'] = 1
            elif len(pushed) > 1:
                self.fail('K03', st, fr, 'adds %d keys for one entry' % len(pushed), soft=soft)
            else:
                bad = self.badkey(st, pushed[0], w)
                self.ob('K03', 'key', bad is None)
                if bad:
                    self.fail(bad[0], st, fr, 'a key is added for an entry of type %s, but %s' % (w['kty_'], bad[1]), soft=soft or self.lost(bad[2]))
                st.ghost.pop('miss', None) if second else None
        else:
            self.ob('K02', 'entry', not pushed)
            if pushed:
                p = 'K01' if kind == 'skip' else 'K02'
                self.fail(p, st, fr, 'adds a key for an entry that %s' % ('is no object' if kind == 'skip' else 'is due %s' % w), soft=soft)
        for K in pushed:
            self.hand_over(st, fr, K)
        st.ghost.pop('pushed', None)
        if kind == 'ok':
            st.ghost['phase'] = 'any'
            st.ghost.pop('#first', None)
            st.ghost['#first'] = 0
        elif kind == 'err' and first:
            st.ghost['phase'] = 'err'
            st.ghost['#first'] = self.status[w]

    def lostentry(self, st, k):
        return None

    # ------------------------------------------------------- certificates
    def on_mapelem(self, st, fr, n, k):
        if n is not self.J and n is not st.norm(self.J):
            return
        self.msw.touch(st, fr, k)
        s = self.msw.get(st)
        v = T('mapval', self.J, st.norm(T('entkey', self.J, k)))
        st.assume(le(mk_size(T('pbstr', v)), MAXTEXT), True)
        if st.ghost.get(self.msw.f[2]):
            if st.ghost.get('pass2') is None:
                st.ghost['pass2'] = 1
                st.ghost.pop('miss', None)
            if not st.ghost.get('shapebad'):
                # what the first pass established for every element
                for c, tr in self.shape(k):
                    if not st.assume(c, tr):
                        raise Prune()

    def shape(self, k):
        key = T('entkey', self.J, k)
        v = T('mapval', self.J, key)
        s = T('pbstr', v)
        return ((eq0(mk_size(key)), False), (eq(T('kind', v), STR), True), (mk_startswith(s, CERT[0]), True), (mk_endswith(s, CERT[1]), True))

    def shaped(self, st, k):
        for c, tr in self.shape(k):
            if bool(st.must(self.renorm(st, c))) != tr:
                return False
        return True

    def renorm(self, st, c):
        return st.norm(c) if isinstance(c, Term) else c

    def certerr(self, st, k):
        """Status name due for certificate k, or None; partitioning."""
        s = st.norm(T('pbstr', T('mapval', self.J, T('entkey', self.J, k))))
        c = T('crypto', 'X509', 'PEM_read_bio_X509', s)
        if not st.must(T('pred', 'ok', 'PEM_read_bio_X509', s)):
            return 'JwksX509ParseError', None
        pk = T('crypto', 'EVP_PKEY', 'X509_get_pubkey', c)
        if not st.must(T('pred', 'ok', 'X509_get_pubkey', c)):
            return 'JwksX509GetPubkeyError', None
        if not st.must(eq(st.norm(T('irange', 'pkeyid', pk, 0, 1 << 20)), 6)):
            return 'JwksX509GetPubkeyError', None
        return None, {'kty_': 'RSA', 'kid_': T('entkey', self.J, k), 'alg_': '', 'material': ('RSA', T('crypto', 'RSA', 'pkey', pk))}

    def mapdone(self, st, fr, k, second):
        good = self.shaped(st, k)
        pushed = st.ghost.get('pushed', ())
        err = want = None
        if good and (pushed or second or st.ghost.get('pass2')):
            err, want = self.certerr(st, k)
        self.ob('K05', 'map entry')
        if not good:
            st.ghost['shapebad'] = 1
        if not pushed:
            st.ghost['miss'] = 1
        else:
            bad = None
            if not good:
                bad = 'K05', 'a key is added for a member that is no certificate', None
            elif err:
                bad = 'K05', 'a key is added although %s is due' % err, None
            elif len(pushed) > 1:
                bad = 'K03', 'adds %d keys for one certificate' % len(pushed), None
            else:
                bad = self.badkey(st, pushed[0], want)
            self.ob('K03', 'key', bad is None)
            if bad:
                self.fail(bad[0], st, fr, 'certificate map: ' + bad[1], soft=self.lost(bad[2]))
        if err and not st.ghost.get('xerr'):
            st.ghost['xerr'] = err
        for K in pushed:
            self.hand_over(st, fr, K)
        st.ghost.pop('pushed', None)

    # ------------------------------------------------------------- events
    def on_index(self, st, fr, k, n, what):
        if what in ('list iterator', 'list index') and (n is self.nV or isinstance(n, Term) and st.norm(n) is st.norm(self.nV)):
            Crash.on_index(self, st, fr, k, n, what)
            self.lsw.touch(st, fr, k)
            if st.ghost.get(self.lsw.f[2]) and st.ghost.get('pass2') is None:
                st.ghost['pass2'] = 1
                st.ghost.pop('miss', None)
            return
        Crash.on_index(self, st, fr, k, n, what)

    def on_back(self, st, fr, key):
        self.lsw.back(st, fr, key)
        self.msw.back(st, fr, key)
        self.own_check(st, fr, self.roots(st), 'when the loop goes round')

    def oracle(self, st):
        """What is due at this exit, partitioning: (status name or None when
        the keys tell, kind of result)."""
        t = self.text
        if not st.must(T('pred', 'jsonok', t)):
            return 'JwksParseError', 'text'
        if not st.must(T('has', self.J, 'keys')):
            n = st.norm(MO.mcount(self.J))
            if st.must(eq(n, 0)):
                return 'JwksNoKeys', 'map'
            if st.ghost.get('shapebad'):
                return 'JwksNoKeys', 'map'
            s = self.msw.get(st)
            if st.ghost.get('xerr'):
                return st.ghost['xerr'], 'map'
            if not self.msw.complete(st):
                return None, 'map?'
            return 'Ok', 'map'
        if not st.must(eq(st.norm(T('kind', self.V)), LIST)):
            return 'JwksBadKeys', 'keys'
        return None, 'list'

    def pre_exit(self, st, fr, v):
        if self.lsw.get(st) is not None:
            self.lsw.finalise(st, fr)
        if self.msw.get(st) is not None:
            # an import that stops at a bad certificate leaves the rest alone
            s = self.msw.get(st)
            self.msw.finalise(st, fr)
        w, k = self.oracle(st)
        if k == 'list':
            self.lsw.complete(st)
        o = self.result(st)
        if o is not None:
            c = self.stcell(st, o)
            if isinstance(c, Term) and c.op != 'phi':
                self.code(st, c, st.must)

    def on_exit(self, st, fr, v):
        s = st.fork()
        o = self.result(s)
        if o is None:
            self.ob('K01', 'exit status', False)
            self.fail('K01', s, fr, 'returns no key set', soft='unknown result' if s.get(T('obj', 'ret'), 0) is not None else None)
            return
        cell = self.stcell(s, o)
        c = self.code(s, cell)
        b, e, n = self.vec(s, o)
        w, kind = self.oracle(s)
        for K in s.ghost.get('pushed', ()):
            self.hand_over(s, fr, K)
        self.own_check(s, fr, self.roots(s, True), 'at return')
        p = 'K05' if kind in ('map', 'map?', 'keys') else 'K01'
        ok = self.status['Ok']
        if p == 'K05':
            self.ob('K05', 'exit')
        if kind == 'list':
            return self.listexit(s, fr, cell, c, n)
        if w is None:
            self.ob('K01', 'exit status', False)
            self.fail(p, s, fr, 'returns %s before every member was looked at' % self.name(c))
            return
        self.ob('K01', 'exit status', c == self.status[w])
        if c != self.status[w]:
            self.fail(p, s, fr, 'the status is %s where %s is due' % (self.name(cell if c is None else c), w), soft=self.lost(cell) if c is None else None)
            return
        self.amount(s, fr, c, n, p)
        if w == 'Ok' and kind == 'map' and s.ghost.get('miss'):
            self.fail('K05', s, fr, 'a certificate of an accepted map is left out')

    def amount(self, s, fr, c, n, p):
        bad = None
        if c != self.status['Ok']:
            if n is None or s.decide(eq(n, 0)) is not True:
                bad = 'a failed import (%s) leaves %s keys in the set' % (self.name(c), show(n) if n is not None else 'unknown')
        elif n is None or s.decide(le(1, n)) is not True:
            bad = 'the import gives Ok with %s keys' % (show(n) if n is not None else 'unknown')
        self.ob('K01', 'no keys on failure', bad is None)
        if bad:
            self.fail('K01', s, fr, bad, soft='unknown number of keys' if n is None else None)

    def listexit(self, s, fr, cell, c, n):
        comp = self.lsw.completed(s)
        ph = s.ghost.get('phase')
        f = s.ghost.get('#first')
        f = s.norm(f) if isinstance(f, Term) else f
        S = self.status
        bad = None
        if not comp:
            bad = 'K01', 'returns %s before every entry was looked at' % self.name(c if c is not None else cell)
        elif ph == 'any':
            if c != S['Ok']:
                bad = 'K01', 'the status is %s although an entry is acceptable' % self.name(c if c is not None else cell)
            elif s.ghost.get('miss'):
                bad = 'K01', 'an acceptable entry is left out'
        elif ph == 'err':
            if not (c == f if c is not None and isinstance(f, int) else cell is f):
                bad = 'K01', 'the status is %s where the first error, %s, is due' % (self.name(c if c is not None else cell), self.name(f))
        elif c != S['JwksNoValidKeys']:
            bad = 'K01', 'the status is %s where JwksNoValidKeys is due' % self.name(c if c is not None else cell)
        self.ob('K01', 'exit status', bad is None)
        if bad:
            soft = self.lost(cell) if c is None and ph != 'err' else None
            self.fail(bad[0], s, fr, bad[1], soft=soft)
            if self.single and (ph == 'err' and c is not None and isinstance(f, int) or s.ghost.get('miss') and comp):
                self.ob('K02', 'status', False)
                self.fail('K02', s, fr, 'an acceptable entry is refused with %s' % self.name(c) if ph == 'any' else
                          'an entry is refused with %s where %s is due' % (self.name(c), self.name(f)))
            return
        if self.single and ph == 'err':
            self.ob('K02', 'status')
        self.amount(s, fr, c, n, 'K01')

    # ------------------------------------------------------------- analyse
    def begin(self):
        self.text = T('init', T('obj', 'pkey'), 0, 'str')
        self.J = T('json', self.text)
        self.V = T('mapval', self.J, 'keys')
        self.nV = MO.lcount(self.V)
        self.lsw = Sweep(self, 'list', T('listof', self.V), self.nV, 1, self.done, drop=lambda k: [T('listval', self.V, k)])
        self.msw = Sweep(self, 'map', T('ents', self.J), MO.mcount(self.J), 1, self.mapdone,
                         drop=lambda k: [T('entkey', self.J, k), T('mapval', self.J, T('entkey', self.J, k))])
        st = State()
        st.assume(le(mk_size(self.text), MAXTEXT))
        return st

    def analyse(self):
        f = self.fn('Jwks::createFrom')
        trouble = []
        st = self.begin()
        self.single = True
        passes = [('createFrom (no array, or one key)', True), ('createFrom (any)', False)]
        if self.only and self.only <= {'K02'}:
            passes = passes[:1] + passes[1:]
        for entry, single in passes:
            self.single = single
            st = self.begin()
            if single:
                st.assume(eq(self.nV, 1), True)
            try:
                self.run(f, ['ret', 'pkey', 0], st, entry=entry)
            except Inconclusive as e:
                trouble.append('%s: %s' % (entry, e))
        if trouble:
            raise Inconclusive('; '.join(trouble))


class PemImport(ImportBase):
    """K04 (and K01, K03, K07, V08, V09) of createFrom(PEM), createFromPem and
    addKeyFromPem."""
    props = ('K01', 'K03', 'K04', 'K07', 'V08', 'V09')
    rule = ('every exit of the three PEM entry points: the status follows from how the text parses and from the type of the key; one key object with '
            'the material of that text is in the set, or none; the set addKeyFromPem works on is written only behind its last key')
    assumptions = ('texts given to an import are shorter than 2 GiB',)
    expected = {'K01': {'no keys on failure': 2}, 'K03': {'key': 3}, 'K04': {'createFrom': 3, 'createFromPem': 5, 'addKeyFromPem': 5},
                'K07': {}, 'V08': {'access': 1}, 'V09': {'release': 3}}

    def on_push(self, st, fr, i, p, t, args):
        pass

    def on_vdestroy(self, st, fr, i, p, b, lo, n, esz, targ):
        if 'Pubkey' not in (targ or '') or not is_ptr(b):
            return
        if b.args[0] is self.base:
            self.fail('K04', st, fr, 'destroys keys the set held before')
            return
        for o, v in list(st.mem.get(b.args[0], {}).items()):
            k = st.norm(sub(o, scale(lo, 8)))
            if lo == 0 or (isinstance(k, int) and k >= 0):
                self.own_drop_reachable(st, st.norm(v) if isinstance(v, Term) else v)

    def on_insert(self, st, fr, i, p, at_end, f, n, move):
        if p.args[0] is self.jwks and not at_end:
            b, e = [st.norm(x) for x in MO.vget(self.I, st, fr, p)]
            self.fail('K04', st, fr, 'inserts keys elsewhere than behind the last one', soft=None if is_ptr(b) and b.args[0] is self.base else 'unknown')

    def on_store(self, st, fr, obj, off, v):
        if obj is self.base and not st.must(le(self.count8, off)):
            self.fail('K04', st, fr, 'writes to a key the set held before')

    def due(self, st):
        """(status name, wanted cells): what is due for the text."""
        t = st.norm(self.text)
        if not st.must(T('pred', 'ok', 'PEM_read_bio_PUBKEY', t)):
            return 'JwksPemBadBase64', None
        k = T('crypto', 'EVP_PKEY', 'PEM_read_bio_PUBKEY', t)
        kind = st.norm(T('irange', 'pkeyid', k, 0, 1 << 20))
        w = {'kid_': '', 'alg_': '', 'crv_': ''}
        if st.must(eq(kind, 6)):
            w['kty_'], w['material'] = 'RSA', ('RSA', T('crypto', 'RSA', 'pkey', k))
        elif st.must(eq(kind, 408)):
            w['kty_'], w['material'] = 'EC', ('EC', T('crypto', 'EC_KEY', 'pkey', k))
        elif st.must(eq(kind, 949)):
            if not st.must(T('pred', 'ok', 'raw_public_key', k)):
                return 'JwksPemGetRawEd25519Error', None
            w['kty_'], w['material'], w['crv_'] = 'OKP', ('OKP', T('bytesv', 'rawpub', k)), 'Ed25519'
        else:
            return 'JwksPemNotImplementedKty', None
        if self.op != 'createFrom':
            w['kid_'], w['alg_'] = self.kid, self.alg
            for a, c in CURVES.items():
                x = st.norm(self.alg)
                if x == a if isinstance(x, str) else istr(st, x, a):
                    w['crv_'] = c
                    break
        return 'Ok', w

    def cell0(self, st, off, ty='ptr'):
        return T('init', self.jwks, off, ty)

    def pre_exit(self, st, fr, v):
        self.due(st)
        c = v
        if self.op != 'addKeyFromPem':
            o = self.result(st)
            c = self.stcell(st, o) if o is not None else None
        if isinstance(c, Term):
            self.code(st, c, st.must)

    def on_exit(self, st, fr, v):
        s = st.fork()
        name, w = self.due(s)
        op = self.op
        if op == 'addKeyFromPem':
            cell = s.norm(v) if isinstance(v, Term) else v
        else:
            o = self.result(s)
            if o is None:
                self.ob('K04', op, False)
                self.fail('K04', s, fr, '%s returns no key set' % op, soft='unknown result' if s.get(T('obj', 'ret'), 0) is not None else None)
                return
            cell = self.stcell(s, o)
        c = self.code(s, cell)
        good = c == self.status[name]
        self.ob('K04', op, good)
        if not good:
            self.fail('K04', s, fr, '%s gives %s where %s is due' % (op, self.name(cell if c is None else c), name), soft=self.lost(cell) if c is None else None)
        elif op == 'addKeyFromPem':
            self.appended(s, fr, name, w)
        else:
            self.held(s, fr, o, name, w)
        self.own_check(s, fr, self.roots(s, True), 'at return')

    def held(self, s, fr, o, name, w):
        b, e, n = self.vec(s, o)
        if name != 'Ok':
            bad = n is None or s.decide(eq(n, 0)) is not True
            self.ob('K01', 'no keys on failure', not bad)
            if bad:
                self.fail('K01', s, fr, 'a failed import (%s) leaves %s keys in the set' % (name, show(n) if n is not None else 'unknown'),
                          soft='unknown number of keys' if n is None else None)
            return
        if n is None or s.decide(eq(n, 1)) is not True:
            self.fail('K04', s, fr, 'a set of %s keys is made from one text' % (show(n) if n is not None else 'unknown'),
                      soft='unknown number of keys' if n is None else None)
            return
        self.key(s, fr, b, w)

    def key(self, s, fr, p, w):
        K = s.get(p.args[0], p.args[1])
        K = s.norm(K) if isinstance(K, Term) else K
        if not is_ptr(K):
            self.fail('K04', s, fr, 'the key added is %s' % show(K), soft=self.lost(K) if isinstance(K, Term) else None)
            return
        self._hand_over(s, fr, K.args[0])
        bad = self.badkey(s, K.args[0], w)
        self.ob('K03', 'key', bad is None)
        if bad:
            # kid, alg and curve of createFromPem are K04's as well
            for p in ('K03', 'K04'):
                self.fail(p, s, fr, '%s: the key added is of type %s, but %s' % (self.op, w['kty_'], bad[1]), soft=self.lost(bad[2]))

    def appended(self, s, fr, name, w):
        b, e = [s.get(self.jwks, self.keyoff + x) for x in (0, 8)]
        b, e = [s.norm(x) if isinstance(x, Term) else x for x in (b, e)]
        same = (b is None and e is None) or (is_ptr(b) and b.args[0] is self.base and is_ptr(e) and e.args[0] is self.base
                                             and s.decide(eq(e.args[1], self.count8)) is True)
        if name != 'Ok':
            st0 = s.get(self.jwks, self.stoff)
            if not same:
                self.fail('K04', s, fr, 'a failed addKeyFromPem (%s) changes the keys of the set' % name)
            elif st0 is not None and s.norm(st0) is not T('init', self.jwks, self.stoff, 'i32'):
                self.fail('K04', s, fr, 'a failed addKeyFromPem (%s) changes the status of the set' % name)
            return
        if not (is_ptr(b) and b.args[0] is self.base and b.args[1] == 0 and is_ptr(e) and e.args[0] is self.base):
            self.fail('K04', s, fr, 'addKeyFromPem leaves a set without the keys it held before', soft=self.lost(b) if isinstance(b, Term) and not same else None)
            return
        if s.decide(eq(e.args[1], add(self.count8, 8))) is not True:
            self.fail('K04', s, fr, 'addKeyFromPem gives Ok and the set ends at %s where one key more than %s is due' % (show(e.args[1]), show(self.count8)))
            return
        self.key(s, fr, ptr(self.base, self.count8), w)

    def analyse(self):
        self.text = T('init', T('obj', 'pkey'), 0, 'str')
        self.kid = T('init', T('obj', 'kid'), 0, 'str')
        self.alg = T('init', T('obj', 'alg'), 0, 'str')
        self.jwks = T('obj', 'jwks')
        self.base = T('deref', self.jwks, self.keyoff)
        self.count8 = scale(T('count', self.jwks, self.keyoff), 8)
        trouble = []
        for op, args in (('createFrom', ['ret', 'pkey', 1]), ('createFromPem', ['ret', 'pkey', 'kid', 'alg']), ('addKeyFromPem', ['jwks', 'pkey', 'kid', 'alg'])):
            self.op = op
            st = State()
            st.assume(le(mk_size(self.text), MAXTEXT))
            try:
                self.run(self.fn('Jwks::' + op), args, st)
            except Inconclusive as e:
                trouble.append('%s: %s' % (op, e))
        if trouble:
            raise Inconclusive('; '.join(trouble))


class StatusSpec(Crash, Spec):
    """K06: the messages, and the recorder of the first failure."""
    props = ('K06',)
    crash_prop = 'K06'
    drivers = ('drivers/recorder.cc',)
    rule = ('the message function is evaluated for every declared enumerator and once for any other value; the recorder of a status is followed '
            'from an arbitrary recorded status and an arbitrary new one')
    expected = {'K06': {'message': 10, 'no message': 1, 'update': 2, 'reset': 1, 'initial': 1, 'get': 1}}

    def on_exit(self, st, fr, v):
        s = st.fork()
        getattr(self, 'exit_' + self.what)(s, fr, v)

    def text(self, s):
        x = s.get(T('obj', 'ret'), 0)
        return s.norm(x) if isinstance(x, Term) else x

    def exit_message(self, s, fr, v):
        x = self.text(s)
        self.texts.setdefault(self.k, set()).add(x)
        n = self.names[self.k]
        good = isinstance(x, str) and x != ''
        self.ob('K06', 'message', good)
        if not good:
            self.fail('K06', s, fr, '%s has %s' % (n, 'no message' if x == '' else 'the message %s' % show(x)),
                      soft=None if x == '' else 'unknown text')

    def exit_other(self, s, fr, v):
        x = self.text(s)
        good = x == '' or (isinstance(x, Term) and s.decide(eq0(mk_size(x))) is True)
        self.ob('K06', 'no message', good)
        if not good:
            self.fail('K06', s, fr, 'a value outside the enumeration has the message %s' % show(x), soft=None if isinstance(x, str) else 'unknown text')

    def cell(self, s, o):
        x = s.get(o, self.stoff)
        if x is None:
            x = T('init', o, self.stoff, 'i32')
        return s.norm(x) if isinstance(x, Term) else x

    def same(self, s, x, y):
        x, y = [s.norm(z) if isinstance(z, Term) else z for z in (x, y)]
        if x is y or x == y:
            return True
        if not isinstance(x, (int, Term)) or isinstance(x, Term) and (is_ptr(x) or x in (UNDEF, NULL)):
            return False
        return s.decide(eq(x, y)) is True

    def pre_exit(self, st, fr, v):
        if self.what == 'update':
            st.must(eq(st.norm(self.s0), 0))

    def exit_update(self, s, fr, v):
        was = s.decide(eq(self.s0, 0))
        want = self.s1 if was else self.s0
        good = self.same(s, self.cell(s, self.r), want)
        self.ob('K06', 'update', good)
        if not good:
            self.fail('K06', s, fr, 'after recording a status %s, the status is %s' % (
                'in an object without failure' if was else 'in an object that has a failure', show(self.cell(s, self.r))))

    def exit_reset(self, s, fr, v):
        good = self.same(s, self.cell(s, self.r), self.s1)
        self.ob('K06', 'reset', good)
        if not good:
            self.fail('K06', s, fr, 'after a reset the status is %s' % show(self.cell(s, self.r)))

    def exit_initial(self, s, fr, v):
        x = self.cell(s, self.r)
        good = self.same(s, x, 0)
        self.ob('K06', 'initial', good)
        if not good:
            self.fail('K06', s, fr, 'a new object has the status %s' % show(x))

    def exit_get(self, s, fr, v):
        good = self.same(s, v, T('init', self.r, self.stoff, 'i32'))
        self.ob('K06', 'get', good)
        if not good:
            self.fail('K06', s, fr, 'getStatus gives %s where the recorded status is due' % show(v))

    def analyse(self):
        so = [x[0] for x in self.P.members(NSV + 'WithStatus').values() if 'Status' in x[1]]
        if len(so) != 1:
            raise BrokenTree('the status in WithStatus was not found')
        self.stoff = so[0]
        self.r = T('obj', 'rec')
        self.s0 = T('init', self.r, self.stoff, 'i32')
        self.s1 = T('init', T('obj', 'arg'), 0, 'i32')
        enum = self.enum()
        self.names = {}
        for n, k in enum.items():
            self.names.setdefault(k, n)
        f = self.fn('getStatusString')
        self.texts = {}
        trouble = []

        def go(what, fn, args, st=None, entry=None):
            self.what = what
            try:
                self.run(fn, args, st or State(), entry=entry)
            except Inconclusive as e:
                trouble.append('%s: %s' % (entry or what, e))
        for self.k in sorted(self.names):
            go('message', f, ['ret', self.k], entry='getStatusString(%s)' % self.names[self.k])
        of = {}
        for k, ts in sorted(self.texts.items()):
            for t in ts:
                if isinstance(t, str) and t != '':
                    if t in of:
                        self.ob('K06', 'different messages', False)
                        self.fail('K06', State(), None, '%s and %s have the same message %r' % (self.names[of[t]], self.names[k], t))
                    else:
                        self.ob('K06', 'different messages')
                        of[t] = k
        st = State()
        for k in self.names:
            st.assume(eq(self.s1, k), False)
        st.assume(ge0(self.s1), True)
        go('other', f, ['ret', self.s1], st, 'getStatusString(any other value)')
        st = State()
        for k in self.names:
            st.assume(eq(self.s1, k), False)
        st.assume(ge0(self.s1), False)
        go('other', f, ['ret', self.s1], st, 'getStatusString(any other negative value)')
        for what, name, args in (('update', 'updateStatus', ['rec', self.s1]), ('reset', 'resetStatus', ['rec', self.s1]),
                                 ('get', 'getStatus', ['rec']), ('initial', 'WithStatus', ['rec'])):
            go(what, self.fn('WithStatus::' + name), args)
        if trouble:
            raise Inconclusive('; '.join(trouble))


class ParseCrash(ParseSpec):
    """K07 on parsing a token."""
    props = ('K07',)
    crash_prop = 'K07'
    rule = 'every access, index, end iterator, absent result and assertion on the paths of parsing is safe'
    expected = {'K07': {}}

    def want(self, p):
        return p == 'K07'


class LookupCrash(LookupSpec):
    """K07 on the lookups of claims."""
    props = ('K07',)
    crash_prop = 'K07'
    rule = ParseCrash.rule
    expected = {'K07': {'index': 1}}

    def want(self, p):
        return p == 'K07'
