"""Loads the exported LLVM IR of /repo's translation units."""
import json
import os
import re
import subprocess
import sys
import hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'clang++-18'
FLAGS = ['-I' + REPO, '-isystem', '/usr/include/android', '-g', '-fno-limit-debug-info', '-std=c++17', '-O1',
         '-include', os.path.join(VERIF, 'drivers', 'simple.h'), '-Xclang', '-disable-llvm-passes']


class Inconclusive(Exception):
    """The analysis cannot decide (never reported as a violation)."""


class BrokenTree(Exception):
    """The tree does not compile: no answer."""


def tool():
    """Path of the IR exporter; built on demand."""
    src = os.path.join(VERIF, 'tools', 'irdump.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'irdump-' + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        subprocess.run([CXX, '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                        '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
        os.replace(tmp, exe)
    return exe


def export(src, out, extra=()):
    bc = out + '.bc'
    r = subprocess.run([CXX] + FLAGS + list(extra) + ['-c', '-emit-llvm', '-o', bc, src], capture_output=True, text=True)
    if r.returncode:
        raise BrokenTree('%s does not compile:\n%s' % (src, r.stderr[-2000:]))
    with open(out, 'w') as f:
        subprocess.run([tool(), bc, REPO + '/'], stdout=f, check=True)
    os.unlink(bc)
    return out


def witness(src, macro):
    """Messages of the static assertions of a file that fail."""
    r = subprocess.run([CXX] + FLAGS + ['-D' + macro, '-fsyntax-only', '-ferror-limit=0', src], capture_output=True, text=True)
    return re.findall(r'static assertion failed[^\n]*?: ([^\n]*)', r.stderr)


# ------------------------------------------------------------------ names
_OPS = ['operator->*', 'operator->', 'operator<<=', 'operator>>=', 'operator<=>', 'operator<<', 'operator>>',
        'operator<=', 'operator>=', 'operator<', 'operator>', 'operator()']
_PH = {o: 'operator\x01%d\x02' % i for i, o in enumerate(_OPS)}


def shorten(s):
    s = s.replace('absl::debian3::', 'absl::').replace('google::protobuf::', 'pb::').replace('google::jwt_verify::', 'jv::')
    s = s.replace('google::simple_lru_cache::', 'lru::')
    s = s.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
    s = s.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string')
    s = s.replace('std::basic_string_view<char, std::char_traits<char>>', 'std::string_view')
    s = s.replace('std::basic_string_view<char, std::char_traits<char> >', 'std::string_view')
    s = s.replace('std::__cxx11::', 'std::').replace('std::string', 'string') if False else s.replace('std::__cxx11::', 'std::')
    s = s.replace('[abi:cxx11]', '').replace('string::basic_string', 'string::string').replace('string::~basic_string', 'string::~string')
    s = s.replace('std::string_view::basic_string_view', 'std::string_view::string_view')
    s = s.replace('{lambda', 'lambda{').replace('(anonymous namespace)', 'anon')
    return s


def split_name(dem):
    """(normalised name, list of first-level template arguments of the class, parameter text)"""
    s = shorten(dem)
    for o in _OPS:
        s = s.replace(o, _PH[o])
    # conversion operators
    conv = None
    # parameter list: first '(' at depth 0
    depth = 0
    pstart = None
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<[{':
            depth += 1
        elif c in '>]}':
            depth -= 1
        elif c == '(' and depth == 0:
            pstart = i
            break
        i += 1
    params = s[pstart + 1:] if pstart is not None else ''
    n = s[:pstart] if pstart is not None else s
    m = re.search(r'operator ', n)
    if m:
        # only a conversion operator if at depth 0
        d = n[:m.start()].count('<') - n[:m.start()].count('>')
        if d == 0:
            conv = n[m.end():]
            n = n[:m.start()] + 'operator_conv'
    # return type: last space at depth 0
    depth = 0
    cut = 0
    for i, c in enumerate(n):
        if c in '<{':
            depth += 1
        elif c in '>}':
            depth -= 1
        elif c == ' ' and depth == 0:
            cut = i + 1
    n = n[cut:]
    # strip template arguments, remember those of the first template
    out = []
    depth = 0
    targs = []
    cur = ''
    for c in n:
        if c == '<':
            depth += 1
            if depth == 1:
                cur = ''
                continue
        if c == '>':
            depth -= 1
            if depth == 0:
                targs.append(cur)
                continue
        if depth == 0:
            out.append(c)
        else:
            cur += c
    name = ''.join(out)
    for o in _OPS:
        name = name.replace(_PH[o], o)
        params = params.replace(_PH[o], o)
        targs = [t.replace(_PH[o], o) for t in targs]
    name = name.replace('operator_conv', 'operator ' + re.sub(r'<.*', '', (conv or '').strip()))
    k = 1
    for j, c in enumerate(params):
        k += (c == '(') - (c == ')')
        if k == 0:
            rest = params[j + 1:].replace(' const', '')
            if rest.startswith('::'):
                name += '::lambda' if 'lambda' in rest else '::local' + re.sub(r'<.*?>|\(.*', '', rest)
            break
    first = first_arg(targs[0]) if targs else None
    return name, first, params, targs


def first_arg(t):
    d = 0
    for i, c in enumerate(t):
        if c in '<({':
            d += 1
        elif c in '>)}':
            d -= 1
        elif c == ',' and d == 0:
            return t[:i].strip()
    return t.strip()


class Inst:
    __slots__ = ('o', 'd', 't', 'line', 'a', 'x', 'id')

    def __init__(self, j, i):
        self.o = j['o']
        self.d = j.get('d')
        self.t = j.get('t')
        self.line = tuple(j['l']) if 'l' in j else None
        self.a = j.get('a', ())
        self.x = j
        self.id = i


def _regs(v, out):
    if v[0] == 'r':
        out.add(v[1])
    elif v[0] == 'cast':
        _regs(v[1], out)


class Fn:
    def __init__(self, name, j, tu):
        self.name = name
        self.dem = j['dem']
        self.tu = tu
        self.params = j['params']
        self.ret = j.get('ret')
        self.decl = bool(j.get('decl')) or 'blocks' not in j
        self.repo = bool(j.get('repo'))
        self.local = bool(j.get('local'))
        self.file = j.get('file')
        self.line = j.get('line')
        self.sret = j.get('sret')
        self.short, self.targ, self.ptext, self.targs = split_name(self.dem)
        self.vars = {int(k): v for k, v in j.get('vars', {}).items()}
        self._j = j.get('blocks')
        self._blocks = None
        self._cfg = None
        self._marked = None
        self._liveat = None
        self._slotlive = None

    @property
    def blocks(self):
        if self._blocks is None:
            n = 0
            self._blocks = []
            for b in self._j or ():
                r = []
                for x in b:
                    i = Inst(x, n)
                    i.a = tuple(self.tu.operand(v) for v in i.a)
                    if 'f' in x:
                        x['f'] = self.tu.operand(x['f'])
                    if i.o == 'phi':
                        x['in'] = {bb: self.tu.operand(v) for bb, v in x['in']}
                    if i.o == 'switch':
                        x['cases'] = [(int(v), bb) for v, bb in x['cases']]
                    r.append(i)
                    n += 1
                self._blocks.append(r)
        return self._blocks

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.o == 'br':
            return list(t.x['s'])
        if t.o == 'invoke':
            return [t.x['s'][0]]
        if t.o == 'switch':
            return [bb for _, bb in t.x['cases']] + [t.x['def']]
        return []

    def live_at(self, blk, idx):
        """Registers that may be used from instruction idx of block blk on."""
        if self._liveat is None:
            self._liveat = {}
        r = self._liveat.get((blk, idx))
        if r is None:
            live = self.cfg['live']
            r = set()
            for s in self.succs(blk):
                r |= live[s]
                for i in self.blocks[s]:
                    if i.o != 'phi':
                        break
                    v = i.x['in'].get(blk)
                    if v is not None and v[0] == 'r':
                        r.add(v[1])
            for i in reversed(self.blocks[blk][idx:]):
                if i.d is not None:
                    r.discard(i.d)
                for v in i.a:
                    _regs(v, r)
                if 'f' in i.x:
                    _regs(i.x['f'], r)
            r = self._liveat[(blk, idx)] = frozenset(r)
        return r

    @property
    def marked(self):
        """Allocas with lifetime markers."""
        if self._marked is None:
            self._marked = {i.a[1][1] for b in self.blocks for i in b if i.o == 'call' and i.x['f'][0] == 'g'
                            and i.x['f'][1].startswith('llvm.lifetime.') and i.a[1][0] == 'r'}
        return self._marked

    @property
    def slotlive(self):
        """Per block: the scalar slots (only loaded and stored directly) whose
        content may be read before it is written again."""
        if self._slotlive is None:
            bad, slots = set(), set()
            nb = len(self.blocks)
            use = [set() for _ in range(nb)]
            dfn = [set() for _ in range(nb)]
            for b, ins in enumerate(self.blocks):
                for i in ins:
                    if i.o == 'alloca':
                        slots.add(i.d)
                        continue
                    ops = list(i.x['in'].values()) if i.o == 'phi' else list(i.a)
                    if i.o == 'load' and ops[0][0] == 'r':
                        if ops[0][1] not in dfn[b]:
                            use[b].add(ops[0][1])
                        continue
                    if i.o == 'store' and ops[1][0] == 'r':
                        dfn[b].add(ops[1][1])
                        ops = ops[:1]
                    for v in ops:
                        _regs(v, bad)
            live = [set() for _ in range(nb)]
            ch = True
            while ch:
                ch = False
                for b in range(nb - 1, -1, -1):
                    out = set()
                    for q in self.succs(b):
                        out |= live[q]
                    n = use[b] | (out - dfn[b])
                    if n != live[b]:
                        live[b] = n
                        ch = True
            ok = slots - bad
            self._slotlive = [x & ok for x in live]
        return self._slotlive

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = self._mkcfg()
        return self._cfg

    def _mkcfg(self):
        nb = len(self.blocks)
        preds = [[] for _ in range(nb)]
        state = {}
        back = set()
        stack = [(0, iter(self.succs(0)))]
        state[0] = 1
        order = []
        while stack:
            b, it = stack[-1]
            for s in it:
                preds[s].append(b)
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
                if state[s] == 1:
                    back.add((b, s))
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        loops = {}
        for (b, h) in back:
            body = loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds[x])
        # liveness of registers at block entries
        live = None
        if True:
            use = [set() for _ in range(nb)]
            dfn = [set() for _ in range(nb)]
            phiuse = [dict() for _ in range(nb)]

            def regs(v, out):
                if v[0] == 'r':
                    out.add(v[1])
                elif v[0] in ('cast',):
                    regs(v[1], out)
                elif v[0] == 'agg':
                    pass
            for b in state:
                for i in self.blocks[b]:
                    if i.o == 'phi':
                        for bb, v in i.x['in'].items():
                            u = set()
                            regs(v, u)
                            phiuse[b].setdefault(bb, set()).update(u)
                    else:
                        u = set()
                        for v in i.a:
                            regs(v, u)
                        if 'f' in i.x:
                            regs(i.x['f'], u)
                        use[b] |= (u - dfn[b])
                    if i.d is not None:
                        dfn[b].add(i.d)
            live = [set() for _ in range(nb)]
            ch = True
            while ch:
                ch = False
                for b in order:
                    o = set()
                    for s in self.succs(b):
                        o |= live[s] | phiuse[s].get(b, set())
                    n = use[b] | (o - dfn[b])
                    if n != live[b]:
                        live[b] = n
                        ch = True
        return {'back': back, 'loops': loops, 'live': live, 'preds': preds}


class Intrinsic:
    """A callee without IR declaration record (llvm.* intrinsics)."""
    decl, repo, local, blocks, ptext, targs = True, False, False, (), '', ()

    def __init__(self, name):
        self.name = self.dem = self.short = name


class TU:
    def __init__(self, prog, tag):
        self.prog, self.tag = prog, tag
        self.localf = {}
        self.localg = {}

    def operand(self, v):
        k = v[0]
        if k == 'i':
            return ('i', int(v[2]), v[1])
        if k == 'f':
            return ('f', float.fromhex(v[1]) if v[1] not in ('inf', '-inf', 'nan', '-nan') else float(v[1]))
        if k == 'g':
            return ('g', self.localf.get(v[1]) or self.localg.get(v[1]) or v[1], v[2])
        if k == 'cast':
            return ('cast', self.operand(v[1]))
        if k == 'agg':
            return ('agg', [(o, t, self.operand(x) if not isinstance(x, (str, int)) else x) for o, t, x in v[1]])
        return tuple(v)


class Program:
    def __init__(self):
        self.fns = {}
        self.globals = {}
        self.structs = {}
        self.enums = {}
        self.files = {}
        self.ctors = []
        self.tus = []

    def load(self, path):
        J = json.load(open(path))
        tag = os.path.basename(J['source'])
        tu = TU(self, tag)
        tu.files = J['files']
        self.tus.append(tu)
        for n, g in J['globals'].items():
            if g.get('local'):
                tu.localg[n] = n + '@' + tag
        for n, f in J['functions'].items():
            if f.get('local'):
                tu.localf[n] = n + '@' + tag
        for n, g in J['globals'].items():
            q = tu.localg.get(n, n)
            g['name'] = q
            if 'init' in g:
                g['init'] = [(o, t, tu.operand(x) if isinstance(x, list) else x) for o, t, x in g['init']]
            old = self.globals.get(q)
            if old is None or (old.get('decl') and not g.get('decl')):
                self.globals[q] = g
        for n, f in J['functions'].items():
            q = tu.localf.get(n, n)
            fn = Fn(q, f, tu)
            old = self.fns.get(q)
            if old is None or (old.decl and not fn.decl):
                self.fns[q] = fn
        for n, t in J.get('aliases', {}).items():
            t = self.fns.get(tu.localf.get(t, t))
            if t is not None and (self.fns.get(n) is None or self.fns[n].decl):
                self.fns[n] = t
        for n, s in J['structs'].items():
            o = self.structs.get(n)
            if o is None or len(o['members']) < len(s['members']):
                self.structs[n] = s
        self.enums.update(J['enums'])
        for c in J.get('ctors', ()):
            self.ctors.append(tu.localf.get(c, c))
        return tu

    def fname(self, fn, line):
        if not line:
            return '?'
        f = fn.tu.files[line[0]]
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        return '%s:%d' % (f, line[1])

    def find(self, dem_prefix, repo=True):
        """Defined functions whose demangled name starts with the text."""
        return [f for f in dict.fromkeys(self.fns.values()) if not f.decl and f.dem.startswith(dem_prefix) and (f.repo or not repo)]

    def members(self, struct):
        return {m[0]: (m[1], m[2], m[3], m[4]) for m in self.structs[struct]['members']}


SOURCES = None


def load_repo(extra=()):
    """Compile and load every translation unit of the library (src/*.cc) and
    the given driver files."""
    from concurrent.futures import ThreadPoolExecutor
    import tempfile
    import shutil
    tool()
    srcs = sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cc'))
    d = tempfile.mkdtemp(prefix='sa-ir-')
    try:
        jobs = [(s, os.path.join(d, '%d-%s.json' % (k, os.path.basename(s)))) for k, s in enumerate(list(srcs) + list(extra))]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: export(*j), jobs))
        p = Program()
        for _, o in jobs:
            p.load(o)
    finally:
        shutil.rmtree(d)
    return p
