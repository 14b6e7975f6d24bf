"""Plant bugs: mkseed.py <spec.py> [name filters]

Each seed of the spec's S list is a dict: id, prop, edits [(file, old, new)],
demo (body of main and helpers), needs, breaks; optional flags (extra compile
flags), srcs (what to link, default the library).  A seed is kept under
/verif/seeded/<id> when it builds, the stable tests pass with it, and the
demonstration passes without and fails with it.  The work happens in a scratch
copy mounted over /repo in a private mount namespace."""
import sys
import os
import json
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def inns(scratch, cmd, timeout=900):
    return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && %s' % (scratch, cmd)],
                          capture_output=True, text=True, timeout=timeout)


def one(s):
    i = s['id']
    w = '/tmp/ms/' + i
    d = '/tmp/ms/d_' + i
    for x in (w, d):
        shutil.rmtree(x, ignore_errors=True)
    os.makedirs(d)
    try:
        shutil.copytree('/repo', w, symlinks=True, copy_function=shutil.copy2)
        for f, o, n in s['edits']:
            p = w + '/' + f
            t = open(p).read()
            if o not in t:
                return i, 'PATTERN NOT FOUND in %s: %s' % (f, o[:60])
            open(p, 'w').write(t.replace(o, n, 1))
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        shutil.copy(HERE + '/seeds/dem.h', d)
        body = s['demo']
        if 'main()' not in body:
            body = 'int main() {\n' + body.strip('\n') + '\n  return g_failed;\n}\n'
        inc = s.get('inc', '#include "dem.h"\n')
        open(d + '/demo.cc', 'w').write(inc + '\n' + body.lstrip('\n'))
        sh = open(HERE + '/seeds/demo.sh').read().replace('FLAGS', s.get('flags', '')).replace('SRCS', s.get('srcs', '/repo/_build/libjwt_verify_lib.a'))
        open(d + '/demo.sh', 'w').write(sh)
        os.chmod(d + '/demo.sh', 0o755)
        r = inns(w, 'cd /repo && bash %s/demo.sh' % d)
        # the scratch tree's build products are still those of the base
        if s.get('srcs') and '.cc' in s['srcs'] or s.get('header'):
            subprocess.run(['git', '-C', w, 'stash', '-q'])
            r = inns(w, 'cd /repo && bash %s/demo.sh' % d)
            subprocess.run(['git', '-C', w, 'stash', 'pop', '-q'])
        if r.returncode != 0:
            return i, 'DEMO FAILS ON BASE rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-600:])
        r = inns(w, 'bash /opt/vp/test.sh /repo/_build/out.json')
        j = json.load(open(w + '/_build/out.json'))
        miss = STABLE - set(j['passed'])
        if miss:
            return i, 'TESTS FAIL %s %s' % (sorted(miss)[:4], r.stderr[-300:] + r.stdout[-300:] if len(miss) > 200 else '')
        r = inns(w, 'cd /repo && bash %s/demo.sh' % d)
        if r.returncode in (0, 98, 99):
            return i, 'DEMO rc=%d WITH PATCH %s' % (r.returncode, r.stderr[-300:])
        o = '/verif/seeded/' + i
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(d, o)
        open(o + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        res = 'kept (demo rc=%d)' % r.returncode
        if os.path.exists('/verif/MANIFEST.json'):
            q = subprocess.run([sys.executable, '-m', 'sa.check', s['prop']], cwd='/verif', capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=w, SA_EVID='/tmp/ms'), timeout=900)
            l = [x for x in q.stdout.splitlines() if not x.startswith('    ')]
            res += ' check rc=%d %s' % (q.returncode, (l[0] if l else q.stderr[-200:])[:150])
        return i, res
    except Exception as e:
        return i, 'EXC %r' % e
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    S = ns['S']
    if sys.argv[2:]:
        S = [s for s in S if any(x in s['id'] for x in sys.argv[2:])]
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, S):
            print('%-24s %s' % (i, r))
            sys.stdout.flush()


main()
