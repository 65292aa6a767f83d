"""Writes one planted bug (patch, demonstration, meta) and tries the demonstration on both trees."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkkit import kit
SEED = '/verif/seeded'


def mk(bid, prop, edits, srcs, demo, needs, breaks, pre='', run='"$WORK/demo"', only=None, extra=()):
    if only and bid not in only:
        return
    d = os.path.join(SEED, bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    kit(os.path.join(d, 'kit'))
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo.lstrip('\n'))
    for n, c in extra:
        open(os.path.join(d, n), 'w').write(c)
    sh = '#!/bin/bash\n# exits 0 when the behaviour is right, 1 when it is broken\nHERE="$(cd "$(dirname "$0")" && pwd)"\n. "$HERE/kit/kit.sh"\n%sbuild demo "$HERE/demo.cpp" %s\n%s\n' % (pre, ' '.join('"$PWD/%s"' % s for s in srcs), run)
    open(os.path.join(d, 'demo.sh'), 'w').write(sh)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    t = '/tmp/seedrepo'
    shutil.rmtree(t, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
    for f, old, new in edits:
        s = open(os.path.join(t, f)).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d occurrences in %s of %r' % (bid, s.count(old), f, old))
        open(os.path.join(t, f), 'w').write(s.replace(old, new))
    p = subprocess.run(['git', '-C', t, 'diff'], check=True, capture_output=True).stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(p)
    a = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=t, capture_output=True, text=True)
    print('%s %s: unchanged %d, patched %d %s' % (bid, prop, a.returncode, b.returncode, 'ok' if a.returncode == 0 and b.returncode not in (0, 98, 99) else 'BAD\n' + a.stdout[-1500:] + a.stderr[-3000:] + b.stdout[-800:] + b.stderr[-800:]))
    shutil.rmtree(t, ignore_errors=True)
