"""plants a bug: plant(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)
Verifies, in scratch copies, that the patch applies, changes lines of the original tree, keeps the tests passing, and that
the demonstration tells the two trees apart; then keeps it in seeded/<id>."""
import json
import os
import pathlib
import shutil
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parents[1]
BASE = 'ce19ba8'
SH = '''#!/bin/bash
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec "$PY" "$(dirname "$0")/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
import tempfile
import warnings
warnings.simplefilter('ignore')
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def plant(id, property, needs, breaks, edits, demo):
    d = f'/tmp/plant-{id}'
    shutil.rmtree(d, ignore_errors=True)
    sh('git', 'clone', '-q', '/repo', d)
    try:
        sh('git', 'config', 'core.pager', 'cat', cwd=d)
        for f, old, new in edits:
            p = pathlib.Path(d, f)
            s = p.read_text()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = sh('git', 'diff', cwd=d).stdout
        # removed lines that the original tree had
        orig = 0
        f = None
        for l in sh('git', 'diff', '-U0', cwd=d).stdout.splitlines():
            if l.startswith('--- a/'):
                f = l[6:]
            elif l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                n = int(a[1]) if len(a) > 1 else 1
                if n:
                    b = sh('git', 'blame', '-s', '-L', f'{a[0]},+{n}', 'HEAD', '--', f, cwd=d).stdout
                    orig += sum(BASE in x.split()[0] for x in b.splitlines())
        assert orig, (id, 'changes no original line')
        t = ROOT / 'seeded' / id
        tmp = pathlib.Path(f'/tmp/plant-{id}-out')
        shutil.rmtree(tmp, ignore_errors=True)
        tmp.mkdir()
        (tmp / 'demo.sh').write_text(SH)
        (tmp / 'demo.sh').chmod(0o755)
        (tmp / 'demo.py').write_text(HEAD + demo)
        bad = sh('bash', str(tmp / 'demo.sh'), cwd=d, timeout=300)
        sh('git', 'checkout', '--', '.', cwd=d)
        good = sh('bash', str(tmp / 'demo.sh'), cwd=d, timeout=300)
        (tmp / 'patch.diff').write_text(diff)
        ap = sh('git', 'apply', str(tmp / 'patch.diff'), cwd=d)
        assert ap.returncode == 0, ap.stderr
        test = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider', 'tests',
                  '--deselect', 'tests/test_atoms.py::TestAtom::test_repr', cwd=d, env=dict(os.environ, PYTHONPATH=d))
        ok = test.stdout.strip().splitlines()[-1] if test.stdout.strip() else test.stderr[-300:]
        print(id, 'good', good.returncode, 'bad', bad.returncode, 'tests', ok, f'({orig} original lines)')
        if good.returncode != 0 or bad.returncode == 0 or test.returncode != 0:
            print('   REJECTED', good.stderr[-800:], bad.stderr[-300:], test.stdout[-600:] if test.returncode else '')
            return False
        print('   bad says:', (bad.stdout + bad.stderr).strip().splitlines()[-1:])
        (tmp / 'meta.json').write_text(json.dumps({'property': property, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(tmp, t)
        shutil.rmtree(tmp)
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)
