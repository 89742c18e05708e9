"""runs each seeded change's own check (or the checks given with -c) against a scratch copy with the change applied"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import time

ROOT = pathlib.Path(__file__).resolve().parents[1]
args = sys.argv[1:]
checks = None
if '-c' in args:
    i = args.index('-c')
    checks = args[i + 1].split(',')
    del args[i:i + 2]
for d in sorted((ROOT / 'seeded').iterdir()):
    if args and not any(x in d.name for x in args):
        continue
    meta = json.loads((d / 'meta.json').read_text())
    copy = f'/tmp/seeded-{d.name}'
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree('/repo', copy)
    try:
        subprocess.run(['git', 'apply', str(d / 'patch.diff')], cwd=copy, check=True)
        for c in checks or [meta['property']]:
            t = time.time()
            r = subprocess.run([str(ROOT / 'run'), 'check', c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=copy, SIM_EVIDENCE='0', SIM_REPLAYS='/tmp/seeded-replays'))
            line = next((l for l in r.stdout.splitlines() if l.startswith('run ')), r.stdout.strip()[-200:] + r.stderr.strip()[-200:])
            print(f'{d.name:24} {c} {"CAUGHT" if r.returncode == 1 and "VIOLATION property=" + c in r.stdout else "missed" if r.returncode == 0 else "ERROR"}'
                  f' {time.time() - t:4.0f} s  {line[:170]}', flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
