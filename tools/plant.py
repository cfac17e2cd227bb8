"""Create and verify planted changes (development tool; no check uses it).

verify:  python3-vt tools/plant.py verify [names...]   (scratch copies under /tmp/s)
"""
import json, os, pathlib, subprocess, sys, shutil, re
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET
V = pathlib.Path(__file__).resolve().parent.parent
SEED = V / 'seeded'
TMP = pathlib.Path('/tmp/s')
PY = '/opt/venv/bin/python'

UTIL = '''"""Synthetic models and files shared by the demonstration."""
import os, tempfile, warnings, contextlib, io
import numpy as np
import chaosmagpy as cp
from chaosmagpy.chaos import CHAOS, BaseModel, Base
from chaosmagpy import model_utils as mu, coordinate_utils as cu, data_utils as du, plot_utils as pu


def base(order=4, pieces=3, nmax=3, seed=1, t0=0., t1=3000., source=None, name='model'):
    rng = np.random.default_rng(seed)
    breaks = np.sort(np.append(rng.uniform(t0 + 200, t1 - 200, pieces - 1), [t0, t1]))
    coeffs = rng.normal(size=(max(order, 1) + pieces - 1, nmax * (nmax + 2))) * 100.
    knots = mu.augment_breaks(breaks, order)
    return BaseModel.from_bspline(name, knots, coeffs, order, source=source)


def chaos(seed=1, order=4, pieces=3, nmax=3, nstat=5, sats=('swarm_a', 'swarm_b')):
    rng = np.random.default_rng(seed)
    m = base(order, pieces, nmax, seed)
    b = m.breaks
    static = np.zeros((1, 1, nstat * (nstat + 2)))
    static[..., nmax * (nmax + 2):] = rng.normal(size=nstat * (nstat + 2) - nmax * (nmax + 2))
    gsm = np.zeros(8)
    gsm[[0, 3]] = rng.normal(size=2) * 10
    bq10 = np.linspace(b[0], b[-1], 5)
    bq11 = np.linspace(b[0], b[-1], 3)
    bd = dict(q10=bq10, q11=bq11, s11=bq11)
    cd = dict(q10=rng.normal(size=(1, 4)), q11=rng.normal(size=(1, 2)), s11=rng.normal(size=(1, 2)))
    be = {s: np.linspace(b[0], b[-1], 4 + k) for k, s in enumerate(sats)}
    ce = {s: rng.normal(size=(1, 3 + k, 3)) for k, s in enumerate(sats)}
    meta = dict(params={'Euler_prerotation': rng.normal(size=(len(sats), 3))}, satellites=tuple(sats))
    return CHAOS(b, order, coeffs_tdep=m.coeffs, coeffs_static=static,
                 coeffs_sm=rng.normal(size=8) * 10, coeffs_gsm=gsm, breaks_delta=bd, coeffs_delta=cd,
                 breaks_euler=be, coeffs_euler=ce, name='CHAOS-x', meta=meta)


def rcfile(path, n=4001, seed=3):
    import h5py
    rng = np.random.default_rng(seed)
    t = np.arange(n) * 1.0 - 500.
    e, i = rng.normal(size=n) * 20, rng.normal(size=n) * 10
    with h5py.File(path, 'w') as f:
        f['time'], f['RC'], f['RC_e'], f['RC_i'] = t, e + i, e, i
    return t, e, i


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        yield
'''


def bug(name, prop, edits, needs, breaks, demo):
    d = SEED / name
    src = TMP / ('mk_' + name)
    if src.exists():
        shutil.rmtree(src)
    TMP.mkdir(exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', str(src)], check=True)
    for f, old, new in edits:
        p = src / 'chaosmagpy' / f
        s = p.read_bytes().decode()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) != 1:
            shutil.rmtree(src)
            raise SystemExit(f'{name}: {f}: {s.count(old)} matches of {old!r}')
        p.write_bytes(s.replace(old, new).encode())
    diff = subprocess.run(['git', '-C', str(src), 'diff'], capture_output=True).stdout
    shutil.rmtree(src)
    d.mkdir(parents=True, exist_ok=True)
    (d / 'patch.diff').write_bytes(diff)
    (d / 'demo.sh').write_text('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\n'
                               'export PYTHONPATH="$PWD:$D" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                               'exec /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(d / 'demo.sh', 0o755)
    (d / 'demo.py').write_text(demo.strip() + '\n')
    (d / 'util.py').write_text(UTIL)
    (d / 'meta.json').write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + '\n')
    print('made', name)


def stable(root):
    x = f'/tmp/s/junit_{os.path.basename(root)}.xml'
    subprocess.run(f'cd {root} && for i in $(seq 100); do echo {root}/tests/data/CHAOS_test.mat; done | '
                   f'PYTHONPATH={root} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg {PY} -m pytest -s -q '
                   f'-p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 '
                   f'--junitxml={x} tests > /dev/null 2>&1', shell=True)
    ok = set()
    for c in ET.parse(x).getroot().iter('testcase'):
        if not any(ch.tag in ('failure', 'error', 'skipped') for ch in c):
            ok.add(f"{c.get('classname')}::{c.get('name')}")
    os.remove(x)
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(want - ok)


def verify(name, tests=True):
    d = SEED / name
    meta = json.loads((d / 'meta.json').read_text())
    root = TMP / name
    if root.exists():
        shutil.rmtree(root)
    subprocess.run(['cp', '-a', '/repo', str(root)], check=True)
    out = {}
    lay = TMP / ('demo_' + name)
    if lay.exists():
        shutil.rmtree(lay)
    shutil.copytree(d, lay, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    run = lambda: subprocess.run(['bash', str(lay / 'demo.sh')], cwd=root, capture_output=True, text=True, timeout=300)
    r = run()
    out['clean'] = r.returncode
    if r.returncode:
        out['msg'] = r.stderr[-600:]
    a = subprocess.run(['git', '-C', str(root), 'apply', str(d / 'patch.diff')], capture_output=True, text=True)
    if a.returncode:
        out['apply'] = a.stderr
    r = run()
    out['patched'] = r.returncode
    out['tail'] = (r.stderr.strip().splitlines() or [''])[-1][:150]
    if tests:
        out['broken_tests'] = stable(str(root))
    e = dict(os.environ, VG_ROOT=str(root), VG_NOEVIDENCE='1')
    try:
        r = subprocess.run(['python3-vt', str(V / 'run.py'), meta['property']], cwd=V, env=e, capture_output=True, text=True, timeout=1500)
        out['check'] = r.returncode
        v = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith('VIOLATION')]
        out['viol'] = len(v)
        out['ob'] = [l.split('   [')[-1].rstrip(']') for l in r.stdout.splitlines() if '   [' in l and l.endswith(']')][:40]
        out['first'] = (v or [(r.stdout + r.stderr)[-300:]])[0][:200]
    except subprocess.TimeoutExpired:
        out['check'] = 'timeout'
    shutil.rmtree(root)
    shutil.rmtree(lay)
    good = out['clean'] == 0 and out['patched'] != 0 and not out.get('broken_tests') and 'apply' not in out
    return name, meta['property'], good, out


def short(out):
    o = dict(out)
    o['ob'] = o.get('ob', [])[:3]
    return json.dumps(o)


if __name__ == '__main__':
    names = sys.argv[2:] or sorted(p.name for p in SEED.iterdir())
    TMP.mkdir(exist_ok=True)
    C = V / 'tools' / 'caught.json'
    with ThreadPoolExecutor(4) as ex:
        for name, prop, good, out in ex.map(verify, names):
            print(('GOOD ' if good else 'BAD  ') + ('CAUGHT ' if out.get('check') == 1 else f'MISS({out.get("check")}) ') + name, prop, short(out), flush=True)
            d = json.loads(C.read_text()) if C.exists() else {}
            d[name] = dict(property=prop, counts=good, caught=out.get('check') == 1, violations=out.get('viol', 0), by=out.get('ob', [])[:4])
            C.write_text(json.dumps({k: d[k] for k in sorted(d) if (SEED / k).exists()}, indent=1) + '\n')
