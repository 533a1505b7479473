#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--from DIR]: decide one property from /repo's current source."""
import sys, os, time, argparse, importlib, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'absint'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
import base

MODS = ['wire', 'names', 'decoding', 'encoding', 'services', 'discovery', 'identities', 'panics', 'lints', 'roundtrip', 'groups', 'printed', 'listing', 'errors', 'equality']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--from', dest='src')
    a = ap.parse_args()
    t0 = time.time()
    reg = {}
    for m in MODS:
        if os.path.exists(os.path.join(HERE, 'checks', m + '.py')):
            reg.update(importlib.import_module(m).PROPS)
    if a.pid == '--list':
        print(' '.join(sorted(reg)))
        return 0
    os.makedirs(base.BUILD, exist_ok=True)
    d = a.src or tempfile.mkdtemp(prefix='run-', dir=base.BUILD)
    try:
        if not a.src:
            base.extract(d)
        f = reg[a.pid]
        c = base.Check(a.pid, a.tier, d)
        try:
            info = f(c) or {}
        except base.TimeOver:
            info = {}
            c.ob(None, 'analysed within the time limit', a.pid, 'time')
    finally:
        if not a.src:
            shutil.rmtree(d, ignore_errors=True)
    trusted = ['rustc nightly front end and MIR construction', 'absint/models.py (library models)', 'absint/interp.py, state.py, terms.py (abstract interpreter)'] + info.get('trusted', [])
    return base.finish(c, t0, int(os.environ.get('VERIF_SEED', '1')), info.get('explanation', (f.__doc__ or '').strip()), trusted)


if __name__ == '__main__':
    sys.exit(main())
