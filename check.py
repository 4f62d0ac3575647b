#!/usr/bin/env python3
"""check.py <property> [--thorough] [--harness-only] [--record]"""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
import run

PROPS = json.load(open(os.path.join(HERE, 'specs', 'props.json')))

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0
    base = run.load_baseline()
    for p in (list(PROPS) if args == ['all'] else args):
        cfg = dict(PROPS[p])
        cfg['specs'] = [(s, True) for s in cfg['specs']] + [(s, False) for s in cfg.get('deps', []) if s not in cfg['specs']]
        if '--harness-only' in sys.argv:
            cfg['specs'], cfg['libs'], cfg['more'] = [], [], []
        if '--proof-only' in sys.argv:
            cfg['harness'] = []
        r, P, H = run.decide(p, cfg, thorough, seed)
        rc = rc or r
        if '--record' in sys.argv:
            for f in P.fns:
                if f.tr is not None:
                    base[f.key] = {'loops': f.nloops, 'locals': f.spec.locals or f.locals}
    if '--record' in sys.argv:
        json.dump(base, open(run.BASELINE, 'w'), indent=0, sort_keys=True)
    return rc

if __name__ == '__main__':
    sys.exit(main())
