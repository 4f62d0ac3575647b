"""development: python3 vc/cli.py <property> [filter]   (keeps /tmp/vcw)"""
import sys, os, shutil, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, prove
VCW = os.environ.get('VCW', '/tmp/vcw')
def main():
    PROPS = json.load(open(os.path.join(run.VERIF, 'specs', 'props.json')))
    a = sys.argv[1]; filt = sys.argv[2] if len(sys.argv) > 2 else None
    cfg = PROPS[a]
    if os.environ.get('MORE'): cfg = cfg['more'][int(os.environ['MORE'])]
    libs = cfg['libs'] if filt == 'LIB' else []
    if filt and filt.startswith('LIB:'): libs=[filt[4:]]
    shutil.rmtree(VCW, ignore_errors=True); os.makedirs(VCW)
    P = run.Proof(VCW, [(s, True) for s in cfg['specs']] + [(s, False) for s in cfg.get('deps', []) if s not in cfg['specs']], libs, False, only=filt)
    if '-q' in sys.argv: P.plan=[('z3',3),('cvc5',4),('z3-new',4)]
    P.run(time.time() + 1500)
    for r in P.fns:
        print(r.status, r.key, len(r.goals), '%.1fs' % sum(g.time for g in r.goals), 'slow:' + ','.join('%d:%.0f' % (g.idx, g.time) for g in r.goals if g.time > 4), (r.reason or '')[:700])
        for g in r.goals:
            if not g.by: print('    ', g.idx, g.expl, ' '.join(g.answers))
    for m, gs in P.libres:
        print('lib', m, len(gs), '%.1fs' % sum(g.time for g in gs), 'slow:' + ','.join('%s:%.0f' % (g.name, g.time) for g in gs if g.time > 4))
        for g in gs:
            if not g.by: print('    ', g.name, g.answers)
main()
