"""Decide one property: prove its contracts on /repo's current source, run the
executable form of the same contracts against the real code, report."""
import os, sys, re, json, time, shutil, subprocess, tempfile, traceback, glob, copy
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cxx, world, prove
from cxx import Unsupported, REPO
from world import World, parse_spec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASELINE = os.path.join(VERIF, 'specs', 'baseline.json')
SKIP = ('python-function.cc', 'python-modifier.cc')


# ------------------------------------------------------------- harness build
def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'lib', 'hnco')):
        for f in fs:
            if f.endswith('.cc') and 'python' not in f:
                out.append(os.path.join(d, f))
    return sorted(out)


VENDORED = {'fparser': ['fparser/fparser.cc', 'fparser/fpoptimizer.cc'],
            'p3': ['fast-efficient-p3/%s.cpp' % n for n in ('Configuration', 'Evaluation', 'HBOA', 'HillCimb', 'LTGA', 'MiddleLayer',
                                                            'Population', 'Pyramid', 'Record', 'Util')]}


def extra_sources(harness_file):
    """vendored libraries a harness asks for in a line '// needs: <names>'"""
    m = re.search(r'^// needs: (.*)$', open(harness_file).read(), re.M)
    return [os.path.join(REPO, 'lib', f) for n in (m.group(1).split() if m else []) for f in VENDORED[n]]


GXX = ['g++', '-std=gnu++17', '-O1', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS', '-DHAVE_CONFIG_H', '-fopenmp',
       '-I', os.path.join(VERIF, 'harness'), '-I', os.path.join(REPO, 'lib')]


class Harness:
    """builds the library sources of /repo and the harnesses, runs them"""

    def __init__(self, work, names, thorough, seed):
        self.work, self.names, self.thorough, self.seed = work, names, thorough, seed
        self.error = None
        self.results = {}       # name -> dict
        self.build_s = self.run_s = 0

    def run(self):
        t0 = time.time()
        obj = os.path.join(self.work, 'obj')
        os.makedirs(obj, exist_ok=True)
        jobs = []
        for s in lib_sources():
            o = os.path.join(obj, re.sub(r'\W+', '_', os.path.relpath(s, REPO)) + '.o')
            jobs.append((s, o, False))
        for s in sorted({s for n in self.names for s in extra_sources(os.path.join(VERIF, 'harness', n + '.cc'))}):
            jobs.append((s, os.path.join(obj, re.sub(r'\W+', '_', os.path.relpath(s, REPO)) + '.o'), False))
        for n in self.names:
            jobs.append((os.path.join(VERIF, 'harness', n + '.cc'), os.path.join(obj, 'H_' + n + '.o'), True))
        jobs.sort(key=lambda j: (not j[2], -os.path.getsize(j[0])))

        def comp(j):
            p = subprocess.run(GXX + (['-O0'] if 'fparser' in j[0] else []) + ['-c', j[0], '-o', j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode and j[2]:
                # a renamed protected member: compile without the parts that look inside the algorithms
                q = subprocess.run(GXX + ['-DVH_NO_EXPOSE', '-c', j[0], '-o', j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if q.returncode == 0:
                    return j, 0, q.stdout
            return j, p.returncode, p.stdout
        with ThreadPoolExecutor(prove.NCPU) as ex:
            res = list(ex.map(comp, jobs))
        liberr = [(j, o) for j, rc, o in res if rc and not j[2]]
        bad = {j[0]: o for j, rc, o in res if rc and j[2]}
        libo = [j[1] for j, rc, o in res if not j[2] and not rc]
        lib = os.path.join(obj, 'libh.a')
        subprocess.run(['ar', 'rc', lib] + libo, check=True)
        todo = []
        for n in self.names:
            src = os.path.join(VERIF, 'harness', n + '.cc')
            r = self.results[n] = {'status': 'error', 'out': ''}
            if src in bad:
                r['out'] = 'harness does not compile: ' + bad[src][-3000:]
                continue
            exe = os.path.join(obj, n)
            p = subprocess.run(['g++', '-fopenmp', os.path.join(obj, 'H_' + n + '.o'), lib, '-o', exe, '-lboost_serialization', '-lgmpxx', '-lgmp', '-ldl', '-lstdc++fs'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                r['out'] = 'harness does not link: ' + p.stdout[-3000:] + ('\nlibrary: ' + liberr[0][1][-1500:] if liberr else '')
                continue
            todo.append((n, exe))
        self.build_s = time.time() - t0
        t0 = time.time()

        def go(a):
            n, exe = a
            r = self.results[n]
            cwd = os.path.join(self.work, 'run_' + n)
            os.makedirs(cwd, exist_ok=True)
            cmd = [exe, '--seed', str(self.seed)] + (['--thorough'] if self.thorough else [])
            env = dict(os.environ, OMP_NUM_THREADS='2')
            lim = 4000 if self.thorough else 420
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, timeout=lim, env=env)
                r['out'] = p.stdout.decode('utf8', 'replace')
                r['err'] = p.stderr.decode('utf8', 'replace')[-2000:]
                fl = [l for l in r['out'].split('\n') if l.startswith('FAIL ')]
                if p.returncode == 0 and 'HARNESS cases=' in r['out']:
                    r['status'] = 'ok'
                elif fl:
                    r['status'] = 'fail'
                    r['fail'] = fl[0]
                else:
                    r['status'] = 'fail'
                    r['fail'] = 'FAIL function=? | the harness stopped with status %d before finishing | %s' % (p.returncode, r['err'][-500:])
            except subprocess.TimeoutExpired as e:
                r['status'] = 'timeout'
                r['out'] = (e.stdout or b'').decode('utf8', 'replace')
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(go, todo))
        self.run_s = time.time() - t0


# ------------------------------------------------------------------- proofs
def spec_path(n):
    return os.path.join(VERIF, 'specs', n + '.spec')


def load_baseline():
    try:
        return json.load(open(BASELINE))
    except FileNotFoundError:
        return {}


class FnResult:
    def __init__(self, key):
        self.key = key
        self.status = None       # proved | failed | out-of-reach | assumed
        self.reason = ''
        self.goals = []
        self.tr = None
        self.vacuous = None
        self.mlw = None
        self.expl = []


class Proof:
    def __init__(self, work, specs, libs, thorough, only=None):
        self.work, self.specnames, self.libs, self.thorough = work, specs, libs, thorough
        self.only = only
        self.fns = []
        self.libres = []
        self.error = None
        self.plan = prove.THOROUGH if thorough else prove.QUICK
        self.extract_s = self.solve_s = 0

    def run(self, deadline):
        t0 = time.time()
        base = load_baseline()
        w = World(os.path.join(VERIF, 'harness'), self.work)
        mine = []
        for n, own in self.specnames:
            k0 = len(w.specs)
            n, _, pat = n.partition('@')    # 'spec@regex': only these functions of the spec are checked, the rest are dependencies
            w.load_spec(spec_path(n))
            if own:
                mine += [sp for sp in w.specs[k0:] if re.search(pat, sp.key)]
        self.world = w
        todo = []
        for sp in mine:
            if sp.assumed:
                continue
            if self.only and self.only not in sp.key:
                continue
            r = FnResult(sp.key)
            r.spec = sp
            self.fns.append(r)
            b = base.get(sp.key)
            try:
                if sp.locals is None and b:
                    sp.locals = b['locals']
                txt, tr, loops_ok = w.make_module(sp)
                r.tr = tr
                r.nloops = tr.nloop
                r.locals = [n for n, _ in tr.locals if '__' not in n]
                if b and tr.nloop != b['loops'] and (sp.loops or sp.ghost):
                    raise Unsupported('loop structure changed: %d loops, the contract is written for %d' % (tr.nloop, b['loops']))
                if not loops_ok:
                    raise Unsupported('loop structure changed')
                fn = os.path.join(self.work, world.short_name(re.sub(r'\W+', '_', sp.key)) + '.mlw')
                open(fn, 'w').write('(* vc_sp *)\n' + ('(* hide %s *)\n' % ' '.join(sp.hide) if sp.hide else '') + txt)
                r.mlw = fn
                r.text = txt
                todo.append(r)
            except Unsupported as e:
                r.status, r.reason = 'out-of-reach', str(e)
            except Exception as e:
                r.status, r.reason = 'out-of-reach', 'extractor: %s' % traceback.format_exc(limit=-3).replace('\n', ' | ')
        self.extract_s = time.time() - t0
        t0 = time.time()

        def gen(r):
            goals, err = prove.generate(r.mlw, self.work)
            if err:
                r.status, r.reason = 'out-of-reach', 'why3 rejects the extracted text: ' + '\n'.join(l for l in err.split('\n') if not l.startswith('Warning'))[:600]
                return
            r.goals = goals
            if not goals:
                r.status, r.reason = 'proved', 'every obligation is simplified away by Why3'
            else:
                r.fut = prove.first(goals, self.plan)
                r.vac = prove.vacuous(goals)

        def genlib(m):
            goals, err = prove.generate(os.path.join(prove.LIB, m + '.mlw'), self.work)
            if err:
                raise SystemExit('lib %s: %s' % (m, err[:800]))
            return m, goals, prove.first(goals, self.plan)
        prove.pool()
        todo.sort(key=lambda r: -len(r.text))
        with ThreadPoolExecutor(prove.NCPU) as ex:
            f2 = [ex.submit(genlib, m) for m in self.libs]
            f1 = [ex.submit(gen, r) for r in todo]
            for f in f1:
                f.result()
            lr = [f.result() for f in f2]
        self.libres = [(m, g) for m, g, _ in lr]
        ready = [r for r in todo if not r.status]
        allg = [g for r in ready for g in r.goals] + [g for _, gs, _ in lr for g in gs]
        futs = [x for r in ready for x in r.fut] + [x for _, _, fs in lr for x in fs]
        if allg:
            prove.prove_all(allg, self.plan, deadline, futs)
        for r in ready:
            r.vacuous = all(f.result() for f in r.vac)
        for r in todo:
            if r.status:
                continue
            bad = [g for g in r.goals if not g.by]
            if bad:
                r.expl, _ = prove.explain(r.mlw, self.work)
                groups = {}
                for loc, ex in r.expl:
                    groups.setdefault(ex.split()[-1], []).append((loc, ex))
                for g in r.goals:
                    m = re.search(r'-(\w+?)qtvc(\d*)$', g.name)
                    gr = groups.get(m.group(1) + "'vc") if m else None
                    k = int(m.group(2) or 0) if m else 0
                    if gr and k < len(gr):
                        g.expl = gr[k][1] + ' ' + re.sub(r'.*?"/[^"]*/([^"/]*)"', r'\1', gr[k][0])
            if r.vacuous:
                r.status, r.reason = 'vacuous', 'every exit is unreachable under the contract'
            elif bad:
                r.status = 'failed'
                r.bad = bad
            else:
                r.status = 'proved'
        self.solve_s = time.time() - t0


# ------------------------------------------------------------------- driver
def scan_assumptions(proof):
    """every assumed contract the obligations rest on"""
    out = []
    used = ' '.join(getattr(r, 'text', '') for r in proof.fns)
    for m in ['cpp'] + [l for l in proof.libs if l != 'cpp']:
        txt = open(os.path.join(prove.LIB, m + '.mlw')).read()
        for x in re.findall(r'(?m)^\s*val (?:ghost |partial |constant |function )*(\w+)', txt):
            if re.search(r'\b%s\b' % x, used):
                out.append('assumed contract: %s.%s' % (m, x))
        for x in re.findall(r'(?m)^\s*axiom (\w+)', txt):
            out.append('axiom: %s.%s' % (m, x))
    for d in sorted({x for sp in proof.world.specs for x in getattr(sp, 'defs', [])}):
        for x in re.findall(r'(?m)^\s*val (?:ghost |partial |constant |function )*(\w+)', d):
            if re.search(r'\b%s\b' % x, used):
                out.append('assumed contract: %s (model of a virtual or external call)' % x)
        for x in re.findall(r'(?m)^\s*axiom (\w+)', d):
            out.append('axiom: %s' % x)
    for sp in proof.world.specs:
        if sp.assumed:
            out.append('assumed contract of the repository function %s (body not verified)' % sp.key)
    for k in sorted(proof.world.externs):
        out.append('external or virtual call modelled: %s' % k)
    return out


GENERIC = [
    'clang 18 builds the same AST meaning as the compiler used for the real build',
    'vc/trans.py: the mechanical extraction from clang AST to WhyML preserves meaning (value semantics; aliasing of reference arguments is an obligation)',
    'Why3 1.6.0 VC generation, and unsat answers of z3 4.8.12 / cvc5 1.1.2 / z3-new',
    'signed machine integers are mathematical integers (no overflow of int/size_t counters); unsigned subtraction, shifts and narrowing conversions are checked',
    'double arithmetic is real arithmetic',
    'memory allocation succeeds; OpenMP pragmas and output streams have no effect on the values',
]


def known_findings():
    try:
        return json.load(open(os.path.join(VERIF, 'known-findings.json')))
    except FileNotFoundError:
        return []


def decide(prop, cfg, thorough, seed):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vc_%s_' % prop, dir='/tmp')
    try:
        return _decide(prop, cfg, thorough, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _decide(prop, cfg, thorough, seed, work, t0):
    cxx.REPO_CHECK = True
    hw = os.path.join(work, 'h')
    pw = os.path.join(work, 'p')
    os.makedirs(hw)
    os.makedirs(pw)
    H = Harness(hw, cfg['harness'], thorough, seed)
    P = Proof(pw, cfg['specs'], cfg['libs'], thorough)
    deadline = t0 + (3000 if thorough else 600)
    H.run()
    P.run(deadline)
    assumptions = scan_assumptions(P)
    extra = []
    for i, g in enumerate(cfg.get('more', [])):      # specifications that model the same class names differently
        q = os.path.join(work, 'q%d' % i)
        os.makedirs(q)
        Q = Proof(q, [(s, True) for s in g['specs']] + [(s, False) for s in g.get('deps', [])], g['libs'], thorough)
        Q.run(deadline)
        extra += scan_assumptions(Q)
        P.fns += Q.fns
        P.libres += Q.libres
        P.extract_s += Q.extract_s
        P.solve_s += Q.solve_s

    violations = []
    lines = []
    rdir = os.path.join(VERIF, 'replay')
    os.makedirs(rdir, exist_ok=True)
    known = {k['key']: k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known'}
    # 1. failing inputs on the real code
    for n, r in H.results.items():
        for l in r['out'].split('\n'):
            m = re.match(r'FINDING key=(\S+) \| (.*)', l)
            if m:
                if m.group(1) in known:
                    lines.append('KNOWN-FINDING: property=%s %s' % (prop, m.group(2)[:300]))
                else:
                    r['status'], r['fail'] = 'fail', l
        if r['status'] == 'fail':
            path = os.path.join(rdir, '%s-input.txt' % prop)
            open(path, 'w').write(
                'property %s is violated by the real code in %s\n\nfailing input (contract evaluated on the real code):\n%s\n\nstderr:\n%s\n\n'
                'reproduce: cd /verif && VERIF_SEED=%d python3 check.py %s%s --harness-only\n' %
                (prop, REPO, r['fail'], r.get('err', ''), seed, prop, ' --thorough' if thorough else ''))
            violations.append((path, False, r['fail']))
    # 2. failed obligations
    failed = [r for r in P.fns if r.status == 'failed']
    # obligations not decided because the time budget ran out are not failures
    timed = [r for r in failed if all(any('not tried' in a for a in g.answers) for g in r.bad)]
    failed = [r for r in failed if r not in timed]
    if failed:
        path = os.path.join(rdir, '%s-obligation.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s: obligations generated from the current source are no longer discharged\n' % prop)
            for r in failed:
                f.write('\nfunction %s (contract in %s)\n' % (r.key, os.path.relpath(r.spec.src, VERIF)))
                for g in r.bad:
                    f.write('  obligation %s %s\n    %s\n    solver output: %s\n' % (g.name, g.expl, getattr(g, 'where', ''), '; '.join(g.answers)))
                f.write('  extracted text:\n' + '\n'.join('    ' + l for l in r.text.split('\n')) + '\n')
            f.write('\nfailing input: %s\n' % (violations[0][2] if violations else 'none found'))
        if violations:
            open(violations[0][0], 'a').write('\nfailed obligations: see %s\n' % path)
        else:
            violations.append((path, True, failed[0].key))
    proved = [r for r in P.fns if r.status == 'proved']
    oor = [r for r in P.fns if r.status == 'out-of-reach'] + timed
    vac = [r for r in P.fns if r.status == 'vacuous']
    goals = [g for r in P.fns for g in r.goals] + [g for _, gs in P.libres for g in gs]
    libbad = [g for _, gs in P.libres for g in gs if not g.by]
    by = {}
    for g in goals:
        if g.by:
            by[g.by] = by.get(g.by, 0) + 1
    hs = {n: r for n, r in H.results.items()}
    hcases = sum(int(m.group(1)) for r in hs.values() for m in re.finditer(r'HARNESS cases=(\d+)', r['out']))
    hdist = sum(int(m.group(1)) for r in hs.values() for m in re.finditer(r'distinct=(\d+)', r['out']))
    hfn = {}
    samples = []
    for r in hs.values():
        for l in r['out'].split('\n'):
            if l.startswith('FN '):
                a = l[3:].rsplit(' ', 1)
                hfn[a[0]] = int(a[1])
            elif l.startswith('SAMPLE '):
                samples.append(l[7:])
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(goals), 'discharged': sum(1 for g in goals if g.by),
            'checker_cmd': 'why3 prove -a split_vc -D <driver> -o <dir> <extracted>.mlw ; z3 / cvc5 / z3-new on every goal (vc/prove.py)',
            'trusted_base': GENERIC,
            'discharged_by': by,
            'solver_time_s': round(sum(g.time for g in goals), 1),
            'functions_under_contract': len(P.fns),
            'functions_proved': [r.key for r in proved],
            'functions_undecided_this_run': [{'function': r.key, 'why': r.reason[:400] or 'time budget'} for r in oor],
            'functions_failed': [{'function': r.key, 'obligations': [g.expl or g.name for g in r.bad]} for r in failed],
            'functions_vacuous': [r.key for r in vac],
            'vacuity_checked': sum(1 for r in P.fns if r.vacuous is False),
            'inlined_into_proofs': sorted({x for r in P.fns if r.tr for x in getattr(r.tr, 'inlined_names', [])}),
            'lemma_obligations_undischarged': [g.name for g in libbad],
            'bounded_replay': {'label': 'bounded: contracts evaluated on the real code, never counted as proved',
                               'status': {n: r['status'] for n, r in hs.items()},
                               'errors': {n: r['out'][:1500] for n, r in hs.items() if r['status'] == 'error'},
                               'cases': hcases, 'distinct': hdist, 'per_function': hfn},
            'bounded_only': cfg.get('bounded', []),
            'samples': samples[:12],
            'times_s': {'extract': round(P.extract_s, 1), 'solve_wall': round(P.solve_s, 1), 'harness_build': round(H.build_s, 1), 'harness_run': round(H.run_s, 1)},
        },
        'assumptions': GENERIC + list(dict.fromkeys(assumptions + extra)) + cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d proved, %d failed, %d out of reach, %d vacuous; %d/%d obligations %s; lemmas undischarged %d; harness %s %d cases; %.0fs' % (
        prop, len(P.fns), len(proved), len(failed), len(oor), len(vac), ev['coverage']['discharged'], len(goals), by, len(libbad),
        {n: r['status'] for n, r in hs.items()}, hcases, ev['wall_s']))
    for r in oor:
        print('  undecided: %s: %s' % (r.key, (r.reason or 'time budget')[:300]))
    for r in failed:
        print('  failed: %s: %s' % (r.key, '; '.join('%d %s' % (g.idx, g.expl) for g in r.bad)[:400]))
    for r in vac:
        print('  vacuous: %s' % r.key)
    for n, r in hs.items():
        if r['status'] not in ('ok', 'fail'):
            print('  harness %s: %s %s' % (n, r['status'], r['out'][:1500]))
    for l in lines:
        print(l)
    for path, noinput, what in violations:
        if not noinput:
            print('  ' + what[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if noinput else ''))
    return (1 if violations else 0), P, H
