"""Run Why3 on generated modules and discharge every goal with a solver portfolio."""
import hashlib, os, re, subprocess, glob, time, shutil, threading
import multiprocessing
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from prune import prune

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(os.path.dirname(HERE), 'specs', 'lib')
DRV = os.path.join(HERE, 'drivers') + '/'
NCPU = os.cpu_count() or 4

SOLVERS = {
    'z3': (DRV + 'z3v.drv', lambda f, t: ['z3', '-smt2', '-T:%d' % t, 'sat.random_seed=42', 'nlsat.randomize=false', 'smt.random_seed=42', f]),
    'cvc5': (DRV + 'cvc5v.drv', lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), f]),
    'z3-new': (DRV + 'z3v.drv', lambda f, t: ['z3-new', '-smt2', '-T:%d' % t, 'smt.random_seed=42', f]),
}


SPLIT = ['-a', 'split_vc', '-a', 'split_goal_right']


class Goal:
    def __init__(self, mod, idx, zfile, lazy, name):
        self.mod, self.idx, self.zfile, self.lazy, self.name = mod, idx, zfile, lazy, name
        self.where = ''
        self.by = None
        self.time = 0.0
        self.answers = []
        self.expl = ''

    def file(self, solver, full):
        f = self.lazy.get(os.path.basename(self.zfile)) if solver == 'cvc5' else self.zfile
        if full:
            return f
        p = f + '.p'
        if not os.path.exists(p):
            t = open(f).read()
            open(p, 'w').write(prune(t, hidden(f)))
            m = re.findall(r';; (File ".*)', t)
            if m:
                self.where = m[-1]
        return p


def hidden(f):
    """definitions the contract asks to keep folded: dropped from the first attempts (fewer hypotheses, always sound)"""
    h = os.path.join(os.path.dirname(f), 'HIDE')
    if not re.search(r'-f_\w+qtvc\d*\.smt2$', f):      # the lemmas of the specification need them
        return ()
    return set(open(h).read().split()) if os.path.exists(h) else ()


def mode(mlw):
    with open(mlw) as f:
        return ['--debug=vc_sp'] if f.readline().startswith('(* vc_sp *)') else []


def why3_dump(mlw, outdir, drv, theory=None):
    os.makedirs(outdir, exist_ok=True)
    m = re.search(r'\(\* hide (.*?) \*\)', open(mlw).read(2000))
    if m:
        open(os.path.join(outdir, 'HIDE'), 'w').write(m.group(1))
    cmd = ['why3', 'prove', '-L', LIB] + mode(mlw) + SPLIT + ['-D', drv, '-o', outdir]
    if theory:
        for t in theory:
            cmd += ['-T', t]
    cmd.append(mlw)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=os.path.dirname(outdir))
    return p.returncode, p.stdout


def goal_key(fn):
    b = os.path.basename(fn)
    m = re.match(r'(.*?qtvc|.*?)(\d*)\.smt2$', b)
    return (m.group(1), int(m.group(2) or 0))


def generate(mlw, work):
    """-> (list of Goal, error text)"""
    mod = os.path.splitext(os.path.basename(mlw))[0]
    dz = os.path.join(work, mod + '.z3')
    rc, out = why3_dump(mlw, dz, SOLVERS['z3'][0])
    if rc != 0:
        return [], out
    fz = sorted(glob.glob(dz + '/*.smt2'), key=goal_key)
    lz = Lazy(mlw, work, mod)
    return [Goal(mod, i, f, lz, os.path.basename(f)[:-5]) for i, f in enumerate(fz)], ''


class Lazy:
    """the cvc5 version of the goals of a module, produced when first needed"""

    def __init__(self, mlw, work, mod):
        self.mlw, self.dir, self.lock, self.done = mlw, os.path.join(work, mod + '.cvc5'), threading.Lock(), False

    def get(self, name):
        with self.lock:
            if not self.done:
                why3_dump(self.mlw, self.dir, SOLVERS['cvc5'][0])
                self.done = True
        return os.path.join(self.dir, name)


def run_solver(s, f, t):
    t0 = time.time()
    try:
        p = subprocess.run(SOLVERS[s][1](f, t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t + 5)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    dt = time.time() - t0
    first = out.strip().split('\n')[0] if out.strip() else 'no answer'
    return first, dt, out


def discharge(g, plan):
    c = cached(g.zfile)
    if os.path.exists(c):
        g.by = open(c).read() or 'z3'
        return True
    for sv, t in plan:
        s = sv.split('/')[0]
        a, dt, out = run_solver(s, g.file(s, sv.endswith('/full')), t)
        g.time += dt
        g.answers.append('%s(%ds): %s' % (sv, t, a[:60]))
        if a == 'unsat':
            g.by = s
            open(c, 'w').write(s)
            return True
    return False


QUICK = [('z3', 3), ('cvc5', 4), ('z3-new', 4), ('z3/full', 4), ('cvc5/full', 4), ('cvc5', 20), ('z3', 20)]
THOROUGH = QUICK + [('z3-new', 30), ('cvc5/full', 60), ('cvc5', 60), ('z3', 60)]


def _first(a):
    """first attempt, in a worker process: prune, run the first solver"""
    f, s, t = a
    txt = open(f).read()
    p = f + '.p'
    if not os.path.exists(p):
        open(p, 'w').write(prune(txt, hidden(f)))
    m = re.findall(r';; (File ".*)', txt)
    w = m[-1] if m else ''
    c = cached(f)
    if os.path.exists(c):
        return 'unsat', 0.0, w
    ans, dt, _ = run_solver(s, p, t)
    if ans == 'unsat':
        open(c, 'w').write(s)
    return ans, dt, w


def cached(f):
    """the same obligation (equal pruned text) already discharged in this run: its
    marker file.  The lemmas of a spec file recur in the module of each function."""
    d = os.path.join(os.path.dirname(os.path.dirname(f)), 'same')
    os.makedirs(d, exist_ok=True)
    t = re.sub(r'(?m)^;;.*\n', '', open(f + '.p').read())
    return os.path.join(d, hashlib.sha256(t.encode()).hexdigest())


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context('fork'))
    return _pool


def _vac(f):
    """Is the context of this goal contradictory?"""
    txt = prune(open(f).read(), hidden(f))
    k = txt.rindex('(assert')
    p = f + '.vac.smt2'
    open(p, 'w').write(txt[:k] + '(check-sat)\n')
    return run_solver('z3', p, 1)[0] == 'unsat'


def vacuous(goals):
    """sampled goals of a function: contradictory contexts everywhere?"""
    goals = [g for g in goals if re.search(r'f_\w+qtvc', g.name)] or goals
    n = len(goals)
    pick = sorted({0, n - 1, n // 2, n // 3, 2 * n // 3, n // 4, 3 * n // 4})
    return [pool().submit(_vac, goals[i].zfile) for i in pick]


def first(goals, plan):
    s, t = plan[0]
    return [pool().submit(_first, (g.zfile, s, t)) for g in goals]


def prove_all(goals, plan, deadline=None, futures=None):
    """Discharge goals in parallel."""
    s, t = plan[0]
    left = []
    futures = futures or first(goals, plan)
    for g, fu in zip(goals, futures):
        a, dt, wh = fu.result()
        g.time += dt
        g.where = wh
        g.answers.append('%s(%ds): %s' % (s, t, a[:60]))
        if a == 'unsat':
            g.by = s
        else:
            left.append(g)

    def one(g):
        if deadline and time.time() > deadline:
            g.answers.append('not tried: time budget used up')
            return
        discharge(g, plan[1:])
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, left))


NULLCONF = '''[main]
magic = 14
[prover]
name = "Null"
version = "1"
command = "/bin/false"
driver = "z3_487"
[prover_strategy]
'''


def explain(mlw, work):
    """Names of the split goals, in order: list of (location, explanation)."""
    conf = os.path.join(work, 'null.conf')
    open(conf, 'w').write('[main]\nmagic = 14\n\n[prover]\nname = "Null"\nversion = "1"\ncommand = "/bin/false %f"\ndriver = "z3_487"\neditor = ""\nin_place = false\ninteractive = false\n')
    p = subprocess.run(['why3', 'prove', '-C', conf, '-L', LIB] + mode(mlw) + SPLIT + ['-P', 'Null', mlw], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res = []
    for m in re.finditer(r'(?s)File (\"[^\n]*?):\n(?:Sub-g|G)oal (.*?)\.\nProver result', p.stdout):
        res.append((m.group(1), ' '.join(m.group(2).split())))
    return res, p.stdout
