"""Drop hypotheses that a goal cannot need (always sound: assumptions are only removed).

Removed: polymorphic copies of axioms that were monomorphised, definitions of
sequence operations through lambdas (their specifications stay), and axioms
about symbols that are not connected with the goal."""
import re

DROP = {"set'def", "result'def", "snoc'def", "cons'def", "singleton'def", "mixfix [..]'def", "mixfix [_..]'def",
        "mixfix [.._]'def", "infix ++'def", "create'def"}
BUILTIN = set('''assert forall exists and or not let ite true false Int Real Bool Array select store to_real as
seq uni ty abs div mod to_int is_int'''.split()) | {'=>', '=', '<', '<=', '>', '>=', '+', '-', '*', '/', 'par', '!', 'pattern'}
ARITH = re.compile(r'(abs|div|mod)\d*$')
SYM = re.compile(r"[A-Za-z_][\w']*")


TOK = re.compile(r'[();]')


def commands(s):
    d, start, i0, skip = 0, 0, 0, -1
    for m in TOK.finditer(s):
        i = m.start()
        if i < skip:
            continue
        c = s[i]
        if c == '(':
            if d == 0:
                i0 = i
            d += 1
        elif c == ')':
            d -= 1
            if d == 0:
                yield s[start:i0], s[i0:i + 1]
                start = i + 1
        else:
            skip = s.index('\n', i)


def hide(c, names):
    """forget the definition of a predicate or function: (define-fun p ((x T) ...) R body) -> (declare-fun p (T ...) R)"""
    m = re.match(r'\(define-fun (\S+) \(', c)
    if not m or m.group(1) not in names:
        return c
    i, d, tys, j = m.end(), 1, [], 0
    while d:
        if c[i] == '(':
            d += 1
            if d == 2:
                j = i
        elif c[i] == ')':
            d -= 1
            if d == 1:
                tys.append(c[j + 1:i].strip().split(None, 1)[1])
        i += 1
    rest = c[i:].strip()
    if rest[0] == '(':
        k, d = 0, 0
        while True:
            d += {'(': 1, ')': -1}.get(rest[k], 0)
            k += 1
            if d == 0:
                break
        ret = rest[:k]
    else:
        ret = rest.split()[0]
    return '(declare-fun %s (%s) %s)' % (m.group(1), ' '.join(tys), ret)


def prune(s, hidden=()):
    cmds = list(commands(s))
    if hidden:
        cmds = [(p, hide(c, hidden)) for p, c in cmds]
    funs = {}                    # declared function symbols with arguments or not
    items = []                   # (index, name, text, kind)
    for k, (pre, c) in enumerate(cmds):
        m = re.match(r'\((?:declare-fun|define-fun|define-fun-rec) (\S+)\s*(\(\s*\))?', c)
        if m:
            funs[m.group(1)] = k
    keep = [True] * len(cmds)
    # the program part starts at the first constant declared after the libraries:
    # everything from the first hypothesis named H / LoopInvariant / Requires ... is kept
    names = []
    for pre, c in cmds:
        m = re.search(r';; "([^"]*)"\s*$', pre)
        names.append(m.group(1) if m else '')
    ax = []
    seen_local = False
    rel = set()

    def syms(c):
        bound = set()
        for m in re.finditer(r'\((?:forall|exists|let)\s+\(', c):
            d, j = 1, m.end()
            while d:
                if c[j] == '(':
                    d += 1
                    if d == 2:
                        b = SYM.match(c, j + 1)
                        if b:
                            bound.add(b.group(0))
                elif c[j] == ')':
                    d -= 1
                j += 1
        return {x for x in set(SYM.findall(c)) if x in funs and x not in bound}
    goal = max(i for i, (p, c) in enumerate(cmds) if c.startswith('(assert'))
    # trailing contiguous region of hypotheses: find the last library axiom (its
    # name is an identifier with a lower-case start that is not a hypothesis name)
    HYP = {'H', 'LoopInvariant', 'Requires', 'Ensures', 'Assert', 'Check', 'Hinst', 'Hx', ''}
    for i, (pre, c) in enumerate(cmds):
        if not c.startswith('(assert'):
            continue
        nm = names[i]
        if i != goal and nm not in HYP and not nm.endswith("unused'def"):
            if re.match(r'\(assert\s*\(forall \(\((\w+) ty\)', c) or re.search(r'\bt2tb\d*\b|\btb2t\d*\b|\(sort ', c):
                keep[i] = False
                continue
            if nm in DROP:
                keep[i] = False
                continue
            ax.append(i)
        else:
            rel |= syms(c)
    # constants defined by equations among the hypotheses are always relevant
    done = set()
    for i in ax:
        # a hypothesis introduced with a generated name: ground, keep
        c = cmds[i][1]
        if '(forall' not in c and '(exists' not in c:
            done.add(i)
            rel |= syms(c)
    cache = {i: syms(cmds[i][1]) for i in ax if i not in done}
    changed = True
    while changed:
        changed = False
        for i in ax:
            if i in done:
                continue
            c = cmds[i][1]
            ss = cache[i]
            nm = names[i]
            base = nm.split("'")[0]
            if nm.endswith(("'def", "'spec", '_closure_def')):
                # heads: the symbol being defined
                m = re.search(r"\(=>?\s*\(?(?:=>)?", c)
                head = defined(c, ss, nm, funs, cmds)
                use = head is None or head in rel
            else:
                use = bool(ss & rel) and {x for x in ss if not ARITH.match(x)} <= rel
            if use:
                done.add(i)
                if not ss <= rel:
                    rel |= ss
                changed = True
    for i in ax:
        if i not in done:
            keep[i] = False
    return ''.join(p + c for k, (p, c) in enumerate(cmds) if keep[k]) + '\n'


def sanitize(n):
    return n


def defined(c, ss, nm, funs, cmds):
    """the symbol a definition or specification axiom is about: the last one declared"""
    if not ss:
        return None
    base = re.sub(r"('def|'spec|_def)$", '', nm)
    named = [x for x in ss if re.match(re.escape(base) + r'\d*$', x)]
    if len(named) == 1:
        return named[0]
    return max(ss, key=lambda x: funs[x])
