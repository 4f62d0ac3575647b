"""Contracts (spec files), record types, and generation of Why3 modules."""
import os, re, sys, hashlib
from cxx import *
from trans import Trans, wname, tname, KEYWORDS
import trans as T

HERE = os.path.dirname(os.path.abspath(__file__))


class Spec:
    def __init__(self, key, file):
        self.key, self.file = key, file
        self.requires, self.ensures, self.raises_raw = [], [], []
        self.raises = []
        self.loops = {}
        self.ghost = {}
        self.rename = {}
        self.logic = None
        self.fieldlist = None
        self.locals = None
        self.hide = []
        self.uses = []
        self.defs = []
        self.records = []
        self.diverges = False
        self.anyquotient = False
        self.sp = False
        self.assumed = False      # contract used, body not verified
        self.params = None
        self.props = []
        self.extra = []


def alpha(t):
    """Rename variables bound by forall/exists so that no program variable substituted for $k is captured."""
    i = 0
    while True:
        m = re.compile(r"\b(forall|exists)\s+([^.]*?)\.").search(t, i)
        if not m:
            return t
        binder = m.group(2)
        names = []
        for grp in binder.split(','):
            names += grp.split(':')[0].split()
        d, k = 0, m.end()
        while k < len(t):
            if t[k] in '([{':
                d += 1
            elif t[k] in ')]}':
                d -= 1
                if d < 0:
                    break
            k += 1
        scope = t[m.start(2):k]
        for v in names:
            scope = re.sub(r"(?<![\w.'$])%s(?![\w'])" % re.escape(v), v + '_q', scope)
        t = t[:m.start(2)] + scope + t[k:]
        i = m.start(2)


def parse_spec(path):
    """-> (list of Spec, externs, opaques, uses)"""
    txt = open(path).read()
    txt = re.sub(r'(?m)^\s*#.*$', '', txt)
    specs, externs, opaque, records = [], {}, {}, []
    cur = None
    curfile = None
    curloop = None
    fileuses, filedefs = [], []
    i = 0
    tok = re.compile(r'\s*([a-z]+)\b[ \t]*')
    while True:
        m = tok.match(txt, i)
        if not m:
            if txt[i:].strip():
                raise SystemExit('spec syntax: %s near %r' % (path, txt[i:i + 60]))
            break
        kw = m.group(1)
        i = m.end()

        def toeol():
            nonlocal i
            j = txt.find('\n', i)
            j = len(txt) if j < 0 else j
            s = txt[i:j].strip()
            i = j
            return s

        def braces():
            nonlocal i
            j = txt.index('{', i)
            d, k = 0, j
            while True:
                if txt[k] == '{':
                    d += 1
                elif txt[k] == '}':
                    d -= 1
                    if d == 0:
                        break
                k += 1
            head = txt[i:j].strip()
            s = txt[j + 1:k].strip()
            i = k + 1
            return head, s
        if kw == 'file':
            curfile = toeol()
        elif kw == 'use':
            u = toeol().split()
            if cur:
                cur.uses += u
            else:
                fileuses += u
        elif kw == 'function':
            cur = Spec(toeol(), curfile)
            cur.uses = list(fileuses)
            cur.defs = list(filedefs)
            cur.records = records
            cur.src = path
            specs.append(cur)
            curloop = None
        elif kw == 'requires':
            cur.requires.append(alpha(braces()[1]))
        elif kw == 'ensures':
            cur.ensures.append(alpha(braces()[1]))
        elif kw == 'raises':
            h, s = braces()
            cur.raises_raw.append(alpha(s))
            cur.raises.append(re.match(r'\w+', s).group(0))
        elif kw == 'loop':
            curloop = int(toeol())
            cur.loops[curloop] = {'inv': [], 'variant': None}
        elif kw == 'invariant':
            cur.loops[curloop]['inv'].append(alpha(braces()[1]))
        elif kw == 'variant':
            cur.loops[curloop]['variant'] = braces()[1]
        elif kw == 'ghost':
            h, s = braces()
            g = alpha(s).rstrip().rstrip(';')
            cur.ghost[h] = g + (' ' if re.search(r'\bin$', g) else ';')
        elif kw == 'logic':
            cur.logic = toeol()
        elif kw == 'fields':
            cur.fieldlist = toeol().split()
        elif kw == 'locals':
            cur.locals = toeol().split()
        elif kw == 'params':
            cur.params = toeol().split()
        elif kw == 'hide':
            cur.hide = toeol().split()
        elif kw == 'sp':
            cur.sp = True
        elif kw == 'diverges':
            cur.diverges = True
        elif kw == 'anyquotient':
            cur.anyquotient = True
        elif kw == 'assumed':
            cur.assumed = True
        elif kw == 'property':
            cur.props += toeol().split()
        elif kw == 'extern':
            h, s = braces()
            externs[h] = s
        elif kw == 'opaque':
            a, b = toeol().split(None, 1)
            opaque[a] = b
        elif kw == 'import':
            for q in toeol().split():
                sub = parse_spec(os.path.join(os.path.dirname(path), q + '.spec'))[0]
                if cur:
                    cur.defs = sub[0].defs + [x for x in cur.defs if x not in sub[0].defs]
                    cur.uses += sub[0].uses
                    cur.records = cur.records + sub[0].records
                else:
                    filedefs[:0] = sub[0].defs
                    fileuses += sub[0].uses
                    records += sub[0].records
        elif kw == 'record':
            records.append(toeol())
        elif kw == 'define':
            h, b = braces()
            if cur:
                cur.defs.append(b)
            else:
                filedefs.append(b)
        else:
            raise SystemExit('spec keyword %s in %s' % (kw, path))
    return specs, externs, opaque, records, fileuses


def short_name(s):
    """file names have at most 255 characters"""
    return s if len(s) <= 90 else s[:80] + '_%x' % (sum((i + 1) * ord(c) for i, c in enumerate(s)) & 0xffffff)


class Record:
    def __init__(self, wname_, fields, order):
        self.wname, self.fields, self.order = wname_, fields, order


class World:
    def __init__(self, confdir, workdir):
        self.confdir, self.workdir = confdir, workdir
        self.tus = {}
        self.specs = []
        self.externs, self.opaque = {}, {}
        self.recs = {}
        self.contracts = {}       # current TU: mangled -> Spec
        self.tu_contracts = {}
        self.reclist = []

    def load_spec(self, path):
        s, e, o, r, u = parse_spec(path)
        self.specs += s
        self.externs.update(e)
        self.opaque.update(o)
        self.reclist += r

    def tu(self, file):
        if file not in self.tus:
            path = file if os.path.isabs(file) else os.path.join(REPO, file)
            if file.startswith('@'):
                path = os.path.join(HERE, '..', file[1:])
            self.tus[file] = TU(path, self.confdir)
        return self.tus[file]

    def resolve(self, tu):
        """mangled -> Spec for every contract visible in tu, and Spec -> decl"""
        if tu.path in self.tu_contracts:
            return self.tu_contracts[tu.path]
        for sp in self.specs:
            if '::' not in sp.key.split('(')[0] and tu.path.endswith(sp.file):
                tu.load_global(sp.key.split('(')[0])
        ms = list(tu.decls)
        dm = demangle(ms)
        con, bykey = {}, {}
        names = {}
        for m, d in zip(ms, dm):
            sig = simplify_sig(d)
            names[m] = sig
        for sp in self.specs:
            hits = []
            for m, sig in names.items():
                if sig == sp.key or ('(' not in sp.key and re.sub(r"\(.*", "", sig) == sp.key):
                    hits.append(m)
                    continue
                # constructors have C1/C2 variants
            if len(hits) > 1:
                bodies = [h for h in hits if h in tu.funcs]
                if len(set(names[h] for h in hits)) == 1:
                    hits = bodies[:1] or hits[:1]
                elif len(bodies) == 1 and False:
                    hits = bodies
                else:
                    raise Unsupported('ambiguous contract key %s: %s' % (sp.key, [names[h] for h in hits]))
            for h in hits:
                con[h] = sp
                bykey[sp] = h
        self.tu_contracts[tu.path] = (con, bykey, names)
        return self.tu_contracts[tu.path]

    def fname(self, m):
        sp = self.contracts[m]
        return short_name('f_' + re.sub(r'\W+', '_', sp.key.replace('hnco::', '')).strip('_'))

    # ------------------------------------------------------------ records
    def record(self, tu, name):
        key = name.split('::')[-1] if '<' not in name else re.sub(r'\w+::', '', name)
        if key in self.recs:
            return self.recs[key]
        n = tu.find_record(name)
        if n is None:
            return None
        self.recs[key] = None        # recursion guard
        t = Trans(self, tu, None, None)
        fields, order = {}, []

        def add(rec):
            for b in rec.get('bases', ()):
                br = tu.find_record(b['type'].get('desugaredQualType') or b['type']['qualType'])
                if br is not None:
                    add(br)
            for c in rec.get('inner', ()):
                if c['kind'] == 'FieldDecl':
                    ct = parse_type(c['type'].get('desugaredQualType') or c['type']['qualType'], tu.aliases)
                    try:
                        t.wtype(ct)
                    except Unsupported:
                        continue
                    nm = tname(key) + '_' + c['name'].lstrip('_')
                    fields[c['name']] = (nm, CType(ct.kind, ct.args, ct.name, signed=ct.signed, bits=ct.bits))
                    order.append(c['name'])
        add(n)
        if not order:
            return None
        self.recs[key] = Record(tname(key), fields, order)
        return self.recs[key]

    def class_fields(self, tu, cls):
        """all usable fields of a class and its bases, name -> ctype, in order"""
        t = Trans(self, tu, None, None)
        out = {}

        def add(rec):
            for b in rec.get('bases', ()):
                br = tu.find_record(b['type'].get('desugaredQualType') or b['type']['qualType'])
                if br is not None:
                    add(br)
            for c in rec.get('inner', ()):
                if c['kind'] == 'FieldDecl':
                    try:
                        ct = parse_type(c['type'].get('desugaredQualType') or c['type']['qualType'], tu.aliases)
                        t.wtype(ct)
                        out[c['name']] = CType(ct.kind, ct.args, ct.name, signed=ct.signed, bits=ct.bits)
                    except Unsupported:
                        continue
        add(cls)
        return out

    def method_fields(self, tu, cls, spec):
        if spec.fieldlist is not None:
            return spec.fieldlist
        return list(self.class_fields(tu, cls))

    # ------------------------------------------------------------ modules
    def signature(self, tu, d, spec, t, binder='val'):
        """parameters of the WhyML function"""
        ps = []
        cls = tu.parent.get(d['id'])
        is_method = d['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl') and \
            d.get('storageClass') != 'static' and cls is not None
        fields = {}
        ctor = d['kind'] == 'CXXConstructorDecl'
        if is_method:
            const = d['type']['qualType'].rstrip().endswith('const')
            cf = self.class_fields(tu, cls)
            for f in self.method_fields(tu, cls, spec):
                if f not in cf:
                    raise Unsupported('no field %s in %s' % (f, cls.get('name')))
                nm = wname(f)
                fields[f] = (nm, cf[f])
                ps.append('(%s%s : %s)' % ('' if const else 'ref ', nm, t.wtype(cf[f])))
        f = tu.funcs.get(d.get('mangledName'), d)
        body_ps = [c for c in f.get('inner', ()) if c['kind'] == 'ParmVarDecl']
        pl = []
        for i, p in enumerate(body_ps):
            ct = parse_type(p['type'].get('desugaredQualType') or p['type']['qualType'], tu.aliases)
            nm = spec.params[i] if spec.params and i < len(spec.params) else wname(p.get('name') or 'p%d' % i)
            mut = ct.ref and not ct.const and ct.kind != 'ptr'
            ps.append('(%s%s : %s)' % ('ref ' if mut else '', nm, t.wtype(ct)))
            pl.append((p, nm, ct, mut))
        return ps or ['()'], fields, pl

    def contract_text(self, spec):
        out = []
        for r in spec.requires:
            out.append('  requires { %s }' % r)
        for e in spec.ensures:
            out.append('  ensures { %s }' % e)
        for r in spec.raises_raw:
            out.append('  raises { %s }' % r)
        if spec.diverges:
            out.append('  diverges')
        return '\n'.join(out)

    def val_decl(self, tu, m, spec):
        d = tu.decls[m]
        t = Trans(self, tu, d, spec)
        ps, _, _ = self.signature(tu, d, spec, t)
        rt = CType('void') if d['kind'] == 'CXXConstructorDecl' else t.ret_type(d)
        # effects of a val must be declared
        refs = [re.match(r'\(ref (\w+) ', p).group(1) for p in ps if p.startswith('(ref ')]
        w = '\n  writes { %s }' % ', '.join(refs) if refs else ''
        return 'val %s %s : %s%s\n%s\n' % (self.fname(m), ' '.join(ps), t.wtype(rt), w, self.contract_text(spec))

    def make_module(self, spec):
        """WhyML text verifying the real body of spec's function."""
        tu = self.tu(spec.file)
        con, bykey, names = self.resolve(tu)
        self.contracts = con
        if spec not in bykey:
            raise Unsupported('function %s not found in %s' % (spec.key, spec.file))
        m = bykey[spec]
        if m not in tu.funcs:
            raise Unsupported('no body for %s in %s' % (spec.key, spec.file))
        txt, tr = self._gen(tu, m, spec)
        if spec.locals is not None:
            have = [n for n, _ in tr.locals if '__' not in n]
            if have != spec.locals:
                ren = align(spec.locals, have)
                if ren:
                    spec.rename = ren
                    txt, tr = self._gen(tu, m, spec)
                    spec.rename = {}
        nl = tr.nloop
        want = (max(spec.loops) + 1) if spec.loops else 0
        return txt, tr, nl >= want

    def record_decls(self, tu, text, tr):
        need, todo = [], [r for r in self.recs.values() if r and re.search(r'\b%s\b' % re.escape(r.wname), text)]
        seen = set()

        def visit(r):
            if r.wname in seen:
                return
            seen.add(r.wname)
            ts = [(r.fields[f][0], tr.wtype(r.fields[f][1])) for f in r.order]
            for q in self.recs.values():
                if q and q is not r and any(re.search(r'\b%s\b' % re.escape(q.wname), t) for _, t in ts):
                    visit(q)
            need.append('type %s = { %s }\n' % (r.wname, '; '.join('%s : %s' % x for x in ts)))
        for r in todo:
            visit(r)
        return ''.join(need)

    def _gen(self, tu, m, spec):
        d = tu.funcs[m]
        saved = dict(self.contracts)
        tr = Trans(self, tu, d, spec)
        tr.this_stack, tr.this_marks, tr.tenv = [], [], {}
        ps, fields, pl = self.signature(tu, d, spec, tr)
        tr.this_fields = fields
        for f, (nm, ct) in fields.items():
            tr.scope[0][nm] = True
        pre = ''
        post = ''
        for p, nm, ct, mut in pl:
            tr.scope[0][nm] = True
            base = CType(ct.kind, ct.args, ct.name, signed=ct.signed, bits=ct.bits)
            tr.env[p['id']] = ('var', nm, base)
            if not mut and T.mutated(d, p['id']):
                pre += '(let ref %s = %s in ' % (nm, nm)
                post += ')'
        body = [c for c in d['inner'] if c['kind'] == 'CompoundStmt'][0]
        rt = CType('void') if d['kind'] == 'CXXConstructorDecl' else tr.ret_type(d)
        inits = ''
        if d['kind'] == 'CXXConstructorDecl':
            for c in d['inner']:
                if c['kind'] == 'CXXCtorInitializer':
                    ai = c.get('anyInit')
                    if ai and ai.get('name') in fields and c.get('inner'):
                        nm, ct = fields[ai['name']]
                        x = c['inner'][0]
                        if x['kind'] == 'CXXDefaultInitExpr':
                            x = default_init(tu, self, tu.parent.get(d['id']), ai['name'])
                            if x is None:
                                continue
                        e = tr.ex(x)
                        inits += '%s <- %s;\n' % (nm, e)
        entry = tr.ghost('entry')
        b = tr.stmts(body.get('inner', []))
        ex = tr.ghost('exit')
        if rt.kind == 'void' and ex:
            b = '%s;\n%s ()' % (b, ex)
        if rt.kind == 'void':
            b = '(%s; ())' % b if not b.rstrip().endswith(')') else b
        vals = []
        order = sorted(set(tr.callees))
        for cm in order:
            if cm != m:
                vals.append(self.val_decl(tu, cm, self.contracts[cm]))
        rec = ''
        extra = ''
        # the vocabulary of the contracts of the functions called
        defs, uses, recs = [], [], list(spec.records)
        for cm in order:
            c = self.contracts[cm]
            if c.src != spec.src:
                defs += c.defs
                uses += c.uses
                recs += c.records
        self.contracts = saved
        defs = list(dict.fromkeys(defs + spec.defs))
        for r in dict.fromkeys(recs):
            self.record(tu, r)
        allt = '\n'.join(vals) + b + inits + ' '.join(ps) + ' '.join(defs)
        rd = self.record_decls(tu, allt, tr)
        if re.search(r'\b(ishl\w+|ibor|iband|ibxor)\b', b + inits):
            extra += '  use cpp.Shift\n'
        if re.search(r'\b(vshuffle|permut_sub|vsorted_somehow)\b', b + inits):
            extra += '  use cpp.Shuffle\n'
        mod = 'module Verify\n' + PRE_USES + extra + ''.join('  use %s\n' % u for u in dict.fromkeys(uses + spec.uses)) + '\n' + rd + '\n'.join(defs) + '\n' + '\n'.join(vals) + '\n'
        mod += 'let %s%s %s : %s\n%s\n=\n%s%s%s%s%s\nend\n' % (
            rec, self.fname(m), ' '.join(ps), tr.wtype(rt), self.contract_text(spec), pre, entry, inits, b, post)
        tr.inlined_names = sorted(tr.inlined)
        tr.mangled = m
        return mod, tr


def default_init(tu, w, cls, name):
    def look(rec):
        for c in rec.get('inner', ()):
            if c['kind'] == 'FieldDecl' and c['name'] == name:
                for x in c.get('inner', ()):
                    if x['kind'] != 'FullComment':
                        return x
        for b in rec.get('bases', ()):
            br = tu.find_record(b['type'].get('desugaredQualType') or b['type']['qualType'])
            if br is not None:
                r = look(br)
                if r is not None:
                    return r
    return look(cls)


def align(base, have):
    """Map new local names to the names the contract uses."""
    missing = [b for b in dict.fromkeys(base) if b not in have]
    new = [h for h in dict.fromkeys(have) if h not in base]
    if not missing:
        return {}
    if len(missing) == len(new):
        return dict(zip(new, missing))
    # same number of declarations: positional
    if len(base) == len(have):
        r = {}
        for b, h in zip(base, have):
            if b != h:
                if r.get(h, b) != b:
                    return {}
                r[h] = b
        return r
    return {}


PRE_USES = '''  use int.Int
  use int.MinMax
  use int.ComputerDivision
  use real.RealInfix
  use real.FromInt
  use seq.Seq
  use ref.Ref
  use cpp.Cpp
'''
