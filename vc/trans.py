"""Mechanical translation of C++ functions (clang AST) to WhyML.

Value semantics: every C++ variable is a Why3 reference to an immutable value
(int, real, bool, seq, record).  `v[i] = e` is a functional update of the root
variable.  References are access paths.  Calls to functions that have a
contract use the contract only; calls to other hnco functions are inlined."""
import re
from cxx import *

KEYWORDS = set('''abstract absurd alias any as assert assume at axiom begin break by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false for forall
fun function ghost goal if import in inductive invariant label lemma let match meta module mutable not old
partial predicate private pure raise raises range reads rec ref requires result return returns scope so then
theory to true try type use val variant while with writes float set get length init id div mod min max
weight xor create empty sum dot last'''.split())


def wname(n):
    if not n:
        return 'anon'
    n = re.sub(r'[^A-Za-z0-9_]', '_', n)
    if n[0].isupper() or n[0].isdigit():
        n = 'v' + n
    if n in KEYWORDS:
        n = n + '_'
    return n


def tname(cname):
    n = re.sub(r'[^A-Za-z0-9_]', '_', cname.split('::')[-1] if '<' not in cname else re.sub(r'\w+::', '', cname))
    return n[0].lower() + n[1:]


def fname_field(rec, field):
    return tname(rec) + '_' + field.lstrip('_') if not field.startswith('_') else tname(rec) + field


class Path:
    def __init__(self, root, elems=(), ctype=None, ro=False):
        self.root, self.elems, self.ctype, self.ro = root, tuple(elems), ctype, ro

    def ext(self, e, ctype):
        return Path(self.root, self.elems + (e,), ctype, self.ro)

    def reversed(self):
        p = Path(self.root, self.elems, self.ctype, self.ro)
        p.rev = True
        return p

    def read(self):
        s = self.root
        for e in self.elems:
            if e[0] == 'i':
                s = '(%svget %s %s)' % (e[2], s, e[1])
            else:
                s = '%s.%s' % (s, e[1])
        return s

    def term(self):
        s = self.root
        for e in self.elems:
            if e[0] == 'i':
                s = '%s[%s]' % (s, e[1])
            else:
                s = '%s.%s' % (s, e[1])
        return s

    def write(self, val):
        def go(base, elems):
            if not elems:
                return val
            e = elems[0]
            if e[0] == 'i':
                inner = '(%svget %s %s)' % (e[2], base, e[1])
                return '(%svset %s %s %s)' % (e[2], base, e[1], go(inner, elems[1:]))
            inner = '%s.%s' % (base, e[1])
            return '{ %s with %s = %s }' % (base, e[1], go(inner, elems[1:]))
        return '(%s <- %s)' % (self.root, go(self.root, self.elems))


class Loop:
    def __init__(self):
        self.counter = None
        self.cont = None
        self.brk = None


SKIP_CASTS = ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion',
              'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'ToVoid', 'BuiltinFnToFnPtr',
              'NullToPointer', 'BitCast')


def is_solution(t):
    """algorithm::solution_t = std::pair<bit_vector_t, double>; a monomorphic record, which the SMT printers need inside records."""
    a, b = t.args
    return a.kind == 'vec' and a.args[0].kind == 'int' and b.kind == 'real'


def pair_fields(t):
    return ('sfst', 'ssnd') if is_solution(t) else ('pfst', 'psnd')


class Trans:
    def __init__(self, world, tu, decl, spec):
        self.w, self.tu, self.decl, self.spec = world, tu, decl, spec
        self.al = tu.aliases
        self.scope = [dict()]        # why names in scope
        self.env = {}                # decl id -> binding
        self.obj_refs = {}           # local object -> reference member -> path
        self.nfresh = 0
        self.nloop = 0
        self.counters = {}
        self.locals = []             # (why name, type) in order of declaration
        self.callees = {}            # mangled -> (why name, decl, cls)
        self.inlined = set()
        self.rets = []               # inline return targets
        self.loops = []
        self.dropped = []
        self.thisname = None
        self.raises = spec.raises if spec else []
        self.loopinfo = []
        self.inline_stack = []
        self.uses_any = False

    # ---------------------------------------------------------- helpers
    def fresh(self, base='t'):
        self.nfresh += 1
        return '%s__%d' % (base, self.nfresh)

    def in_scope(self, n):
        return any(n in s for s in self.scope)

    def declare(self, name, ctype, local=True):
        n = wname(name)
        if self.spec and n in self.spec.rename:
            n = self.spec.rename[n]
        base, k = n, 1
        while self.in_scope(n):
            k += 1
            n = '%s_%d' % (base, k)
        self.scope[-1][n] = True
        if local:
            self.locals.append((n, self.wtype_safe(ctype)))
        return n

    def ct(self, n):
        return node_type(n, self.al)

    def wtype_safe(self, t):
        try:
            return self.wtype(t)
        except Unsupported:
            return '?'

    def wtype(self, t):
        k = t.kind
        if k == 'int':
            return 'int'
        if k == 'bool':
            return 'bool'
        if k == 'real':
            return 'real'
        if k == 'void':
            return 'unit'
        if k == 'vec':
            return '(seq %s)' % self.wtype(t.args[0])
        if k == 'set':
            return '(seq %s)' % self.wtype(t.args[0])     # distinct elements in an arbitrary order
        if k == 'str':
            return '(seq int)'
        if k == 'pair' and is_solution(t):
            return 'solution'
        if k == 'pair':
            return '(pair %s %s)' % (self.wtype(t.args[0]), self.wtype(t.args[1]))
        if k == 'map':
            return '(fmap %s %s)' % (self.wtype(t.args[0]), self.wtype(t.args[1]))
        if k == 'ptr':
            return self.wtype(t.args[0])
        if k == 'iter':
            return 'int'
        if k == 'class' and dist_kind(t):
            return dist_kind(t)
        if k == 'class':
            if t.name in self.w.opaque:
                return self.w.opaque[t.name]
            r = self.w.record(self.tu, t.name)
            if r:
                return r.wname
            if self.stateless(t.name):
                return 'unit'
        raise Unsupported('type %r' % t)

    def stateless(self, name):
        """a class without fields"""
        r = self.tu.find_record(name)
        if r is None or not r.get('inner') or not r.get('completeDefinition'):
            return False
        if any(c.get('kind') == 'FieldDecl' for c in r['inner']):
            return False
        return all(self.stateless(b['type']['qualType']) for b in r.get('bases', ()))

    def line(self, n):
        return n.get('@line', 0)

    def loc(self, n):
        """WhyML location so that goals point at the C++ line."""
        f, l = n.get('@file'), n.get('@line')
        if not f or not l:
            return ''
        return '[#"%s" %d 0 %d 0] ' % (f.replace(REPO + '/', ''), l, l)

    def strip(self, n):
        while True:
            k = n['kind']
            if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
                     'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr', 'FullExpr') and n.get('inner'):
                n = n['inner'][0] if k != 'SubstNonTypeTemplateParmExpr' else n['inner'][-1]
                continue
            if k == 'ImplicitCastExpr' and n.get('castKind') in SKIP_CASTS and n.get('inner'):
                n = n['inner'][0]
                continue
            if k in ('CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr') \
                    and n.get('castKind') in SKIP_CASTS and n.get('inner'):
                n = n['inner'][0]
                continue
            if k == 'CXXConstructExpr' and len(n.get('inner', ())) == 1 and n.get('elidable'):
                n = n['inner'][0]
                continue
            return n

    # ---------------------------------------------------------- lvalues
    # lv(n) -> (bindings, Path); bindings: list of (name, expr)
    def lv(self, n):
        n = self.strip(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            b = self.env.get(n['referencedDecl']['id'])
            if b is None:
                raise Unsupported('unknown variable %s line %s' % (n['referencedDecl'].get('name'), self.line(n)))
            if b[0] == 'var':
                return [], Path(b[1], (), b[2])
            if b[0] == 'alias':
                return [], b[1]
            raise Unsupported('lvalue of %s' % b[0])
        if k == 'MemberExpr':
            base = self.strip(n['inner'][0])
            if base['kind'] == 'CXXThisExpr':
                return [], self.field_path(n)
            if n.get('isArrow'):
                bt = self.ct(base)
            bs, p = self.lv(base)
            return bs, self.member(p, n)
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n)
            if op == 'operator[]':
                bs, p = self.lv(n['inner'][1])
                ie = self.ex_index(n['inner'][2])
                a, nb = self.atom(ie)
                et = p.ctype.args[0] if p.ctype and p.ctype.args else self.ct(n)
                if p.ctype and p.ctype.kind == 'str':
                    et = CType('int')
                return bs + nb, p.ext(('i', a, self.loc(n)), et)
            if op == 'operator*':
                it = self.iter_of(n['inner'][1])
                if getattr(it[0], 'rev', False):
                    a, nb = self.atom('(vlen %s - 1 - %s)' % (it[0].read(), it[1]))
                    return it[2] + nb, it[0].ext(('i', a, self.loc(n)), it[0].ctype.args[0])
                return it[2], it[0].ext(('i', it[1], self.loc(n)), it[0].ctype.args[0])
        if k == 'ArraySubscriptExpr':
            bs, p = self.lv(n['inner'][0])
            if p.ctype.kind != 'vec':
                raise Unsupported('subscript of %r line %s' % (p.ctype, self.line(n)))
            a, nb = self.atom(self.ex_index(n['inner'][1]))
            return bs + nb, p.ext(('i', a, self.loc(n)), p.ctype.args[0])
        if k == 'UnaryOperator' and n['opcode'] == '*':
            inner = self.strip(n['inner'][0])
            if inner['kind'] == 'CXXThisExpr':
                if self.this_stack:
                    return [], self.this_stack[-1]
                raise Unsupported('*this')
            return self.lv(inner)
        if k == 'CXXMemberCallExpr':
            me = n['inner'][0]
            name = me.get('name')
            obj = me['inner'][0] if me.get('inner') else None
            ot = self.ct(self.strip(obj)) if obj else None
            if ot is not None and ot.kind == 'vec' and name in ('back', 'front', 'at'):
                bs, p = self.lv(obj)
                if name == 'back':
                    ie = '(vlen %s - 1)' % p.read()
                elif name == 'front':
                    ie = '0'
                else:
                    ie = self.ex_index(n['inner'][1])
                a, nb = self.atom(ie)
                return bs + nb, p.ext(('i', a, self.loc(n)), p.ctype.args[0])
            d = self.callee_decl(n)
            if d is not None and self.w.externs.get(self.qual(d)):
                # a reference returned by an abstract function, read only
                a, nb = self.atom(self.ex(n))
                return nb, Path(a, (), self.ct(n))
            if d is not None:
                return self.lv_call(n, d, me, n['inner'][1:])
        if k == 'CallExpr':
            d = self.callee_decl(n)
            if d is not None:
                return self.lv_call(n, d, None, n['inner'][1:])
        if k == 'CXXThisExpr':
            raise Unsupported('this as a value')
        raise Unsupported('lvalue %s line %s' % (k, self.line(n)))

    def is_lvalue(self, n):
        m = self.strip(n)
        if m.get('valueCategory') not in ('lvalue', 'xvalue'):
            return False
        return m['kind'] in ('DeclRefExpr', 'MemberExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr', 'UnaryOperator', 'ArraySubscriptExpr')

    def lv_call(self, n, d, me, args):
        """A call returning a reference: inline `return <lvalue>`."""
        if d.get('mangledName') in self.w.contracts:
            raise Unsupported('lvalue result of a function under contract')
        body = self.body_of(d)
        if body is None:
            raise Unsupported('no body for %s' % d.get('name'))
        st = [s for s in body.get('inner', ()) if not self.is_assert(s)]
        if len(st) != 1 or st[0]['kind'] != 'ReturnStmt':
            raise Unsupported('lvalue call to %s: not a single return' % d.get('name'))
        pb = self.bind_params(d, args)
        binds = (self.bind_this(me) if me is not None else []) + pb
        try:
            b2, p = self.lv(st[0]['inner'][0])
        finally:
            if me is not None:
                self.unbind_this()
        return binds + b2, p

    def fields(self):
        return self.cls_fields

    def field_path(self, n):
        fid = n['referencedMemberDecl']
        name = n.get('name')
        if self.this_stack:
            p = self.this_stack[-1]
            return self.member(p, n)
        if name in self.this_fields:
            return Path(self.this_fields[name][0], (), self.this_fields[name][1])
        raise Unsupported('field %s' % name)

    this_stack = []
    this_fields = {}
    obj_refs = {}

    def member(self, p, n):
        name = n.get('name')
        if not p.elems and name in self.obj_refs.get(p.root, ()):
            return self.obj_refs[p.root][name]
        t = p.ctype
        while t.kind == 'ptr':
            t = t.args[0]
        if t.kind == 'pair':
            i = {'first': 0, 'second': 1}[name]
            # pairs are tuples: represented through record-like projections
            return p.ext(('f', pair_fields(t)[i]), t.args[i])
        if t.kind == 'class':
            r = self.w.record(self.tu, t.name)
            if r and name in r.fields:
                return p.ext(('f', r.fields[name][0]), r.fields[name][1])
        raise Unsupported('member %s of %r' % (name, t))

    # ---------------------------------------------------------- atoms
    def atom(self, e):
        if re.match(r"^[A-Za-z_][A-Za-z0-9_']*$", e) or re.match(r'^\d+$', e):
            # a mutable variable must be frozen: its value is taken now
            if re.match(r'^\d+$', e) or '__' in e:
                return e, []
        t = self.fresh('i')
        return t, [(t, e)]

    def wrap(self, binds, e):
        for n, v in reversed(binds):
            e = '(let %s = %s in %s)' % (n, v, e)
        return e

    # ---------------------------------------------------------- expressions
    def opname(self, n):
        c = self.strip(n['inner'][0])
        return c.get('referencedDecl', {}).get('name')

    def callee_decl(self, n):
        """hnco declaration called by a call node, or None."""
        c = self.strip(n['inner'][0])
        if c['kind'] == 'MemberExpr':
            rid = c.get('referencedMemberDecl')
        elif c['kind'] == 'DeclRefExpr':
            rid = c['referencedDecl']['id']
        else:
            return None
        d = self.tu.by_id.get(rid)
        if d is None and c['kind'] == 'DeclRefExpr' and c['referencedDecl'].get('kind') == 'FunctionDecl':
            nm = c['referencedDecl'].get('name') or ''
            if re.match(r'^[A-Za-z_]\w+$', nm) and not hasattr(self, 'std_' + nm) and not nm.startswith('__'):
                for g in self.tu.load_global(nm):
                    if g['type']['qualType'] == c['referencedDecl']['type']['qualType']:
                        return g
        return d

    def body_of(self, d):
        f = self.tu.funcs.get(d.get('mangledName'))
        if f is None:
            return None
        for c in f['inner']:
            if c['kind'] == 'CompoundStmt':
                return c
        return None

    def params_of(self, d):
        f = self.tu.funcs.get(d.get('mangledName'), d)
        return [c for c in f.get('inner', ()) if c['kind'] == 'ParmVarDecl']

    def is_assert(self, n):
        m = self.strip(n)
        if m['kind'] != 'ConditionalOperator':
            return False
        if self.ct(m).kind != 'void':
            return False
        c = self.strip(m['inner'][2])
        return c['kind'] == 'CallExpr' and self.strip(c['inner'][0]).get('referencedDecl', {}).get('name') == '__assert_fail'

    def ex_index(self, n):
        """An index: the bounds obligation covers the sign."""
        m = n
        while True:
            m2 = self.strip(m)
            if m2['kind'] in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr') \
                    and m2.get('castKind') == 'IntegralCast':
                m = m2['inner'][0]
                continue
            return self.ex(m2)

    def ex(self, n):
        k = n['kind']
        f = getattr(self, 'ex_' + k, None)
        if f is None:
            s = self.strip(n)
            if s is not n:
                return self.ex(s)
            raise Unsupported('expression %s line %s' % (k, self.line(n)))
        return f(n)

    def ex_IntegerLiteral(self, n):
        v = n['value']
        return '(%s)' % v if v.startswith('-') else v

    def ex_CharacterLiteral(self, n):
        return str(n['value'])

    def ex_CXXBoolLiteralExpr(self, n):
        return 'true' if n['value'] else 'false'

    def ex_FloatingLiteral(self, n):
        return realconst(n['value'])

    def ex_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = n.get('argType', {}).get('desugaredQualType') or n.get('argType', {}).get('qualType')
            ct = parse_type(t, self.al)
            if ct.kind == 'int':
                return str(ct.bits // 8)
        raise Unsupported('sizeof')

    def ex_CXXNullPtrLiteralExpr(self, n):
        raise Unsupported('nullptr')

    def ex_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        s = n['inner'][0]
        if ck in SKIP_CASTS:
            return self.ex(s)
        e = self.ex(s)
        if ck == 'IntegralCast':
            t, u = self.ct(n), self.ct(s)
            if u.kind == 'bool':
                return '(b2i %s)' % e
            if re.match(r'^\d+$', e) and (not t.signed or True) and int(e) < 2 ** (t.bits - 1):
                return e
            if t.bits == 8 and u.bits > 8:
                return '(%sto_u8 %s)' % (self.loc(n), e) if not t.signed else '(to_s8 %s)' % e
            if u.signed and not t.signed:
                return '(%sto_unsigned %s)' % (self.loc(n), e)
            return e
        if ck == 'IntegralToBoolean':
            u = self.ct(s)
            return e if u.kind == 'bool' else '(ine %s 0)' % e
        if ck == 'FloatingToBoolean':
            return '(rne %s 0.0)' % e
        if ck == 'IntegralToFloating':
            u = self.ct(s)
            if u.kind == 'bool':
                e = '(b2i %s)' % e
            if re.match(r'^\d+$', e):
                return e + '.0'
            return '(i2r %s)' % e
        if ck == 'FloatingCast':
            return e
        if ck == 'FloatingToIntegral':
            return '(r2i %s)' % e
        if ck == 'PointerToBoolean':
            return 'true'
        raise Unsupported('cast %s line %s' % (ck, self.line(n)))

    ex_CXXStaticCastExpr = ex_CXXFunctionalCastExpr = ex_CStyleCastExpr = ex_ImplicitCastExpr

    def ex_DeclRefExpr(self, n):
        rid = n['referencedDecl']['id']
        b = self.env.get(rid)
        if b is None:
            if n['referencedDecl']['kind'] == 'EnumConstantDecl':
                d = self.tu.by_id.get(rid)
                return enum_value(d, self)
            raise Unsupported('variable %s line %s' % (n['referencedDecl'].get('name'), self.line(n)))
        if b[0] == 'var':
            return b[1]
        if b[0] == 'alias':
            return b[1].read()
        if b[0] == 'value':
            return b[1]
        raise Unsupported('variable kind ' + b[0])

    def map_call(self, n, names):
        """A call m.<name>(...) on an associative container: (object, name, args) or None."""
        n = self.strip(n)
        while n['kind'] == 'CXXConstructExpr' and len(n.get('inner', ())) == 1:
            n = self.strip(n['inner'][0])
        if n['kind'] != 'CXXMemberCallExpr':
            return None
        me = n['inner'][0]
        if me.get('name') not in names or not me.get('inner'):
            return None
        if self.ct(self.strip(me['inner'][0])).kind != 'map':
            return None
        return me['inner'][0], me['name'], [a for a in n['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']

    def mapit(self, n):
        n = self.strip(n)
        while n['kind'] == 'CXXConstructExpr' and len(n.get('inner', ())) == 1:
            n = self.strip(n['inner'][0])
        if n['kind'] == 'DeclRefExpr':
            b = self.env.get(n['referencedDecl']['id'])
            if b and b[0] == 'mapit':
                return b
        return None

    def mapit_member(self, n, term=False):
        base = self.strip(n['inner'][0])
        if base['kind'] != 'CXXOperatorCallExpr' or self.opname(base) not in ('operator->', 'operator*'):
            return None
        b = self.mapit(base['inner'][1])
        if b is None:
            return None
        if n.get('name') == 'first':
            return b[2]
        if term:
            return '(mval %s %s)' % (b[1].term(), b[2])
        return '(%smget %s %s)' % (self.loc(n), b[1].read(), b[2])

    def map_method(self, n, name, obj, args, ot):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        bs, p = self.lv(obj)
        cur = p.read()
        if name in ('count', 'contains') and len(args) == 1:
            e = '(mmem %s %s)' % (cur, self.ex(args[0]))
            return self.wrap(bs, e if name == 'contains' else '(b2i %s)' % e)
        if name == 'at' and len(args) == 1:
            return self.wrap(bs, '(%smget %s %s)' % (self.loc(n), cur, self.ex(args[0])))
        if name == 'clear':
            return self.wrap(bs, p.write('(mempty ())'))
        if name == 'insert' and len(args) == 1:
            q = self.fresh('kv')
            t = CType('pair', list(ot.args))
            f = pair_fields(t)
            return self.wrap(bs + [(q, self.ex(args[0]))], p.write('(minsert %s %s.%s %s.%s)' % (cur, q, f[0], q, f[1])))
        if name in ('emplace', 'try_emplace') and len(args) == 2:
            return self.wrap(bs, p.write('(minsert %s %s %s)' % (cur, self.ex(args[0]), self.ex(args[1]))))
        if name == 'insert_or_assign' and len(args) == 2:
            return self.wrap(bs, p.write('(mput %s %s %s)' % (cur, self.ex(args[0]), self.ex(args[1]))))
        raise Unsupported('map::%s line %s' % (name, self.line(n)))

    def ex_MemberExpr(self, n):
        base = self.strip(n['inner'][0])
        mi = self.mapit_member(n)
        if mi is not None:
            return mi
        if base['kind'] != 'CXXThisExpr':
            # member of an rvalue
            try:
                bs, p = self.lv(n)
                return self.wrap(bs, p.read())
            except Unsupported:
                t = self.ct(base)
                while t.kind == 'ptr':
                    t = t.args[0]
                e = self.ex(base)
                name = n.get('name')
                if t.kind == 'pair':
                    return '(%s).%s' % (e, pair_fields(t)[{'first': 0, 'second': 1}[name]])
                r = self.w.record(self.tu, t.name)
                if r and name in r.fields:
                    return '(%s).%s' % (e, r.fields[name][0])
                raise
        p = self.field_path(n)
        return p.read()

    def ex_ArraySubscriptExpr(self, n):
        bs, p = self.lv(n)
        return self.wrap(bs, p.read())

    def ex_CXXThisExpr(self, n):
        raise Unsupported('this')

    def ex_ConditionalOperator(self, n):
        if self.is_assert(n):
            return self.st_assert(n)
        a, b, c = n['inner']
        return '(if %s then %s else %s)' % (self.ex(a), self.ex(b), self.ex(c))

    ARITH = {'+': 'iadd', '-': 'isub', '*': 'imul', '/': 'idiv', '%': 'imod', '<<': 'ishl', '>>': 'ishr',
             '&': 'iband', '|': 'ibor', '^': 'ibxor'}
    RARITH = {'+': 'radd', '-': 'rsub', '*': 'rmul', '/': 'rdiv'}
    ICMP = {'==': 'ieq', '!=': 'ine', '<': 'ilt', '<=': 'ile', '>': 'igt', '>=': 'ige'}
    RCMP = {'==': 'req', '!=': 'rne', '<': 'rlt', '<=': 'rle', '>': 'rgt', '>=': 'rge'}

    def arith(self, op, a, b, t, n):
        if t.kind == 'real':
            if op == '/' and self.spec and self.spec.anyquotient:
                return '(rdiv_any %s %s)' % (a, b)
            return '(%s%s %s %s)' % (self.loc(n) if op == '/' else '', self.RARITH[op], a, b)
        if t.kind == 'int':
            f = self.ARITH[op]
            if op == '-' and not t.signed:
                f = 'usub'
            if op == '<<':
                f = 'ishl%s%d' % ('' if t.signed else 'u', t.bits)
            if op in '+*' and False:
                pass
            if op == '+':
                return '(%s + %s)' % (a, b)
            if op == '*':
                return '(%s * %s)' % (a, b)
            if op == '-' and t.signed:
                return '(%s - %s)' % (a, b)
            return '(%s%s %s %s)' % (self.loc(n), f, a, b)
        raise Unsupported('arith on %r line %s' % (t, self.line(n)))

    def ex_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            return self.assign(n, a, b)
        if op == ',':
            def stm(x):
                return '(%s)' % self.st(self.strip(x))
            return '(%s; %s)' % (stm(a), stm(b) if n.get('@stmt') or self.strip(b)['kind'] in ('UnaryOperator', 'CompoundAssignOperator') else self.ex(b))
        if op in ('&&', '||'):
            ea, eb = self.ex(a), self.ex(b)
            if op == '&&' and getattr(self, 'in_assert', False) and self.total(eb):
                return '(band %s %s)' % (ea, eb)
            return '(%s %s %s)' % (ea, op, eb)
        ta = self.ct(self.strip_noload(a))
        ea, eb = self.ex(a), self.ex(b)
        if op in self.ICMP:
            ta = self.ct(a)
            if ta.kind == 'real':
                return '(%s %s %s)' % (self.RCMP[op], ea, eb)
            if ta.kind == 'bool':
                return '(%s %s %s)' % ({'==': 'beq', '!=': 'bne'}[op], ea, eb)
            if ta.kind == 'int':
                return '(%s %s %s)' % (self.ICMP[op], ea, eb)
            raise Unsupported('comparison of %r line %s' % (ta, self.line(n)))
        return self.arith(op, ea, eb, self.ct(n), n)

    @staticmethod
    def total(e):
        """evaluating this expression cannot fail and changes nothing: && may be evaluated eagerly"""
        return not re.search(r'[&|;!]|<-|\b(vget|f_\w+|raise|assert|isub|usub|idiv|imod|if|while|ref)\b', e)

    def strip_noload(self, n):
        return n

    def ex_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        bs, p = self.lv(a)
        eb = self.ex(b)
        comp = parse_type(n.get('computeResultType', {}).get('desugaredQualType') or n.get('computeResultType', {}).get('qualType', 'int'), self.al)
        t = self.ct(a)
        cur = p.read()
        if t.kind == 'bool':
            raise Unsupported('compound assignment on bool')
        if t.kind == 'int' and comp.kind == 'real':
            e = '(r2i %s)' % self.arith(op, '(i2r %s)' % cur, eb, comp, n)
        else:
            e = self.arith(op, cur, eb, comp, n)
            if t.kind == 'int' and t.bits == 8:
                e = '(%sto_u8 %s)' % (self.loc(n), e)
        return self.wrap(bs, p.write(e))

    def ex_UnaryOperator(self, n):
        op = n['opcode']
        a = n['inner'][0]
        if op in ('++', '--'):
            bs, p = self.lv(a)
            t = self.ct(a)
            cur = p.read()
            if t.kind == 'real':
                e = '(%s %s 1.0)' % ('radd' if op == '++' else 'rsub', cur)
            elif t.kind == 'int':
                if op == '++':
                    e = '(%s + 1)' % cur
                elif t.signed:
                    e = '(%s - 1)' % cur
                else:
                    e = '(usub %s 1)' % cur
            else:
                raise Unsupported('++ on %r' % t)
            if n.get('@stmt'):
                return self.wrap(bs, p.write(e))
            if n.get('isPostfix'):
                v = self.fresh('p')
                return self.wrap(bs, '(let %s = %s in %s; %s)' % (v, cur, p.write(e), v))
            return self.wrap(bs, '(%s; %s)' % (p.write(e), p.read()))
        if op == '!':
            return '(not %s)' % self.ex(a)
        if op == '-':
            t = self.ct(n)
            if t.kind == 'real':
                return '(rneg %s)' % self.ex(a)
            return '(- %s)' % self.ex(a)
        if op == '+':
            return self.ex(a)
        if op == '*' and self.strip(a)['kind'] == 'CXXThisExpr' and not self.this_stack:
            r = self.w.record(self.tu, self.ct(n).name)
            if r and all(f in self.this_fields for f in r.order):
                return '{ ' + '; '.join('%s = %s' % (r.fields[f][0], self.this_fields[f][0]) for f in r.order) + ' }'
            raise Unsupported('*this')
        if op in ('*', '&'):
            bs, p = self.lv(n)
            return self.wrap(bs, p.read())
        raise Unsupported('unary %s line %s' % (op, self.line(n)))

    def assign(self, n, a, b):
        bs, p = self.lv(a)
        eb = self.ex(b)
        return self.wrap(bs, p.write(eb))

    # ---------------------------------------------------------- construction
    def ex_CXXConstructExpr(self, n):
        t = self.ct(n)
        args = [a for a in n.get('inner', ()) if a['kind'] != 'CXXDefaultArgExpr']
        if t.kind == 'vec':
            el = t.args[0]
            if not args:
                return 'empty_seq'
            t0 = self.ct(args[0])
            if t0.kind == 'int' and len(args) == 1:
                return '(%smake_seq %s %s)' % (self.loc(n), self.ex_index(args[0]), self.default(el))
            if t0.kind == 'int' and len(args) == 2:
                return '(%smake_seq %s %s)' % (self.loc(n), self.ex_index(args[0]), self.ex(args[1]))
            if t0.kind == 'vec':
                return self.ex(args[0])
            s0 = self.strip(args[0])
            if s0['kind'] == 'CXXStdInitializerListExpr':
                return self.ex(s0)
        if t.kind == 'set' and not args:
            return 'empty_seq'
        if t.kind == 'pair' and len(args) == 2:
            return '{ %s = %s; %s = %s }' % (pair_fields(t)[0], self.ex(args[0]), pair_fields(t)[1], self.ex(args[1]))
        if t.kind == 'str':
            return 'empty_seq'
        if t.kind == 'class' and dist_kind(t):
            k = dist_kind(t)
            if len(args) == 1 and dist_kind(self.ct(args[0])) == k:
                return self.ex(args[0])
            real = {'idist': (0, 0), 'bdist': (1,), 'udist': (1, 1), 'ndist': (0, 1), 'gdist': (1, 1), 'geodist': (1,)}.get(k)
            if real is None:
                raise Unsupported('construct %s' % k)
            es = []
            for i, a in enumerate(args):
                e = self.ex(a)
                es.append(e)
            if not args:
                return '(any %s)' % k
            if len(es) < len(real):
                es += {'idist': ['2147483647'], 'udist': ['1.0'], 'gdist': ['1.0'], 'ndist': ['0.5']}[k]
            return '(%smake_%s %s)' % (self.loc(n), k, ' '.join(es))
        if len(args) == 1 and self.ct(args[0]).kind == t.kind and (t.kind != 'class' or n.get('elidable') or self.ct(args[0]).name == t.name):
            return self.ex(args[0])
        if t.kind == 'class':
            r = self.w.record(self.tu, t.name)
            if not args and r:
                return self.default(t)
            if r:
                return self.construct_record(n, t, r, args)
            if not args and self.stateless(t.name):
                return '()'
        raise Unsupported('construct %r line %s' % (t, self.line(n)))

    def construct_record(self, n, t, r, args):
        """an object whose constructors only initialize fields; the constructor's initializers are inlined"""
        vals, lets, body = {}, [], []
        top = self.tu.find_record(t.name)

        def run(cls, ctype, es):
            ctor = None
            for c in cls.get('inner', ()):
                if c.get('kind') == 'CXXConstructorDecl' and c['type']['qualType'] == ctype:
                    ctor = self.tu.funcs.get(c.get('mangledName'), c)
            if ctor is None:
                raise Unsupported('constructor %s line %s' % (ctype, self.line(n)))
            for c in ctor.get('inner', ()):
                if c['kind'] == 'CompoundStmt':
                    q = [q for q in c.get('inner', ()) if not self.is_assert(self.strip(q))]
                    if q and cls is not top:
                        raise Unsupported('constructor body line %s' % self.line(n))
                    if cls is top:
                        body.extend(c.get('inner', ()))
            for p, e in zip(self.params_of(ctor), es):
                nm = self.fresh('c')
                lets.append((nm, e))
                self.env[p['id']] = ('var', nm, parse_type(p['type'].get('desugaredQualType') or p['type']['qualType'], self.al))
            for c in ctor.get('inner', ()):
                if c['kind'] != 'CXXCtorInitializer' or not c.get('inner'):
                    continue
                x = c['inner'][0]
                if c.get('baseInit'):
                    base = self.tu.find_record(c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType'])
                    x = self.strip(x)
                    if base is None or x['kind'] != 'CXXConstructExpr':
                        raise Unsupported('base initializer line %s' % self.line(n))
                    run(base, x['ctorType']['qualType'], [self.ex(a) for a in x.get('inner', ())])
                    continue
                f = (c.get('anyInit') or {}).get('name')
                if f not in r.fields:
                    continue
                if x['kind'] == 'CXXDefaultInitExpr':
                    import world
                    x = world.default_init(self.tu, self.w, cls, f)
                vals[f] = self.ex(x)
        run(top, n['ctorType']['qualType'], [self.ex(a) for a in args])
        e = '{ ' + '; '.join('%s = %s' % (r.fields[f][0], vals.get(f) or self.default(r.fields[f][1])) for f in r.order) + ' }'
        if body:
            nm = self.fresh('obj')
            if self.reference_fields(top):
                self.obj_refs[nm] = self.resolve_references(top, n)
            self.this_stack = self.this_stack + [Path(nm, (), t)]
            try:
                b = self.stmts(body)
            finally:
                self.this_stack = self.this_stack[:-1]
            e = '(let ref %s = (%s : %s) in %s; %s)' % (nm, e, self.wtype(t), b, nm)
        for nm, x in reversed(lets):
            e = '(let %s = %s in %s)' % (nm, x, e)
        return e

    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr

    def ex_CXXScalarValueInitExpr(self, n):
        return self.default(self.ct(n))

    def ex_ImplicitValueInitExpr(self, n):
        return self.default(self.ct(n))

    def default(self, t):
        if t.kind == 'int':
            return '0'
        if t.kind == 'real':
            return '0.0'
        if t.kind == 'bool':
            return 'false'
        if t.kind == 'vec' and t.name == 'array':
            raise Unsupported('default std::array')
        if t.kind in ('vec', 'str'):
            return 'empty_seq'
        if t.kind == 'pair':
            return '{ %s = %s; %s = %s }' % (pair_fields(t)[0], self.default(t.args[0]), pair_fields(t)[1], self.default(t.args[1]))
        return '(any %s)' % self.wtype(t)

    def ex_InitListExpr(self, n):
        t = self.ct(n)
        if t.kind == 'class':
            r = self.w.record(self.tu, t.name)
            if r:
                vals = [self.ex(c) for c in n['inner']]
                return '{ ' + '; '.join('%s = %s' % (r.fields[f][0], v) for f, v in zip(r.order, vals)) + ' }'
        if t.kind in ('int', 'real', 'bool') and n.get('inner'):
            return self.ex(n['inner'][0])
        if t.kind == 'vec' and t.name == 'array' and len(n.get('inner', ())) == 1 and n['inner'][0]['kind'] == 'InitListExpr' \
                and not n['inner'][0].get('array_filler'):
            e = 'empty_seq'
            for c in n['inner'][0]['inner']:
                e = '(vsnoc %s %s)' % (e, self.ex(c))
            return e
        raise Unsupported('init list %r line %s' % (t, self.line(n)))

    def ex_CXXThrowExpr(self, n):
        t = self.ct(n['inner'][0]) if n.get('inner') else CType('other')
        name = {'LastEvaluation': 'LastEvaluation', 'TargetReached': 'TargetReached',
                'MaximumReached': 'MaximumReached', 'LocalMaximum': 'LocalMaximum'}.get(t.name.split('::')[-1], 'Throw')
        if name in self.raises:
            return '(raise %s)' % name
        return '(%sabsurd)' % self.loc(n)

    # ---------------------------------------------------------- iterators
    def iter_of(self, n):
        """Iterator expression -> (Path, index expr atom, bindings)"""
        n = self.strip(n)
        while n['kind'] == 'CXXConstructExpr' and len(n['inner']) == 1:
            n = self.strip(n['inner'][0])
        k = n['kind']
        if k == 'CXXMemberCallExpr':
            me = n['inner'][0]
            if me.get('name') in ('rbegin', 'crbegin', 'rend', 'crend'):
                bs, p = self.lv(me['inner'][0])
                p = p.reversed()
                if 'begin' in me['name']:
                    return p, '0', bs
                a, nb = self.atom('(vlen %s)' % p.read())
                return p, a, bs + nb
            if me.get('name') in ('begin', 'cbegin', 'end', 'cend'):
                bs, p = self.lv(me['inner'][0])
                if me['name'] in ('begin', 'cbegin'):
                    return p, '0', bs
                a, nb = self.atom('(vlen %s)' % p.read())
                return p, a, bs + nb
        if k == 'CallExpr':
            nm = self.strip(n['inner'][0]).get('referencedDecl', {}).get('name')
            if nm in ('begin', 'end', 'cbegin', 'cend'):
                bs, p = self.lv(n['inner'][1])
                if nm in ('begin', 'cbegin'):
                    return p, '0', bs
                a, nb = self.atom('(vlen %s)' % p.read())
                return p, a, bs + nb
            if nm in ('find', 'find_if', 'find_if_not'):
                return self.find_call(nm, n['inner'][1:])
            if nm in ('min_element', 'max_element') and len(n['inner']) == 3:
                p, lo, hi, bs = self.same_range(n['inner'][1], n['inner'][2])
                ek = p.ctype.args[0].kind
                if ek not in ('int', 'real'):
                    raise Unsupported('min_element')
                lt = ' <. ' if ek == 'real' else ' < '
                k2, r = self.fresh('k'), self.fresh('it')
                xs = ['%s[%s]' % (p.term(), k2), '%s[%s]' % (p.term(), r)]
                if nm == 'max_element':
                    xs.reverse()
                e = '(let %s = any int in assume { %s <= %s <= %s /\\ (%s < %s -> %s < %s /\\ (forall %s:int. %s <= %s < %s -> not (%s))) }; %s)' % (
                    r, lo, r, hi, lo, hi, r, hi, k2, lo, k2, hi, lt.join(xs), r)
                chk = self.fresh('chk')
                return p, r, bs + [(chk, '(assert { [@expl:valid iterator range] 0 <= %s <= %s <= length %s })' % (lo, hi, p.term())), (r, e)]
            if nm in ('next', 'prev') :
                p, a, bs = self.iter_of(n['inner'][1])
                d = self.ex(n['inner'][2]) if len(n['inner']) > 2 and n['inner'][2]['kind'] != 'CXXDefaultArgExpr' else '1'
                b, nb = self.atom('(%s %s %s)' % (a, '+' if nm == 'next' else '-', d))
                return p, b, bs + nb
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n)
            if op in ('operator+', 'operator-'):
                p, a, bs = self.iter_of(n['inner'][1])
                d = self.ex(n['inner'][2])
                b, nb = self.atom('(%s %s %s)' % (a, op[-1], d))
                return p, b, bs + nb
        if k == 'DeclRefExpr':
            b = self.env.get(n['referencedDecl']['id'])
            if b and b[0] == 'iter':
                a, nb = self.atom(b[2])
                return b[1], a, nb
        raise Unsupported('iterator %s line %s' % (k, self.line(n)))

    def find_call(self, nm, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        if nm == 'find':
            if p.ctype.args[0].kind not in ('int', 'bool'):
                raise Unsupported('find')
            v, nb = self.atom(self.ex(args[2]))
            test = lambda k: '%s[%s] = %s' % (p.term(), k, v)
        else:
            lam, nb = self.lambda_of(args[2]), []
            test = lambda k: ('' if nm == 'find_if' else 'not ') + '(' + self.lambda_term(lam, ['%s[%s]' % (p.term(), k)]) + ')'
        k = self.fresh('k')
        r = self.fresh('it')
        e = '(let %s = any int in assume { %s <= %s <= %s /\\ (forall %s:int. %s <= %s < %s -> not (%s)) /\\ (%s < %s -> %s) }; %s)' % (
            r, lo, r, hi, k, lo, k, r, test(k), r, hi, test(r), r)
        chk = self.fresh('chk')
        return p, r, bs + nb + [(chk, '(assert { [@expl:valid iterator range] 0 <= %s <= %s <= length %s })' % (lo, hi, p.term())), (r, e)]

    def is_iter(self, n):
        n = self.strip(n)
        while n['kind'] == 'CXXConstructExpr' and len(n.get('inner', ())) == 1:
            n = self.strip(n['inner'][0])
        t = self.ct(n)
        return t.kind == 'iter' or (t.kind == 'class' and 'iterator' in t.name)

    def lambda_of(self, n):
        n = self.strip(n)
        while n['kind'] == 'CXXConstructExpr' and len(n['inner']) == 1:
            n = self.strip(n['inner'][0])
        if n['kind'] == 'DeclRefExpr':
            b = self.env.get(n['referencedDecl']['id'])
            if b and b[0] == 'lambda':
                return b[1]
        if n['kind'] != 'LambdaExpr':
            raise Unsupported('not a lambda: %s' % n['kind'])
        c = self.tu.lambda_call(n)
        return c

    # lambda applied to logic terms -> term
    def lambda_term(self, c, args):
        ps = [x for x in c['inner'] if x['kind'] == 'ParmVarDecl']
        body = [x for x in c['inner'] if x['kind'] == 'CompoundStmt'][0]
        if len(body['inner']) != 1 or body['inner'][0]['kind'] != 'ReturnStmt':
            raise Unsupported('lambda body')
        saved = dict(self.tenv)
        for p, a in zip(ps, args):
            self.tenv[p['id']] = (a, parse_type(p['type'].get('desugaredQualType') or p['type']['qualType'], self.al))
        try:
            return self.tm(body['inner'][0]['inner'][0])
        finally:
            self.tenv = saved

    tenv = {}

    # ---------------------------------------------------------- logic terms (pure expressions only)
    def tm(self, n):
        k = n['kind']
        s = self.strip(n)
        if s is not n:
            return self.tm(s)
        if k == 'IntegerLiteral':
            return n['value']
        if k == 'CharacterLiteral':
            return str(n['value'])
        if k == 'FloatingLiteral':
            return realconst(n['value'])
        if k == 'CXXBoolLiteralExpr':
            return 'true' if n['value'] else 'false'
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr'):
            ck = n['castKind']
            e = self.tm(n['inner'][0])
            if ck == 'IntegralCast':
                return '(t_b2i %s)' % e if self.ct(n['inner'][0]).kind == 'bool' else e
            if ck == 'IntegralToBoolean':
                return '(%s <> 0)' % e
            if ck == 'IntegralToFloating':
                return '(from_int %s)' % e
            if ck == 'FloatingCast':
                return e
            raise Unsupported('term cast ' + ck)
        if k == 'DeclRefExpr':
            rid = n['referencedDecl']['id']
            if rid in self.tenv:
                return self.tenv[rid][0]
            b = self.env.get(rid)
            if b is None:
                raise Unsupported('term variable')
            if b[0] == 'var':
                return b[1]
            if b[0] == 'alias':
                return b[1].term()
            if b[0] == 'value':
                return b[1]
        if k == 'MemberExpr':
            base = self.strip(n['inner'][0])
            if base['kind'] == 'CXXThisExpr':
                return self.field_path(n).term()
            mi = self.mapit_member(n, True)
            if mi is not None:
                return mi
            t = self.ct(base)
            while t.kind == 'ptr':
                t = t.args[0]
            if t.kind == 'pair':
                return '%s.%s' % (self.tm(base), pair_fields(t)[{'first': 0, 'second': 1}[n['name']]])
            r = self.w.record(self.tu, t.name)
            if r and n['name'] in r.fields:
                return '%s.%s' % (self.tm(base), r.fields[n['name']][0])
        if k == 'BinaryOperator':
            op = n['opcode']
            a, b = self.tm(n['inner'][0]), self.tm(n['inner'][1])
            t = self.ct(n['inner'][0])
            if op in ('&&', '||'):
                return '(%s %s %s)' % (a, {'&&': '/\\', '||': '\\/'}[op], b)
            if op == '==':
                return '(%s = %s)' % (a, b) if t.kind != 'bool' else '(%s <-> %s)' % (a, b)
            if op == '!=':
                return '(%s <> %s)' % (a, b) if t.kind != 'bool' else '(not (%s <-> %s))' % (a, b)
            if t.kind == 'real':
                return '(%s %s. %s)' % (a, op, b)
            if op in ('<', '<=', '>', '>=', '+', '-', '*'):
                return '(%s %s %s)' % (a, op, b)
            if op == '%':
                return '(mod %s %s)' % (a, b)
            if op == '/':
                return '(div %s %s)' % (a, b)
        if k == 'UnaryOperator':
            if n['opcode'] == '!':
                return '(not %s)' % self.tm(n['inner'][0])
            if n['opcode'] == '-':
                return '(- %s)' % self.tm(n['inner'][0])
        if k == 'CallExpr' and len(n['inner']) == 3 and self.strip(n['inner'][0]).get('referencedDecl', {}).get('name') in ('min', 'max') \
                and self.ct(n).kind in ('int', 'real'):
            mx = self.strip(n['inner'][0])['referencedDecl']['name'] == 'max'
            a, b = self.tm(n['inner'][1]), self.tm(n['inner'][2])
            lt = '<.' if self.ct(n).kind == 'real' else '<'
            return '(if %s %s %s then %s else %s)' % ((a, lt, b, b, a) if mx else (b, lt, a, b, a))
        if k == 'CXXOperatorCallExpr' and self.opname(n) == 'operator[]':
            return '%s[%s]' % (self.tm(n['inner'][1]), self.tm(n['inner'][2]))
        if k == 'CXXMemberCallExpr':
            me = n['inner'][0]
            t = self.ct(self.strip(me['inner'][0]))
            if t.kind in ('vec', 'str') and me['name'] == 'size':
                return '(length %s)' % self.tm(me['inner'][0])
            d = self.callee_decl(n)
            c = self.w.contracts.get(d.get('mangledName')) if d is not None else None
            if c and c.logic:
                cls = self.tu.parent.get(d['id'])
                obj = self.strip(me['inner'][0])
                fs = self.w.method_fields(self.tu, cls, c)
                if obj['kind'] == 'CXXThisExpr' and not self.this_stack:
                    fa = [self.this_fields[f][0] for f in fs]
                else:
                    r = self.w.record(self.tu, cls.get('name'))
                    o = self.this_stack[-1].term() if obj['kind'] == 'CXXThisExpr' else self.tm(obj)
                    fa = ['%s.%s' % (o, r.fields[f][0]) for f in fs]
                return '(%s)' % ' '.join([c.logic] + fa + [self.tm(a) for a in n['inner'][1:]])
        if k == 'CallExpr':
            d = self.callee_decl(n)
            if d is not None:
                c = self.w.contracts.get(d.get('mangledName'))
                if c and c.logic:
                    return '(%s)' % ' '.join([c.logic] + [self.tm(a) for a in n['inner'][1:]])
                body = self.body_of(d)
                if body and len(body['inner']) == 1 and body['inner'][0]['kind'] == 'ReturnStmt':
                    saved = dict(self.tenv)
                    for p, a in zip(self.params_of(d), n['inner'][1:]):
                        self.tenv[p['id']] = (self.tm(a), None)
                    try:
                        return self.tm(body['inner'][0]['inner'][0])
                    finally:
                        self.tenv = saved
            nm = self.strip(n['inner'][0]).get('referencedDecl', {}).get('name')
            if nm in ('min', 'max') and self.ct(n).kind == 'int':
                return '(%s %s %s)' % (nm, self.tm(n['inner'][1]), self.tm(n['inner'][2]))
        raise Unsupported('term %s line %s' % (k, self.line(n)))

    # ---------------------------------------------------------- calls
    def same_range(self, n1, n2, rev_ok=False):
        p1, a1, b1 = self.iter_of(n1)
        p2, a2, b2 = self.iter_of(n2)
        if getattr(p1, 'rev', False) != getattr(p2, 'rev', False) or (getattr(p1, 'rev', False) and not rev_ok):
            raise Unsupported('iterator range over two containers')
        if p1.root != p2.root or [e[:2] for e in p1.elems] != [e[:2] for e in p2.elems]:
            # index atoms may differ by name only when re-evaluated
            if p1.root != p2.root or len(p1.elems) != len(p2.elems):
                raise Unsupported('iterator range over two containers')
        return p1, a1, a2, b1 + b2

    def is_full(self, n1, n2):
        def nm(n):
            n = self.strip(n)
            while n['kind'] == 'CXXConstructExpr' and len(n['inner']) == 1:
                n = self.strip(n['inner'][0])
            if n['kind'] == 'CXXMemberCallExpr':
                return n['inner'][0].get('name')
            if n['kind'] == 'CallExpr':
                return self.strip(n['inner'][0]).get('referencedDecl', {}).get('name')
        return nm(n1) in ('begin', 'cbegin') and nm(n2) in ('end', 'cend')

    def ex_CallExpr(self, n):
        c = self.strip(n['inner'][0])
        args = n['inner'][1:]
        d = self.callee_decl(n)
        if d is not None and d['kind'] in FUNCS:
            return self.call(n, d, None, args)
        if c['kind'] == 'MemberExpr':
            raise Unsupported('static member')
        name = c.get('referencedDecl', {}).get('name')
        if name in self.w.externs:
            return self.call_extern(n, {'name': name}, None, args, self.w.externs[name])
        f = getattr(self, 'std_' + (name or ''), None)
        if f:
            return f(n, args)
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['id'] in self.env:
            raise Unsupported('call through a variable')
        raise Unsupported('call to %s line %s' % (name, self.line(n)))

    def std_swap(self, n, args):
        b1, p1 = self.lv(args[0])
        b2, p2 = self.lv(args[1])
        t1, t2 = self.fresh('s'), self.fresh('s')
        return self.wrap(b1 + b2 + [(t1, p1.read()), (t2, p2.read())], '(%s; %s)' % (p1.write(t2), p2.write(t1)))

    def std_min(self, n, args):
        if not args:
            return self.limit(n, 'min')
        return self.minmax(n, args, 'min')

    def limit(self, n, which):
        t = self.ct(n)      # std::numeric_limits<T>::min() and max()
        if t.kind != 'int' or not t.bits:
            raise Unsupported('numeric limit line %s' % self.line(n))
        if which == 'min':
            return '(-%d)' % 2 ** (t.bits - 1) if t.signed else '0'
        return str(2 ** (t.bits - 1) - 1 if t.signed else 2 ** t.bits - 1)

    def std_max(self, n, args):
        if not args:
            return self.limit(n, 'max')
        return self.minmax(n, args, 'max')

    def std_clamp(self, n, args):
        t = self.ct(n)
        if len(args) != 3 or t.kind not in ('int', 'real'):
            raise Unsupported('clamp line %s' % self.line(n))
        v, lo, hi = [self.ex(a) for a in args]
        return '(%s%sclamp %s %s %s)' % (self.loc(n), 'i' if t.kind == 'int' else 'r', v, lo, hi)

    def minmax(self, n, args, f):
        t = self.ct(n)
        if len(args) == 1:
            def il(x):
                x = self.strip(x)
                while x['kind'] in ('CXXStdInitializerListExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and len(x.get('inner', ())) == 1:
                    x = self.strip(x['inner'][0])
                return x
            l = il(args[0])
            if l['kind'] == 'InitListExpr' and t.kind in ('int', 'real'):
                vals = [self.ex(x) for x in l['inner']]
                e = vals[0]
                for v in vals[1:]:
                    e = '(%s%s %s %s)' % (t.kind[0], f, e, v)
                return e
        return '(%s%s %s %s)' % ({'int': 'i', 'real': 'r'}[t.kind], f, self.ex(args[0]), self.ex(args[1]))

    def std_abs(self, n, args):
        t = self.ct(n)
        return '(%s %s)' % ({'int': 'iabs', 'real': 'rabs'}[t.kind], self.ex(args[0]))

    std_fabs = std_abs

    def std_move(self, n, args):
        return self.ex(args[0])

    std_forward = std_move

    def quant(self, n, args, fmt):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        lam = self.lambda_of(args[2])
        kv = self.fresh('k')
        body = self.lambda_term(lam, ['%s[%s]' % (p.term(), kv)])
        return self.wrap(bs, '(any bool ensures { result <-> %s })' % fmt.format(
            k=kv, r='%s <= %s < %s' % (lo, kv, hi), b=body))

    def std_all_of(self, n, args):
        return self.quant(n, args, '(forall {k}:int. {r} -> {b})')

    def std_any_of(self, n, args):
        return self.quant(n, args, '(exists {k}:int. {r} /\\ {b})')

    def std_none_of(self, n, args):
        return self.quant(n, args, '(forall {k}:int. {r} -> not {b})')

    def std_accumulate(self, n, args):
        if len(args) != 3:
            raise Unsupported('accumulate with operation')
        p, lo, hi, bs = self.same_range(args[0], args[1])
        t = self.ct(n)
        f = {'int': 'vsum', 'real': 'rvsum'}[t.kind]
        if t.kind == 'real':
            raise Unsupported('accumulate on doubles')
        return self.wrap(bs, '(%s %s %s %s + %s)' % (f, p.read(), lo, hi, self.ex(args[2])))

    def std_count(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        return self.wrap(bs, '(vcount %s %s %s %s)' % (p.read(), self.ex(args[2]), lo, hi))

    def std_fill(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        v = self.ex(args[2])
        et = p.ctype.args[0]
        if et.kind == 'real' and re.match(r'^\d+$', v):
            v += '.0'
        return self.wrap(bs, p.write('(vfill %s %s %s %s)' % (p.read(), lo, hi, v)))

    def std_iota(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        return self.wrap(bs, p.write('(viota %s %s %s %s)' % (p.read(), lo, hi, self.ex(args[2]))))

    def std_reverse(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        return self.wrap(bs, p.write('(vreverse %s %s %s)' % (p.read(), lo, hi)))

    def std_shuffle(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        return self.wrap(bs, p.write('(vshuffle %s %s %s)' % (p.read(), lo, hi)))

    def std_copy(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        q, to, b2 = self.iter_of(args[2])
        return self.wrap(bs + b2, q.write('(%svcopy %s %s %s %s %s)' % (self.loc(n), q.read(), to, p.read(), lo, hi)))

    def std_transform(self, n, args):
        if len(args) != 4:
            raise Unsupported('transform of two ranges')
        p, lo, hi, bs = self.same_range(args[0], args[1])
        q, to, b2 = self.iter_of(args[2])
        lam = self.lambda_of(args[3])
        k, d = self.fresh('k'), self.fresh('d')
        body = self.lambda_term(lam, ['%s[%s + %s - %s]' % (p.term(), lo, k, to)])
        if q.ctype.args[0].kind == 'bool' or self.wtype(q.ctype.args[0]) != self.wtype(p.ctype.args[0]):
            raise Unsupported('transform to another type')
        e = '(let %s = %s in assert { [@expl:valid iterator range] 0 <= %s <= %s <= length %s /\\ 0 <= %s /\\ %s + (%s - %s) <= length %s }; ' % (
            d, q.read(), lo, hi, p.term(), to, to, hi, lo, d)
        r = self.fresh('r')
        e += 'let %s = any %s in assume { length %s = length %s /\\ forall %s:int. 0 <= %s < length %s -> %s[%s] = (if %s <= %s < %s + (%s - %s) then %s else %s[%s]) }; %s)' % (
            r, self.wtype(q.ctype), r, d, k, k, d, r, k, to, k, to, hi, lo, body, d, k, r)
        return self.wrap(bs + b2, q.write(e))

    def std_copy_n(self, n, args):
        p, lo, bs = self.iter_of(args[0])
        k = self.ex(args[1])
        q, to, b2 = self.iter_of(args[2])
        return self.wrap(bs + b2, q.write('(%svcopy %s %s %s %s (%s + %s))' % (self.loc(n), q.read(), to, p.read(), lo, lo, k)))

    def std_copy_backward(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        q, to, b2 = self.iter_of(args[2])
        return self.wrap(bs + b2, q.write('(%svcopy %s (%s - (%s - %s)) %s %s %s)' % (self.loc(n), q.read(), to, hi, lo, p.read(), lo, hi)))

    def std_sort(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        a, b, s, o = self.fresh('k'), self.fresh('k'), self.fresh('srt'), self.fresh('o')
        if len(args) == 2:
            if p.ctype.args[0].kind not in ('int', 'real'):
                raise Unsupported('sort')
            notgt = '(%s[%s] %s %s[%s])' % ('result', a, '<=' if p.ctype.args[0].kind == 'int' else '<=.', 'result', b)
        else:
            lam = self.lambda_of(args[2])
            # sorted: no later element compares strictly before an earlier one
            notgt = '(not %s)' % self.lambda_term(lam, ['result[%s]' % b, 'result[%s]' % a])
        return self.wrap(bs + [(o, p.read())], p.write(
            '(let result = vsorted_somehow %s %s %s in assume { forall %s %s:int. %s <= %s <= %s < %s -> %s }; result)'
            % (o, lo, hi, a, b, lo, a, b, hi, notgt)))

    std_stable_sort = std_sort

    def std_partial_sort(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[2])
        _, _, mid, bs2 = self.same_range(args[0], args[1])
        a, b, o = self.fresh('k'), self.fresh('k'), self.fresh('o')
        if len(args) == 3:
            if p.ctype.args[0].kind != 'int':
                raise Unsupported('partial_sort')
            notgt = '(%s[%s] <= %s[%s])' % ('result', a, 'result', b)
        else:
            lam = self.lambda_of(args[3])
            notgt = '(not %s)' % self.lambda_term(lam, ['result[%s]' % b, 'result[%s]' % a])
        return self.wrap(bs + bs2 + [(o, p.read())], p.write(
            '(let result = vpartially_sorted_somehow %s %s %s %s in assume { forall %s %s:int. %s <= %s <= %s < %s -> %s < %s -> %s }; result)'
            % (o, lo, mid, hi, a, b, lo, a, b, hi, a, mid, notgt)))

    def std_is_sorted(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        if len(args) != 2 or p.ctype.args[0].kind != 'int':
            raise Unsupported('is_sorted')
        return self.wrap(bs, '(vis_sorted %s %s %s)' % (p.read(), lo, hi))

    def std_generate(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        lam = self.lambda_of(args[2])
        body = [x for x in lam['inner'] if x['kind'] == 'CompoundStmt'][0]
        if len(body['inner']) != 1 or body['inner'][0]['kind'] != 'ReturnStmt':
            raise Unsupported('generate')
        # lowered to a loop
        el = body['inner'][0]['inner'][0]

        def mk(idx):
            q = p.ext(('i', idx, ''), p.ctype.args[0])
            e = self.ex(el)
            if self.ct(el).kind == 'bool' and p.ctype.args[0].kind == 'int':
                e = '(b2i %s)' % e
            elif self.ct(el).kind == 'int' and p.ctype.args[0].kind == 'real':
                e = '(i2r %s)' % e
            elif self.ct(el).kind != p.ctype.args[0].kind:
                raise Unsupported('generate: conversion')
            return q.write(e)
        return self.wrap(bs, self.counted_loop(n, lo, hi, mk))

    def std_for_each(self, n, args):
        p, lo, hi, bs = self.same_range(args[0], args[1])
        lam = self.lambda_of(args[2])
        ps = [x for x in lam['inner'] if x['kind'] == 'ParmVarDecl']
        body = [x for x in lam['inner'] if x['kind'] == 'CompoundStmt'][0]

        def mk(idx):
            q = p.ext(('i', idx, ''), p.ctype.args[0])
            self.env[ps[0]['id']] = ('alias', q)
            return self.stmts(body['inner'])
        return self.wrap(bs, self.counted_loop(n, lo, hi, mk))

    # ---------------------------------------------------------- member calls
    def ex_CXXMemberCallExpr(self, n):
        me = self.strip(n['inner'][0])
        args = n['inner'][1:]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through %s' % me['kind'])
        name = me.get('name')
        obj = me['inner'][0]
        so = self.strip(obj)
        ot = self.ct(so)
        while ot.kind == 'ptr':
            ot = ot.args[0]
        if name == 'operator bool':
            return self.ex(so)
        if ot.kind in ('vec', 'str'):
            return self.vec_method(n, name, obj, args, ot)
        if ot.kind == 'set':
            return self.set_method(n, name, obj, args, ot)
        if ot.kind == 'map':
            return self.map_method(n, name, obj, args, ot)
        d = self.callee_decl(n)
        if d is not None:
            return self.call(n, d, me, args)
        if ot.kind == 'class' and ot.name in self.w.opaque and '%s::%s' % (ot.name, name) in self.w.externs:
            return self.call_extern(n, {'name': name}, me, args, self.w.externs['%s::%s' % (ot.name, name)])
        raise Unsupported('method %s on %r line %s' % (name, ot, self.line(n)))

    def vec_method(self, n, name, obj, args, ot):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if name in ('size', 'length'):
            return '(vlen %s)' % self.ex(obj)
        if name == 'empty':
            return '(ieq (vlen %s) 0)' % self.ex(obj)
        if name in ('back', 'front', 'at'):
            bs, p = self.lv(n)
            return self.wrap(bs, p.read())
        if name in ('reserve', 'shrink_to_fit'):
            return '()'
        bs, p = self.lv(obj)
        cur = p.read()
        if name in ('push_back', 'emplace_back') and len(args) == 1:
            return self.wrap(bs, p.write('(vsnoc %s %s)' % (cur, self.ex(args[0]))))
        if name == 'pop_back':
            return self.wrap(bs, p.write('(%svpop %s)' % (self.loc(n), cur)))
        if name == 'clear':
            return self.wrap(bs, p.write('empty_seq'))
        if name == 'resize':
            el = ot.args[0]
            v = self.ex(args[1]) if len(args) > 1 else self.default(el)
            return self.wrap(bs, p.write('(%svresize %s %s %s)' % (self.loc(n), cur, self.ex_index(args[0]), v)))
        if name == 'assign' and len(args) == 2 and self.ct(args[0]).kind == 'int':
            return self.wrap(bs, p.write('(%smake_seq %s %s)' % (self.loc(n), self.ex_index(args[0]), self.ex(args[1]))))
        if name == 'swap':
            return self.std_swap(n, [obj, args[0]])
        if name == 'fill':
            return self.wrap(bs, p.write('(let o = %s in vfill o 0 (vlen o) %s)' % (cur, self.ex(args[0]))))
        raise Unsupported('vector::%s line %s' % (name, self.line(n)))

    def set_method(self, n, name, obj, args, ot):
        if name == 'size':
            return '(vlen %s)' % self.ex(obj)
        if name == 'empty':
            return '(ieq (vlen %s) 0)' % self.ex(obj)
        if name in ('count', 'contains'):
            r = '(set_has %s %s)' % (self.ex(obj), self.ex(args[0]))
            return '(b2i %s)' % r if name == 'count' else r
        bs, p = self.lv(obj)
        if name == 'clear':
            return self.wrap(bs, p.write('empty_seq'))
        if name in ('insert', 'emplace', 'erase') and len(args) == 1 and self.ct(self.strip(args[0])).kind == ot.args[0].kind:
            return self.wrap(bs, p.write('(set_%s %s %s)' % ('erase' if name == 'erase' else 'insert', p.read(), self.ex(args[0]))))
        raise Unsupported('set::%s' % name)

    def ex_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        args = n['inner'][1:]
        if op == 'operator[]':
            try:
                bs, p = self.lv(n)
                return self.wrap(bs, p.read())
            except Unsupported:
                return '(%svget %s %s)' % (self.loc(n), self.ex(args[0]), self.ex_index(args[1]))
        if op == 'operator=':
            v = self.strip(args[0])
            b = self.env.get(v['referencedDecl']['id']) if v['kind'] == 'DeclRefExpr' else None
            if b and b[0] == 'iter':
                p, a, bs = self.iter_of(args[1])
                if p.root != b[1].root:
                    raise Unsupported('iterator moved to another container')
                return self.wrap(bs, '(%s <- %s)' % (b[2], a))
            return self.assign(n, args[0], args[1])
        if op == 'operator*':
            bs, p = self.lv(n)
            return self.wrap(bs, p.read())
        if op == 'operator()':
            t = self.ct(self.strip(args[0]))
            return self.functor_call(n, t, args)
        if op in ('operator++', 'operator--') and self.is_iter(args[0]):
            v = self.strip(args[0])
            b = self.env.get(v['referencedDecl']['id']) if v['kind'] == 'DeclRefExpr' else None
            if b and b[0] == 'iter':
                return '(%s <- %s %s 1)' % (b[2], b[2], op[-1])
        if op in ('operator+=', 'operator-=') and self.is_iter(args[0]):
            v = self.strip(args[0])
            b = self.env.get(v['referencedDecl']['id']) if v['kind'] == 'DeclRefExpr' else None
            if b and b[0] == 'iter':
                return '(%s <- %s %s %s)' % (b[2], b[2], op[-2], self.ex(args[1]))
        if op in ('operator==', 'operator!='):
            t = self.ct(self.strip(args[0]))
            r = None
            for x, y in ((args[0], args[1]), (args[1], args[0])):
                e = self.map_call(y, ('end', 'cend'))
                if e is None:
                    continue
                b = self.mapit(x)
                if b is not None:
                    r = b[3]
                f = self.map_call(x, ('find',))
                if f is not None:
                    r = '(mmem %s %s)' % (self.ex(f[0]), self.ex(f[2][0]))
            if r is None:
                r = self.found(args)
            if r is not None:
                return r if op == 'operator!=' else '(not %s)' % r
        if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator-') and len(args) == 2 \
                and self.is_iter(args[0]) and self.is_iter(args[1]):
            p, a, b, bs = self.same_range(args[0], args[1], True)
            f = '-' if op == 'operator-' else self.ICMP[op[8:]]
            return self.wrap(bs, '(%s - %s)' % (a, b) if f == '-' else '(%s %s %s)' % (f, a, b))
        if op in ('operator==', 'operator!='):
            t = self.ct(self.strip(args[0]))
            if t.kind in ('vec', 'str'):
                r = '(veq %s %s)' % tuple(self.ex(a) for a in args)
                return r if op == 'operator==' else '(not %s)' % r
            if t.kind == 'pair':
                r = '(any bool ensures { result <-> %s = %s })' % tuple(self.as_term(a) for a in args)
                return r if op == 'operator==' else '(not %s)' % r
        if op == 'operator<<' and self.is_output(n):
            self.dropped.append('output statement line %s' % self.line(n))
            return '()'
        d = self.callee_decl(n)
        if d is not None and d.get('kind') == 'CXXMethodDecl' and self.body_of(d) is not None:
            return self.call(n, d, {'kind': 'MemberExpr', 'inner': [args[0]]}, args[1:])
        raise Unsupported('%s line %s' % (op, self.line(n)))

    def found(self, args):
        """find(b, e, v) compared with e: is v in the range?"""
        for x, y in ((args[0], args[1]), (args[1], args[0])):
            x = self.strip(x)
            while x['kind'] in ('CXXConstructExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr') and len(x.get('inner', ())) == 1:
                x = self.strip(x['inner'][0])
            if x['kind'] != 'CallExpr' or len(x['inner']) != 4:
                continue
            c = self.strip(x['inner'][0])
            if c.get('referencedDecl', {}).get('name') != 'find':
                continue
            p, lo, hi, bs = self.same_range(x['inner'][1], x['inner'][2])
            q, e, b2 = self.iter_of(y)
            if q.read() != p.read():
                raise Unsupported('find compared with another container')
            if p.ctype.args[0].kind != 'int':
                raise Unsupported('find')
            return self.wrap(bs + b2, '(vmem %s %s %s %s %s)' % (p.read(), self.ex(x['inner'][3]), lo, hi, e))
        return None

    def is_output(self, n):
        t = n.get('type', {}).get('qualType', '')
        return 'ostream' in t or '__ostream_type' in t

    def real_arg(self, a):
        e = self.ex(a)
        return '(i2r %s)' % e if self.ct(a).kind == 'int' else e

    def std_norm(self, n, args):
        if self.ct(self.strip(args[0])).kind != 'pair':
            raise Unsupported('norm line %s' % self.line(n))
        z = self.fresh('z')
        return '(let %s = %s in %s.pfst *. %s.pfst +. %s.psnd *. %s.psnd)' % (z, self.ex(args[0]), z, z, z, z)

    def std_fabs(self, n, args):
        return '(rabs %s)' % self.real_arg(args[0])

    def std_sqrt(self, n, args):
        return '(%srsqrt %s)' % (self.loc(n), self.real_arg(args[0]))

    def std_pow(self, n, args):
        return '(%srpow %s %s)' % (self.loc(n), self.real_arg(args[0]), self.real_arg(args[1]))

    def std_floor(self, n, args):
        return '(rfloor %s)' % self.real_arg(args[0])

    def std_ceil(self, n, args):
        return '(rceil %s)' % self.real_arg(args[0])

    def std_trunc(self, n, args):
        return '(rtrunc %s)' % self.real_arg(args[0])

    def std_round(self, n, args):
        return '(rround %s)' % self.real_arg(args[0])

    def std_exp(self, n, args):
        return '(rexp %s)' % self.ex(args[0])

    def std_log(self, n, args):
        return '(%srlog %s)' % (self.loc(n), self.ex(args[0]))

    def std_isnan(self, n, args):
        return '(let _ = %s in false)' % self.ex(args[0])

    def as_term(self, n):
        return self.tm(n)

    def functor_call(self, n, t, args):
        k = dist_kind(t) if t.kind == 'class' else None
        if k:
            return '(%sdraw_%s %s)' % (self.loc(n), k, self.ex(args[0]))
        so = self.strip(args[0])
        if so['kind'] == 'DeclRefExpr' and self.env.get(so['referencedDecl']['id'], ('',))[0] == 'lambda':
            return self.call_lambda(n, self.env[so['referencedDecl']['id']][1], args[1:])
        if so['kind'] == 'MemberExpr' and so.get('name') in self.w.externs:
            return self.call_extern(n, {'name': so['name']}, None, args[1:], self.w.externs[so['name']])
        m = re.match(r'^(?:std::)?(greater|less|greater_equal|less_equal|equal_to|not_equal_to)<', t.name or '')
        if m and len(args) == 3:
            op = {'greater': '>', 'less': '<', 'greater_equal': '>=', 'less_equal': '<=', 'equal_to': '==', 'not_equal_to': '!='}[m.group(1)]
            ta = self.ct(args[1])
            if ta.kind in ('real', 'int'):
                return '(%s %s %s)' % ((self.RCMP if ta.kind == 'real' else self.ICMP)[op], self.ex(args[1]), self.ex(args[2]))
        d = self.callee_decl(n)
        if d is not None and d.get('kind') == 'CXXMethodDecl':
            return self.call(n, d, {'kind': 'MemberExpr', 'inner': [args[0]]}, args[1:])
        raise Unsupported('call operator of %s line %s' % (t.name, self.line(n)))

    def call_lambda(self, n, c, args):
        ps = [x for x in c['inner'] if x['kind'] == 'ParmVarDecl']
        body = [x for x in c['inner'] if x['kind'] == 'CompoundStmt'][0]
        binds = []
        for p, a in zip(ps, args):
            t = parse_type(p['type'].get('desugaredQualType') or p['type']['qualType'], self.al)
            if t.ref and self.is_lvalue(a):
                bs, q = self.lv(a)
                binds += bs
                self.env[p['id']] = ('alias', q)
                continue
            nm = self.fresh(wname(p.get('name', 'p')))
            binds.append((nm, self.ex(a)))
            if mutated(c, p['id']):
                binds.append(('@ref', nm))
            self.env[p['id']] = ('var', nm, t)
        return self.inline_body(n, body, self.ret_type(c), binds)

    def inline_body(self, n, body, rt, binds):
        st = body.get('inner', [])
        if len(st) == 1 and st[0]['kind'] == 'ReturnStmt' and st[0].get('inner'):
            return self.wrap_mut(binds, self.ex(st[0]['inner'][0]))
        exn = self.fresh('Ret')
        self.rets.append((exn, rt))
        self.scope.append({})
        saved_loops, self.loops = self.loops, []
        try:
            b = self.stmts(st)
        finally:
            self.scope.pop()
            self.rets.pop()
            self.loops = saved_loops
        if rt.kind == 'void':
            if exn not in b:
                return self.wrap_mut(binds, '(%s)' % b)
            return self.wrap_mut(binds, '(exception %s in try (%s) with %s -> () end)' % (exn, b, exn))
        return self.wrap_mut(binds, '(exception %s %s in try (%s) with %s v__ -> v__ end)' % (exn, self.wtype(rt), b, exn))

    # ---------------------------------------------------------- calls to hnco functions
    def bind_params(self, d, args):
        """Bind parameters of an inlined function; returns let-bindings."""
        ps = self.params_of(d)
        out = []
        for p, a in zip(ps, args):
            t = parse_type(p['type'].get('desugaredQualType') or p['type']['qualType'], self.al)
            if a['kind'] == 'CXXDefaultArgExpr' and not a.get('inner'):
                raise Unsupported('default argument')
            if t.kind in ('str',) and not self.used_in_body(d, p):
                self.env[p['id']] = ('value', 'empty_seq')
                continue
            if t.ref and self.is_lvalue(a):
                try:
                    bs, q = self.lv(a)
                    out += bs
                    self.env[p['id']] = ('alias', q)
                    continue
                except Unsupported:
                    if not t.const:
                        raise
            elif t.ref and not t.const:
                raise Unsupported('non-const reference to an rvalue')
            nm = self.fresh(wname(p.get('name', 'p')))
            out.append((nm, self.ex(a)))
            if self.param_mutated(d, p):
                out.append(('@ref', nm))
                self.env[p['id']] = ('var', nm, t)
            else:
                self.env[p['id']] = ('value', nm)
                # a value may be subscripted
                self.env[p['id']] = ('var', nm, t)
        return out

    def used_in_body(self, d, p):
        f = self.tu.funcs.get(d.get('mangledName'), d)
        found = []

        def walk(n):
            if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('id') == p['id']:
                found.append(1)
            if n.get('kind') == 'CXXThrowExpr':
                return
            for c in n.get('inner', ()):
                walk(c)
        walk(f)
        return bool(found)

    def param_mutated(self, d, p):
        f = self.tu.funcs.get(d.get('mangledName'), d)
        return mutated(f, p['id'])

    def wrap_mut(self, binds, e):
        out = e
        items = list(binds)
        i = len(items) - 1
        muts = set(v for n, v in items if n == '@ref')
        for n, v in reversed(items):
            if n == '@ref':
                continue
            if n in muts:
                out = '(let ref %s = %s in %s)' % (n, v, out)
            else:
                out = '(let %s = %s in %s)' % (n, v, out)
        return out

    def bind_this(self, me):
        obj = self.strip(me['inner'][0])
        if obj['kind'] == 'CXXThisExpr':
            self.this_stack = self.this_stack + ([self.this_stack[-1]] if self.this_stack else [None])
            if self.this_stack[-1] is None:
                self.this_stack = self.this_stack[:-1]
                self.this_marks.append(False)
            else:
                self.this_marks.append(True)
            return []
        bs, p = self.lv(obj)
        self.this_stack = self.this_stack + [p]
        self.this_marks.append(True)
        return bs

    def unbind_this(self):
        if self.this_marks.pop():
            self.this_stack = self.this_stack[:-1]

    this_marks = []

    switches = []

    def call(self, n, d, me, args):
        m = d.get('mangledName')
        if d.get('name') == 'fail_with':
            return '(raise Throw)' if 'Throw' in self.raises else '(%sabsurd)' % self.loc(n)
        ext = self.w.externs.get(self.qual(d))
        if ext is not None:
            return self.call_extern(n, d, me, args, ext)
        c = self.w.contracts.get(m)
        if c is not None and m != 'none':
            return self.call_contract(n, d, me, args, c)
        body = self.body_of(d)
        if body is None:
            raise Unsupported('no body and no contract: %s line %s' % (d.get('name'), self.line(n)))
        if m in self.inline_stack or len(self.inline_stack) > 8:
            raise Unsupported('recursive %s' % d.get('name'))
        self.inlined.add(m)
        self.inline_stack.append(m)
        pb = self.bind_params(d, args)
        binds = (self.bind_this(me) if me is not None else []) + pb
        try:
            rt = self.ret_type(d)
            return self.inline_body(n, body, rt, binds)
        finally:
            self.inline_stack.pop()
            if me is not None:
                self.unbind_this()

    def qual(self, d):
        cls = self.tu.parent.get(d['id'])
        return (cls.get('name') + '::' if cls else '') + d.get('name', '')

    def ret_type(self, d):
        q = d['type'].get('desugaredQualType') or d['type']['qualType']
        i = q.index('(')
        # function type "R (args)"; R may itself contain parentheses only for lambdas
        r = q[:i].strip()
        if r == 'auto':
            raise Unsupported('auto return')
        return parse_type(r, self.scoped(d))

    def scoped(self, d):
        """type aliases seen from a member function: those of its class come first"""
        own = {c['name']: c['type'].get('desugaredQualType') or c['type']['qualType']
               for c in (self.tu.parent.get(d.get('id')) or {}).get('inner', ()) if c.get('kind') in ('TypeAliasDecl', 'TypedefDecl')}
        return dict(self.al, **own) if own else self.al

    def call_extern(self, n, d, me, args, ext):
        """ext: WhyML template with {0} {1}.. for arguments and {o} for the object."""
        m = re.match(r'\{(\d+)\} := (.*)$', ext, re.S)
        if m:       # a result delivered through a reference argument
            bs, q = self.lv(args[int(m.group(1))])
            return self.wrap_mut(bs, q.write(self.call_extern(n, d, me, [x for i, x in enumerate(args) if i != int(m.group(1))], m.group(2))))
        a = [self.ex(x) for x in args]
        o = ''
        if '{o}' in ext and me is not None:
            o = self.ex(me['inner'][0])
        e = '(%s%s)' % (self.loc(n), ext.format(*a, o=o))
        if self.parallel and me is not None:
            e = self.owned(n, me, e)
        return e

    def reference_members(self, obj, cls):
        """Reference members of the member object obj that every constructor of the enclosing class binds to
        another member of the enclosing object: name -> variable of that member."""
        if obj['kind'] == 'DeclRefExpr':
            b = self.env.get(obj['referencedDecl']['id'])
            return self.obj_refs.get(b[1], {}) if b and b[0] == 'var' else {}
        if obj['kind'] != 'MemberExpr' or self.this_stack or self.strip(obj['inner'][0])['kind'] != 'CXXThisExpr':
            return {}
        encl = self.tu.parent.get(self.decl["id"]) if self.decl else None
        out = None
        for c in (encl or {}).get('inner', ()):
            if c.get('kind') != 'CXXConstructorDecl' or c.get('isImplicit'):
                continue
            ctor = self.tu.funcs.get(c.get('mangledName'), c)
            found = {}
            for i in ctor.get('inner', ()):
                if i['kind'] == 'CXXCtorInitializer' and (i.get('anyInit') or {}).get('name') == obj.get('name') and i.get('inner'):
                    x = self.strip(i['inner'][0])
                    while x['kind'] == 'ExprWithCleanups':
                        x = self.strip(x['inner'][0])
                    if x['kind'] == 'CXXConstructExpr':
                        args = [self.strip(a) for a in x.get('inner', ())]
                        vals = [a.get('name') if a['kind'] == 'MemberExpr' and self.strip(a['inner'][0])['kind'] == 'CXXThisExpr' else None for a in args]
                        found = self.ctor_refs(cls, x['ctorType']['qualType'], vals)
            out = found if out is None else {k: v for k, v in out.items() if found.get(k) == v}
        return {k: Path(self.this_fields[v][0], (), self.this_fields[v][1]) for k, v in (out or {}).items() if v in self.this_fields}

    def bind_references(self, d, t, init, nm):
        """a local object: its reference members stand for the variables its constructor binds them to"""
        if t.kind != 'class' or self.w.record(self.tu, t.name) is None:
            return
        cls = self.tu.find_record(t.name)
        want = self.reference_fields(cls)
        if not want:
            return
        x = self.strip(init) if init is not None else {}
        while x.get('kind') == 'ExprWithCleanups':
            x = self.strip(x['inner'][0])
        if x.get('kind') != 'CXXConstructExpr':
            raise Unsupported('reference members of %s line %s' % (d['name'], self.line(d)))
        self.obj_refs[nm] = self.resolve_references(cls, x)

    def resolve_references(self, cls, x):
        want = self.reference_fields(cls)
        vals = []
        for a in x.get('inner', ()):
            q = None
            if self.is_lvalue(a):
                bs, q = self.lv(a)
                if bs or any(e[0] != 'f' for e in q.elems):
                    q = None
            vals.append(q)
        found = self.ctor_refs(cls, x['ctorType']['qualType'], vals)
        if not want <= set(found):
            raise Unsupported('reference members of %s line %s' % (cls.get('name'), self.line(x)))
        return found

    def reference_fields(self, cls):
        out = set()
        for c in (cls or {}).get('inner', ()):
            if c.get('kind') == 'FieldDecl' and c['type']['qualType'].rstrip().endswith('&'):
                out.add(c['name'])
        for b in (cls or {}).get('bases', ()):
            out |= self.reference_fields(self.tu.find_record(b['type'].get('desugaredQualType') or b['type']['qualType']))
        return out

    def ctor_refs(self, cls, ctype, vals):
        out = {}
        for c in cls.get('inner', ()):
            if c.get('kind') == 'CXXConstructorDecl' and c['type']['qualType'] == ctype:
                ctor = self.tu.funcs.get(c.get('mangledName'), c)
                bind = {p['id']: v for p, v in zip(self.params_of(ctor), vals) if v}
                for i in ctor.get('inner', ()):
                    if i['kind'] != 'CXXCtorInitializer' or not i.get('inner'):
                        continue
                    x = self.strip(i['inner'][0])
                    if i.get('baseInit') and x['kind'] == 'CXXConstructExpr':
                        b = self.tu.find_record(i['baseInit'].get('desugaredQualType') or i['baseInit']['qualType'])
                        vs = [bind.get(self.strip(a).get('referencedDecl', {}).get('id')) for a in x.get('inner', ())]
                        if b is not None:
                            out.update(self.ctor_refs(b, x['ctorType']['qualType'], vs))
                    elif (i.get('anyInit') or {}).get('type', {}).get('qualType', '').rstrip().endswith('&'):
                        v = bind.get(x.get('referencedDecl', {}).get('id'))
                        if v:
                            out[i['anyInit']['name']] = v
        return out

    def call_contract(self, n, d, me, args, c):
        m = d['mangledName']
        self.callees[m] = d
        ps = self.params_of(d)
        binds, post, actual = [], [], []
        roots = []     # (path, mutable)
        if me is not None:
            cls = self.tu.parent.get(d['id'])
            const = d['type']['qualType'].rstrip().endswith('const')
            obj = self.strip(me['inner'][0])
            rec = self.w.record(self.tu, cls.get('name'))
            if obj['kind'] == 'CXXThisExpr' and not self.this_stack:
                for f in self.w.method_fields(self.tu, cls, c):
                    if f not in self.this_fields:
                        raise Unsupported('field %s not available' % f)
                    nm = self.this_fields[f][0]
                    actual.append(nm if const else '&' + nm)
            else:
                fs = self.w.method_fields(self.tu, cls, c)
                refs = self.reference_members(obj, cls)
                own = [f for f in fs if f not in refs]
                if obj['kind'] == 'CXXThisExpr':
                    bs, p = [], self.this_stack[-1]
                elif own:
                    bs, p = self.lv(obj)
                else:
                    bs, p = [], Path('@none', (), CType('void'))
                binds += bs
                newrec = []
                srec = self.w.record(self.tu, p.ctype.name) if p.ctype is not None and p.ctype.kind == 'class' else None
                if srec is not None and all(f in srec.fields for f in fs):
                    rec = srec
                for f in fs:
                    if f in refs:
                        q = refs[f]
                        if not q.elems:
                            actual.append(q.root if const else '&' + q.root)
                        else:
                            t = self.fresh('o')
                            binds.append((t, q.read()))
                            if not const:
                                binds.append(('@ref', t))
                                post.append(q.write(t))
                            actual.append(t if const else '&' + t)
                        continue
                    fn, ft = rec.fields[f]
                    q = p.ext(('f', fn), ft)
                    t = self.fresh('o')
                    binds.append((t, q.read()))
                    if not const:
                        binds.append(('@ref', t))
                        newrec.append('%s = %s' % (fn, t))
                    actual.append(t if const else '&' + t)
                if not const and newrec:
                    if set(own) == set(rec.order):
                        post.append(p.write('{ %s }' % '; '.join(newrec)))
                    else:
                        post.append(p.write('{ %s with %s }' % (p.read(), '; '.join(newrec))))
        for p, a in zip(ps, args):
            t = parse_type(p['type'].get('desugaredQualType') or p['type']['qualType'], self.al)
            if t.ref and not t.const and t.kind != 'ptr':
                bs, q = self.lv(a)
                binds += bs
                roots.append((q, True))
                if not q.elems:
                    actual.append('&' + q.root)
                else:
                    tmp = self.fresh('o')
                    binds.append((tmp, q.read()))
                    binds.append(('@ref', tmp))
                    actual.append('&' + tmp)
                    post.append(q.write(tmp))
            else:
                if t.ref and self.is_lvalue(a):
                    try:
                        b2, q2 = self.lv(a)
                        binds += b2
                        tmp = self.fresh('a')
                        binds.append((tmp, q2.read()))
                        roots.append((q2, False))
                        actual.append(tmp)
                        continue
                    except Unsupported:
                        pass
                tmp = self.fresh('a')
                binds.append((tmp, self.ex(a)))
                actual.append(tmp)
        # separation: a modified argument must not overlap another one
        seps = []
        for i, (q, mu) in enumerate(roots):
            for j, (r, mv) in enumerate(roots):
                if i < j and (mu or mv) and q.root == r.root:
                    ds = []
                    comparable = True
                    for e, f in zip(q.elems, r.elems):
                        if e[0] == 'i' and f[0] == 'i':
                            if e[1] != f[1]:
                                ds.append('%s <> %s' % (e[1], f[1]))
                        elif e[1] != f[1]:
                            comparable = False
                    if comparable:
                        seps.append(' \\/ '.join(ds) if ds else 'false')
        fn = self.w.fname(m)
        call = '(%s%s %s)' % (self.loc(n), fn, ' '.join(actual) if actual else '()')
        if post:
            r = self.fresh('r')
            call = '(let %s = %s in %s; %s)' % (r, call, '; '.join(post), r)
        for s in seps:
            call = '(assert { [@expl:arguments do not overlap] %s }; %s)' % (s, call)
        return self.wrap_mut(binds, call)

    # ---------------------------------------------------------- statements
    def stmts(self, lst):
        """Compile a list of statements to one expression of type unit (or diverging)."""
        if not lst:
            return '()'
        s = lst[0]
        rest = lst[1:]
        k = s['kind']
        if k == 'DeclStmt':
            return self.declstmt(s, rest)
        if k == 'NullStmt':
            return self.stmts(rest)
        e = self.st(s)
        if k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt'):
            return e
        if e == '()':
            return self.stmts(rest)
        if not rest:
            return e
        return '%s;\n%s' % (e, self.stmts(rest))

    def declstmt(self, s, rest):
        decls = s.get('inner', [])

        def go(i):
            if i == len(decls):
                return self.stmts(rest)
            d = decls[i]
            k = d['kind']
            if k in ('TypeAliasDecl', 'TypedefDecl'):
                self.al.setdefault(d['name'], d['type'].get('desugaredQualType') or d['type']['qualType'])
                return go(i + 1)
            if k in ('StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
                return go(i + 1)
            if k != 'VarDecl':
                raise Unsupported('declaration %s line %s' % (k, self.line(d)))
            t = parse_type(d['type'].get('desugaredQualType') or d['type']['qualType'], self.al)
            init = [c for c in d.get('inner', ()) if c['kind'] not in ('FullComment',)]
            init = init[0] if init else None
            if t.kind == 'class' and 'basic_ostringstream' in t.name:
                return go(i + 1)        # only text goes there
            if init is not None:
                si = self.strip(init)
                while si['kind'] == 'CXXConstructExpr' and len(si.get('inner', ())) == 1 and \
                        self.strip(si['inner'][0])['kind'] == 'LambdaExpr':
                    si = self.strip(si['inner'][0])
                if si['kind'] == 'LambdaExpr':
                    self.env[d['id']] = ('lambda', self.tu.lambda_call(si))
                    return go(i + 1)
                mf = self.map_call(init, ('find',))
                if mf is not None:
                    bs, p = self.lv(mf[0])
                    key, found = self.fresh('key'), self.fresh('found')
                    self.env[d['id']] = ('mapit', p, key, found)
                    return self.wrap(bs, '(let %s = %s in let %s = mmem %s %s in\n%s)' % (key, self.ex(mf[2][0]), found, p.read(), key, go(i + 1)))
                if t.kind == 'iter' or (t.kind == 'class' and 'iterator' in t.name):
                    p, a, bs = self.iter_of(init)
                    nm = self.declare(d['name'], CType('int'))
                    self.env[d['id']] = ('iter', p, nm)
                    return self.wrap(bs, '(let ref %s = %s in\n%s%s)' % (nm, a, self.ghost('decl ' + nm), go(i + 1)))
                if t.ref and self.is_lvalue(init):
                    try:
                        bs, p = self.lv(init)
                    except Unsupported:
                        if not t.const:
                            raise
                        p = None
                    if p is not None:
                        self.env[d['id']] = ('alias', p)
                        return self.wrap_mut(bs, '(%s)' % go(i + 1)) if bs else go(i + 1)
            if init is None:
                e = '(any %s)' % self.wtype(t)
            else:
                e = self.ex(init)
            self.wtype(t)
            nm = self.declare(d['name'], t)
            self.env[d['id']] = ('var', nm, CType(t.kind, t.args, t.name, signed=t.signed, bits=t.bits))
            self.bind_references(d, t, init, nm)
            return '(let ref %s = (%s : %s) in\n%s%s)' % (nm, e, self.wtype(t), self.ghost('decl ' + nm), go(i + 1))
        return go(0)

    def st(self, s):
        k = s['kind']
        f = getattr(self, 'st_' + k, None)
        if f:
            return f(s)
        if self.is_assert(s):
            return self.st_assert(self.strip(s))
        # expression statement
        m = s
        while m['kind'] in ('ExprWithCleanups', 'ParenExpr') or (m['kind'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and m.get('castKind') == 'ToVoid'):
            m = m['inner'][0]
        if m['kind'] == 'UnaryOperator':
            m = dict(m)
            m['@stmt'] = True
        e = self.ex(m)
        t = self.ct(m)
        if m['kind'] in ('CallExpr', 'CXXMemberCallExpr') and t.kind != 'void':
            c = self.callee_decl(m)
            if c is None and e.startswith('('):
                pass
            return 'ignore_value (%s)' % e if not self.unit_like(m, e) else e
        if m['kind'] in ('DeclRefExpr', 'IntegerLiteral', 'CXXBoolLiteralExpr'):
            return '()'
        return e

    def unit_like(self, m, e):
        c = self.strip(m['inner'][0])
        nm = c.get('referencedDecl', {}).get('name') if c['kind'] == 'DeclRefExpr' else c.get('name')
        return nm in ('for_each', 'copy', 'copy_n', 'copy_backward', 'emplace_back', 'generate', 'fill')

    def st_CompoundStmt(self, s):
        self.scope.append({})
        try:
            return '(%s)' % self.stmts(s.get('inner', []))
        finally:
            self.scope.pop()

    def st_NullStmt(self, s):
        return '()'

    def st_assert(self, n):
        m = n
        cond = m['inner'][0]
        b = self.fresh('chk')
        self.in_assert = True
        try:
            e = self.ex(cond)
        finally:
            self.in_assert = False
        return '(let %s = %s in %sassert { [@expl:assertion line %d] %s })' % (b, e, self.loc(n), self.line(n), b)

    def st_IfStmt(self, s):
        inner = list(s['inner'])
        if s.get('hasInit') or s.get('hasVar'):
            raise Unsupported('if with declaration')
        if s.get('isConstexpr'):
            raise Unsupported('if constexpr')
        cond = self.ex(inner[0])
        self.scope.append({})
        th = self.st(inner[1])
        self.scope.pop()
        if len(inner) > 2:
            self.scope.append({})
            el = self.st(inner[2])
            self.scope.pop()
            return '(if %s then (%s) else (%s))' % (cond, th, el)
        return '(if %s then (%s))' % (cond, th)

    def st_ReturnStmt(self, s):
        e = self.ex(s['inner'][0]) if s.get('inner') else '()'
        if self.rets:
            exn, rt = self.rets[-1]
            return '(raise %s)' % exn if rt.kind == 'void' else '(raise %s %s)' % (exn, e)
        ex = self.ghost('exit')
        if ex:
            r = self.fresh('ret')
            return '(let %s = %s in %s return %s)' % (r, e, ex, r)
        return '(return %s)' % e

    def st_BreakStmt(self, s):
        l = self.loops[-1] if self.loops else None
        if self.switches and self.switches[-1][1] == len(self.loops):
            l = self.switches[-1][0]
        l.brk = l.brk or self.fresh('Brk')
        return '(raise %s)' % l.brk

    def st_ContinueStmt(self, s):
        l = self.loops[-1]
        l.cont = l.cont or self.fresh('Cnt')
        return '(raise %s)' % l.cont

    def st_CXXThrowExpr(self, s):
        return self.ex_CXXThrowExpr(s)

    # ---------------------------------------------------------- loops
    def ghost(self, where):
        if not self.spec:
            return ''
        return self.spec.ghost.get(where, '')

    def loop_common(self, n, condf, bodyf, stepf, counter, auto, variant, first='false'):
        """Emit a while loop with invariants.  condf/bodyf/stepf return strings."""
        idx = self.nloop
        self.nloop += 1
        self.loopinfo.append((idx, self.line(n)))
        lp = Loop()
        self.loops.append(lp)
        lab = 'L%d' % idx
        self.counters[idx] = counter or '(0)'
        outer = lambda t: re.sub(r'\$k(\d+)', lambda m: self.counters.get(int(m.group(1)), '(0)'), t)
        cond = condf()
        self.scope.append({})
        body = bodyf()
        self.scope.pop()
        self.loops.pop()
        step = stepf()
        inv = list(auto)
        sp = self.spec.loops.get(idx) if self.spec else None
        if sp:
            for i in sp['inv']:
                inv.append(outer(i).replace('$k', counter or '(0)').replace('$L', lab).replace('$first', first))
            if sp.get('variant'):
                variant = outer(sp['variant']).replace('$k', counter or '(0)')
        def gh(wh):
            return outer(self.ghost('%s %d' % (wh, idx))).replace('$k', counter or '(0)').replace('$L', lab).replace('$B', 'B%d' % idx)
        bb, be, pre, post = gh('begin'), gh('end'), gh('before'), gh('after')
        if lp.cont:
            body = '(exception %s in try (%s) with %s -> () end)' % (lp.cont, body, lp.cont)
        # a body that never completes normally has no step
        w = 'while %s do\n%s%s\n(label B%d in %s%s;%s%s)\ndone' % (
            cond,
            '\n'.join('invariant { %s }' % i for i in inv),
            '\nvariant { %s }' % variant if variant else '',
            idx, bb, body, (' ' + be) if be else '', ' ' + step if step else ' ()')
        w = '(label %s in %s%s' % (lab, pre, w)
        if lp.brk:
            w = '(label %s in %sexception %s in try (%s) with %s -> () end' % (
                lab, pre, lp.brk, w[len('(label %s in %s' % (lab, pre)):], lp.brk)
        if post:
            w += ';\n' + post.rstrip().rstrip(';')
        return w + ')'

    def counted_loop(self, n, lo, hi, mk):
        c = self.fresh('idx')
        self.scope[-1][c] = True
        self.locals.append((c, 'idx'))
        roots, deep = {}, {}
        body_holder = {}

        def bodyf():
            body_holder['b'] = mk(c)
            return body_holder['b']
        auto = ['%s <= %s' % (lo, c), '%s <= %s -> %s <= %s' % (lo, hi, c, hi)]
        w = self.loop_common(n, lambda: '(ilt %s %s)' % (c, hi), bodyf, lambda: '%s <- %s + 1' % (c, c), c,
                             auto + ['@FRAME@'], '%s - %s' % (hi, c))
        w = w.replace('invariant { @FRAME@ }', self.frame_invs(body_holder['b'], w))
        return '(let ref %s = %s in %s)' % (c, lo, w)

    def frame_invs(self, body, w):
        """Lengths are kept by element assignments: derived from the generated code of the loop."""
        lab = re.search(r'label (L\d+) in', w).group(1)
        out = []
        for root in sorted(set(re.findall(r"\((\w+) <- \((?:\[[^\]]*\] )?vset \1 ", body))):
            others = re.findall(r"\(%s <- (\S+ ?\S* ?\S* ?\S* ?\S* ?\S* ?\S*)" % root, body)
            ok = all(re.match(r'\((?:\[[^\]]*\] )?(vset %s|vfill|viota|vreverse|vshuffle)' % root, o) for o in others)
            refs = re.search(r'&%s\b' % root, body)
            # declared inside the loop body?
            if re.search(r'let ref %s =' % root, body) or not ok or refs:
                continue
            out.append('invariant { length %s = length (%s at %s) }' % (root, root, lab))
            t = self.root_type(root)
            if t is not None and t.kind == 'vec' and t.args[0].kind == 'vec':
                deep = all(re.match(r"\((?:\[[^\]]*\] )?vset %s \S+ \((?:\[[^\]]*\] )?vset" % root, o) for o in others)
                if deep:
                    out.append('invariant { forall r__:int. 0 <= r__ < length %s -> length %s[r__] = length (%s at %s)[r__] }' % (root, root, root, lab))
        return '\n'.join(out)

    def root_type(self, root):
        for b in self.env.values():
            if b[0] == 'var' and b[1] == root:
                return b[2]
        for nm, t in self.this_fields.values():
            if nm == root:
                return t
        return None

    def counter_of(self, cond, step, body):
        """(name, lower-bound-ok, bound term) of a counting loop."""
        c = self.strip(cond) if cond is not None else None
        if c is None or c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '!='):
            return None
        l = c['inner'][0]
        while True:
            l = self.strip(l)
            if l['kind'] in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr') and l.get('castKind') == 'IntegralCast':
                l = l['inner'][0]
                continue
            break
        if l['kind'] != 'DeclRefExpr':
            return None
        vid = l['referencedDecl']['id']
        b = self.env.get(vid)
        if not b or b[0] != 'var' or b[2].kind != 'int':
            return None
        muts = mutations(step, vid) if step is not None else []
        mb = mutations(body, vid)
        if any(x != '++' for x in muts + mb):
            return None
        return b[1], c['opcode'], c['inner'][1], len(muts), len(mb)

    def st_ForStmt(self, s):
        init, condvar, cond, step, body = (s['inner'] + [{}] * 5)[:5]
        cond = cond if cond.get('kind') else None
        step = step if step.get('kind') else None
        self.scope.append({})
        try:
            if init.get('kind') == 'DeclStmt':
                return self.declstmt(init, [{'kind': '@Loop', 'cond': cond, 'step': step, 'body': body, '@line': self.line(s), '@file': s.get('@file')}])
            pre = self.st(init) + ';\n' if init.get('kind') else ''
            return '(%s%s)' % (pre, self.loop(s, cond, step, body))
        finally:
            self.scope.pop()

    def st_OMPParallelForDirective(self, s):
        """a parallel loop is translated as a sequential one after a syntactic check that iterations only
        write their own locals and elements indexed by the loop variable: then every schedule gives the same result"""
        cap = [c for c in s['inner'] if c['kind'] == 'CapturedStmt']
        if len(cap) != 1 or len([c for c in s['inner'] if c.get('kind')]) != 1:
            raise Unsupported('OpenMP clauses line %s' % self.line(s))
        dec = [c for c in cap[0]['inner'] if c['kind'] == 'CapturedDecl'][0]
        f = [c for c in dec['inner'] if c.get('kind') == 'ForStmt'][0]
        self.independent(f)
        f = dict(f)
        f['inner'] = list(f['inner'])
        f['inner'][4] = {'kind': 'CompoundStmt', 'inner': [{'kind': 'OmpBegin'}, f['inner'][4]]}
        self.parallel += 1
        try:
            return self.st(f)
        finally:
            self.parallel -= 1

    parallel = 0

    def st_OmpBegin(self, s):
        return 'omp_begin ()'

    def owned(self, n, me, call):
        """inside a parallel loop: an object that is used for a call belongs to the calling thread"""
        x = self.strip(me['inner'][0])
        if x['kind'] == 'CXXOperatorCallExpr' and len(x['inner']) == 3:
            i = self.fresh('i')
            return '(let %s = %s in assert { [@expl:the object used by a thread is the one with its number] %s = omp_id }; %s)' % (i, self.ex_index(x['inner'][2]), i, call)
        raise Unsupported('call on a shared object in a parallel loop line %s' % self.line(n))

    def independent(self, f):
        init, _, cond, step, body = f['inner'][:5]
        if init.get('kind') != 'DeclStmt' or len(init['inner']) != 1:
            raise Unsupported('parallel loop without its own counter line %s' % self.line(f))
        i = init['inner'][0]['id']
        own, shared, elems = set(), [], []

        def base(x):
            x = self.strip(x)
            if x['kind'] == 'MemberExpr':
                return x.get('name')
            if x['kind'] == 'DeclRefExpr':
                return x['referencedDecl']['id']
            return None

        def element(x):
            x = self.strip(x)
            if x['kind'] == 'CXXOperatorCallExpr' and len(x['inner']) == 3:
                j = self.strip(x['inner'][2])
                if j['kind'] == 'DeclRefExpr' and j['referencedDecl']['id'] == i and base(x['inner'][1]) is not None:
                    return x
            return None

        def target(x):
            e = element(x)
            y = self.strip(x)
            if e is not None:
                elems.append(base(e['inner'][1]))
            elif not (y['kind'] == 'DeclRefExpr' and y['referencedDecl']['id'] in own):
                raise Unsupported('a parallel iteration writes shared data line %s' % self.line(x))

        def walk(x):
            k = x.get('kind')
            if k == 'VarDecl':
                own.add(x['id'])
                if '&' in x['type']['qualType'] and 'const' not in x['type']['qualType']:
                    raise Unsupported('reference in a parallel loop line %s' % self.line(x))
            if k == 'BinaryOperator' and x['opcode'] == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
                target(x['inner'][0])
            if k == 'CXXOperatorCallExpr' and x['inner']:
                op = self.strip(x['inner'][0]).get('referencedDecl', {}).get('name', '')
                if op == 'operator=' or op.endswith('=') and op not in ('operator==', 'operator!=', 'operator<=', 'operator>='):
                    target(x['inner'][1])
            if k in ('LambdaExpr', 'CXXDeleteExpr', 'CXXThrowExpr'):
                raise Unsupported('%s in a parallel loop line %s' % (k, self.line(x)))
            if k in ('CallExpr', 'CXXMemberCallExpr'):
                for a in x['inner'][1:]:
                    if element(a) is not None and a.get('valueCategory') == 'lvalue' and a['kind'] == 'CXXOperatorCallExpr' and 'const' not in a['type']['qualType']:
                        elems.append(base(self.strip(a)['inner'][1]))
            for c in x.get('inner', ()):
                walk(c)

        def uses(x, w):
            if element(x) is x:
                return
            if base(x) in w and x.get('kind') in ('MemberExpr', 'DeclRefExpr'):
                raise Unsupported('a parallel iteration reads what another may write line %s' % self.line(x))
            for c in x.get('inner', ()):
                uses(c, w)
        walk(body)
        uses(body, set(elems))

    def st_WhileStmt(self, s):
        inner = s['inner']
        if len(inner) != 2:
            raise Unsupported('while with declaration')
        return self.loop(s, inner[0], None, inner[1])

    def st_DoStmt(self, s):
        body, cond = s['inner']
        first = self.fresh('first')
        return '(let ref %s = true in %s)' % (first, self.loop(s, cond, None, body, first))

    def loop(self, s, cond, step, body, first=None):
        ci = self.counter_of(cond, step, body) if cond is not None and not first else None
        counter, auto, variant = None, [], None
        c0 = None
        if ci:
            counter, op, bound, ns, nb = ci
            c0 = self.fresh('from')
            auto.append('%s <= %s' % (c0, counter))
            try:
                bt = self.tm(bound)
            except Unsupported:
                bt = None
            if bt is None:
                m = re.fullmatch(r'\((?:ilt|ine) (\w+) \(vlen ([\w.]+)\)\)', self.ex(cond))
                if m and m.group(1) == counter:
                    bt = '(length %s)' % m.group(2)
            if bt is not None and (ns + nb) == 1 and ns == 1 or (bt is not None and ns == 0 and nb == 1 and self.last_stmt_incr(body)):
                if op == '<':
                    auto.append('%s <= %s -> %s <= %s' % (c0, bt, counter, bt))
                elif op == '!=':
                    auto.append('%s <= %s -> %s <= %s' % (c0, bt, counter, bt))
                else:
                    auto.append('%s <= %s + 1 -> %s <= %s + 1' % (c0, bt, counter, bt))
                variant = '%s - %s' % (bt, counter) if op != '<=' else '%s + 1 - %s' % (bt, counter)
        holder = {}

        def condf():
            if cond is None:
                return 'true'
            e = self.ex(cond)
            return '(%s || %s)' % (first, e) if first else e

        def bodyf():
            b = self.st(body)
            if first:
                b = '(%s <- false; %s)' % (first, b)
            holder['b'] = b
            return b

        def stepf():
            if step is None:
                return ''
            e = self.st(step)
            holder['b'] += e
            return e
        w = self.loop_common(s, condf, bodyf, stepf, counter, auto + ['@FRAME@'], variant, first or 'false')
        w = w.replace('invariant { @FRAME@ }', self.frame_invs(holder['b'], w))
        if c0:
            w = '(let %s = %s in %s)' % (c0, counter, w)
        return w

    def last_stmt_incr(self, body):
        if body['kind'] == 'CompoundStmt' and body.get('inner'):
            l = body['inner'][-1]
            return l['kind'] == 'UnaryOperator' and l['opcode'] == '++'
        return False

    def assigned_names(self, *nodes):
        return set()

    def st_CXXForRangeStmt(self, s):
        # inner: [init, range decl, begin decl, end decl, cond, inc, loop var decl, body]
        inner = s['inner']
        rng = None
        lvd = None
        for c in inner:
            if c.get('kind') == 'DeclStmt':
                v = c['inner'][0]
                if v.get('name', '').startswith('__range'):
                    rng = v['inner'][0]
                elif not v.get('name', '').startswith('__'):
                    lvd = v
        body = inner[-1]
        t = parse_type(lvd['type'].get('desugaredQualType') or lvd['type']['qualType'], self.al)
        binds = []
        if self.is_lvalue(rng):
            binds, p = self.lv(rng)
        else:
            tmp = self.fresh('rng')
            binds = [(tmp, self.ex(rng))]
            p = Path(tmp, (), self.ct(rng))
        if p.ctype.kind not in ('vec', 'str', 'set'):
            raise Unsupported('range-for over %r' % p.ctype)
        et = p.ctype.args[0] if p.ctype.kind != 'str' else CType('int')
        hi = self.fresh('hi')

        def mk(idx):
            q = p.ext(('i', idx, ''), et)
            if t.ref:
                self.env[lvd['id']] = ('alias', q)
                return self.st(body)
            nm = self.declare(lvd['name'], et, local=False)
            self.env[lvd['id']] = ('var', nm, et)
            return '(let ref %s = %s in %s)' % (nm, q.read(), self.st(body))
        w = self.counted_loop(s, '0', hi, mk)
        w = self.wrap(binds + [(hi, '(vlen %s)' % p.read())], w)
        return w

    def st_at_Loop(self, s):
        return self.loop(s, s['cond'], s['step'], s['body'])

    def st_SwitchStmt(self, s):
        inner = [c for c in s['inner'] if c]
        if len(inner) != 2 or inner[1]['kind'] != 'CompoundStmt':
            raise Unsupported('switch line %s' % self.line(s))
        groups = []         # (list of case expressions or None for default, statements)

        def label(c):
            """case labels of a statement -> (labels, inner statement)"""
            ls = []
            while c['kind'] in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    k = [x for x in c['inner'] if x]
                    if len(k) != 2:
                        raise Unsupported('case range')
                    ls.append(k[0])
                    c = k[1]
                else:
                    ls.append(None)
                    c = c['inner'][0]
            return ls, c
        for c in inner[1].get('inner', ()):
            if c['kind'] in ('CaseStmt', 'DefaultStmt'):
                ls, c = label(c)
                groups.append((ls, [c]))
            elif groups:
                groups[-1][1].append(c)
            else:
                raise Unsupported('statement before the first case')

        def leaves(x):
            if x['kind'] == 'CompoundStmt':
                return bool(x.get('inner')) and leaves(x['inner'][-1])
            if x['kind'] in ('BreakStmt', 'ReturnStmt', 'CXXThrowExpr', 'ContinueStmt'):
                return True
            if x['kind'] == 'ExprWithCleanups':
                return leaves(x['inner'][0])
            if x['kind'] == 'CallExpr':
                d = self.callee_decl(x)
                return d is not None and d.get('name') == 'fail_with'
            return False
        for ls, b in groups[:-1]:
            if not leaves(b[-1]):
                raise Unsupported('switch falls through, line %s' % self.line(s))
        if any(None in ls for ls, _ in groups[:-1]):
            groups = [g for g in groups if None not in g[0]] + [g for g in groups if None in g[0]]
        lp = Loop()
        v = self.fresh('sw')
        e = self.ex(inner[0])
        out = '()'
        parts = []
        for ls, b in groups:
            self.scope.append({})
            # break leaves the switch, continue belongs to the loop around
            if self.loops:
                lp.cont_owner = self.loops[-1]
            self.switches.append((lp, len(self.loops)))
            w = self.stmts(b)
            self.switches.pop()
            self.scope.pop()
            parts.append((ls, w))
        for ls, w in reversed(parts):
            if None in ls:
                out = w
            else:
                c = ' || '.join('(ieq %s %s)' % (v, self.ex(x)) for x in ls)
                out = '(if %s then (%s) else (%s))' % (c, w, out)
        w = '(let %s = %s in %s)' % (v, e, out)
        if lp.brk:
            w = '(exception %s in try (%s) with %s -> () end)' % (lp.brk, w, lp.brk)
        return w


setattr(Trans, 'st_@Loop', Trans.st_at_Loop)


DISTS = {'uniform_int_distribution': 'idist', 'bernoulli_distribution': 'bdist', 'uniform_real_distribution': 'udist',
         'binomial_distribution': 'ndist', 'normal_distribution': 'gdist', 'discrete_distribution': 'ddist',
         'poisson_distribution': 'pdist', 'geometric_distribution': 'geodist'}


def dist_kind(t):
    m = re.match(r'(?:std::)?(\w+_distribution)\b', t.name)
    return DISTS.get(m.group(1)) if m else None


def enum_value(d, t):
    """value of an enumerator"""
    par = t.tu.parent.get(d['id'])
    v = -1
    for c in (par or {}).get('inner', ()):
        if c.get('kind') != 'EnumConstantDecl':
            continue
        v += 1

        def const(x):
            if 'value' in x and x.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
                return int(x['value'])
            for y in x.get('inner', ()):
                r = const(y)
                if r is not None:
                    return r
        for x in c.get('inner', ()):
            k = const(x)
            if k is not None:
                v = k
        if c['id'] == d['id']:
            return str(v)
    raise Unsupported('enumerator %s' % (d or {}).get('name'))


def names_in(t):
    return set(re.findall(r"[A-Za-z_]\w*", t))


def realconst(v):
    v = v.replace('E+', 'e').replace('E', 'e')
    if 'e' in v:
        m, e = v.split('e')
        if '.' not in m:
            m += '.0'
        return m + 'e' + e
    if '.' not in v:
        v += '.0'
    return v


def mutations(n, vid):
    """Ways variable vid is modified in n: '++' or other."""
    out = []

    def root(m):
        while m.get('kind') in ('ParenExpr', 'ImplicitCastExpr') and m.get('inner'):
            m = m['inner'][0]
        return m.get('referencedDecl', {}).get('id') if m.get('kind') == 'DeclRefExpr' else None

    def walk(m):
        k = m.get('kind')
        if k == 'UnaryOperator' and m['opcode'] in ('++', '--') and root(m['inner'][0]) == vid:
            out.append(m['opcode'])
        elif k in ('BinaryOperator',) and m['opcode'] == '=' and root(m['inner'][0]) == vid:
            out.append('=')
        elif k == 'CompoundAssignOperator' and root(m['inner'][0]) == vid:
            b = m['inner'][1]
            while b.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                b = b['inner'][0]
            out.append('++' if m['opcode'] == '+=' and b.get('kind') == 'IntegerLiteral' and b['value'] == '1' else m['opcode'])
        elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            for a in m['inner'][1:]:
                # passed without an lvalue-to-rvalue conversion: by reference
                if a.get('kind') == 'DeclRefExpr' and a.get('referencedDecl', {}).get('id') == vid:
                    out.append('&')
        for c in m.get('inner', ()):
            walk(c)
    if n:
        walk(n)
    return out


def mutated(n, vid):
    return bool(mutations(n, vid))
