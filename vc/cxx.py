"""Reading /repo's C++ through clang's AST (JSON): functions, classes, types.

Nothing here looks at the text of the program: everything comes from the AST
that clang builds for the translation unit (macros expanded, templates
instantiated, overloads resolved)."""
import json, os, re, subprocess, hashlib

REPO = os.environ.get('HNCO_REPO', '/repo')
CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
CXXFLAGS = ['-std=gnu++17', '-fopenmp', '-I', REPO + '/lib', '-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stub'), '-DHAVE_CONFIG_H']


class Unsupported(Exception):
    """A construct outside the subset the extractor handles."""


class TU:
    """One translation unit: every hnco declaration, indexed."""

    def __init__(self, path, confdir):
        self.path = path
        self.confdir = confdir
        self.globals = {}     # name -> global functions of that name defined in the repository
        cmd = [CLANG] + CXXFLAGS + ['-I', confdir, '-fsyntax-only', '-fno-access-control', '-w',
               '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=hnco::', path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise Unsupported('clang cannot parse %s: %s' % (path, p.stderr[-800:]))
        self.by_id = {}
        self.funcs = {}       # mangled -> decl with body
        self.decls = {}       # mangled -> any decl
        self.patterns = {}    # class templates
        self.ns, self.records_q = [], {}
        self.records = {}     # qualified name -> CXXRecordDecl with definition
        self.rec_by_id = {}
        self.aliases = {}
        self.parent = {}      # decl id -> class node
        self._load(p.stdout)

    def _load(self, s):
        dec = json.JSONDecoder()
        i, n = 0, len(s)
        docs = []
        while True:
            j = s.find('{', i)
            if j < 0:
                break
            d, i = dec.raw_decode(s, j)
            docs.append(d)
        del s
        self.cur = [None, 0]
        for d in docs:
            self._loc(d)
        for d in docs:
            self._index(d, None)
        # out-of-line definitions: take the class from the previous declaration
        for d in list(self.by_id.values()):
            if d['kind'] in FUNCS and d['id'] not in self.parent:
                pd = d.get('previousDecl')
                if pd in self.parent:
                    self.parent[d['id']] = self.parent[pd]
                elif d.get('parentDeclContextId') in self.rec_by_id:
                    self.parent[d['id']] = self.rec_by_id[d['parentDeclContextId']]

    def load_global(self, name):
        """functions of the global namespace (helpers of a source file) called name"""
        if name in self.globals:
            return self.globals[name]
        self.globals[name] = []
        cmd = [CLANG] + CXXFLAGS + ['-I', self.confdir, '-fsyntax-only', '-fno-access-control', '-w',
               '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name, self.path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0 or len(p.stdout) > 300000000:
            return []
        dec = json.JSONDecoder()
        s, i = p.stdout, 0
        self.cur = [None, 0]
        while True:
            j = s.find('{', i)
            if j < 0:
                break
            d, i = dec.raw_decode(s, j)
            self._loc(d)
            if d.get('kind') == 'FunctionDecl' and d.get('name') == name and re.match(r'_Z(L?\d|N12_GLOBAL__N_1)', d.get('mangledName', '')) \
                    and (d.get('@file') or '').startswith(REPO):
                self._index(d, None)
                self.globals[name].append(d)
        return self.globals[name]

    # clang omits file and line when unchanged since the previous location
    def _loc(self, n):
        if not isinstance(n, dict):
            return
        for key in ('loc', 'range'):
            l = n.get(key)
            if isinstance(l, dict):
                for part in ([l] if key == 'loc' else [l.get('begin', {}), l.get('end', {})]):
                    for q in (part.get('spellingLoc', {}), part.get('expansionLoc', {}), part):
                        if 'file' in q:
                            self.cur[0] = q['file']
                        if 'line' in q:
                            self.cur[1] = q['line']
                    if part is l or part is l.get('begin'):
                        n['@line'] = self.cur[1]
                        n['@file'] = self.cur[0]
        for c in n.get('inner', ()):
            self._loc(c)

    def _index(self, n, cls, pattern=False):
        k = n.get('kind')
        if k is None:
            return
        if 'id' in n:
            self.by_id[n['id']] = n
        if cls is not None and 'id' in n:
            self.parent[n['id']] = cls
        if k in FUNCS:
            m = n.get('mangledName')
            if m:
                self.decls.setdefault(m, n)
                if any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', ())):
                    self.funcs[m] = n
            return
        if k in ('TypeAliasDecl', 'TypedefDecl'):
            self.aliases.setdefault(n['name'], n['type'].get('desugaredQualType') or n['type']['qualType'])
            return
        if k == 'EnumDecl':
            for c in n.get('inner', ()):
                if 'id' in c:
                    self.by_id[c['id']] = c
                    self.parent[c['id']] = n
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if n.get('completeDefinition'):
                name = n.get('name', '')
                (self.patterns if pattern else self.records).setdefault(name, n)
                if not pattern:
                    self.records_q.setdefault('::'.join(self.ns + [name]), n)
                if k == 'ClassTemplateSpecializationDecl':
                    self.records.setdefault(spec_key(name, [c.get('type', {}).get('qualType') or str(c.get('value', ''))
                                                            for c in n.get('inner', ()) if c.get('kind') == 'TemplateArgument']), n)
                self.rec_by_id[n['id']] = n
            for c in n.get('inner', ()):
                self._index(c, n)
            return
        if k in ('NamespaceDecl', 'LinkageSpecDecl', 'ClassTemplateDecl', 'FunctionTemplateDecl'):
            if k == 'NamespaceDecl':
                self.ns.append(n.get('name', ''))
            for c in n.get('inner', ()):
                if k == 'FunctionTemplateDecl' and c.get('kind') in FUNCS and 'mangledName' not in c:
                    continue
                self._index(c, cls, k == 'ClassTemplateDecl')
            if k == 'NamespaceDecl':
                self.ns.pop()

    def find_record(self, name):
        short = name.split('<')[0].split('::')[-1]
        if '<' in name:
            r = self.records.get(spec_key(short, split_args(name[name.index('<') + 1:name.rindex('>')])))
            if r is not None:
                return r
            return self.patterns.get(short) or self.records.get(short)
        return self.records_q.get(re.sub(r'^(const )?hnco::', '', name)) or self.records.get(short) or self.patterns.get(short)

    def lambda_call(self, lam):
        rec = lam['inner'][0]
        for c in rec['inner']:
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                return c
        raise Unsupported('generic lambda')


def spec_key(name, args):
    """name of a class template specialization, without namespaces"""
    return '%s<%s>' % (name, ','.join(re.sub(r'\w+::|\b(class|struct) |\s+', '', a) for a in args))


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += (c == '<') - (c == '>')
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]


FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.split('\n')


def simplify_sig(d):
    """Readable, canonical signature from a demangled one."""
    prev = None
    d = d.replace('unsigned char', 'bit')
    while prev != d:
        prev = d
        d = re.sub(r'std::vector<((?:[^<>]|<[^<>]*>)*), std::allocator<\1 ?> ?>', r'vector<\1>', d)
    d = re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>', 'string', d)
    d = d.replace('[abi:cxx11]', '')
    d = d.replace('> >', '>>')
    return d


# ---------------------------------------------------------------- types
INTS = {
    'int': (True, 32), 'signed int': (True, 32), 'unsigned int': (False, 32), 'unsigned': (False, 32),
    'long': (True, 64), 'unsigned long': (False, 64), 'long long': (True, 64),
    'unsigned long long': (False, 64), 'short': (True, 16), 'unsigned short': (False, 16),
    'char': (True, 8), 'signed char': (True, 8), 'unsigned char': (False, 8),
    'size_t': (False, 64), 'std::size_t': (False, 64), 'size_type': (False, 64),
    'std::uint8_t': (False, 8), 'uint8_t': (False, 8), 'difference_type': (True, 64), 'ptrdiff_t': (True, 64),
    'std::int64_t': (True, 64), 'std::uint64_t': (False, 64), 'std::uint32_t': (False, 32),
}


def split_targs(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class CType:
    """kind: int bool real vec str pair class ptr void iter other"""

    def __init__(self, kind, args=(), name='', ref=False, const=False, signed=True, bits=32):
        self.kind, self.args, self.name = kind, list(args), name
        self.ref, self.const, self.signed, self.bits = ref, const, signed, bits

    def __repr__(self):
        return '%s%s%s%s' % (self.kind, self.args or '', ':' + self.name if self.name else '', '&' if self.ref else '')


def parse_type(s, aliases, depth=0):
    if depth > 12:
        raise Unsupported('type ' + s)
    s = s.strip()
    ref = const = False
    ptr = 0
    while True:
        if s.endswith('&&'):
            s = s[:-2].strip(); ref = True; continue
        if s.endswith('&'):
            s = s[:-1].strip(); ref = True; continue
        if s.endswith('*'):
            s = s[:-1].strip(); ptr += 1; const = False; continue
        if s.endswith(' const'):
            s = s[:-6].strip(); const = True; continue
        if s.startswith('const '):
            s = s[6:].strip(); const = True; continue
        if s.startswith('volatile '):
            s = s[9:].strip(); continue
        for p in ('typename ', 'class ', 'struct ', 'enum '):
            if s.startswith(p):
                s = s[len(p):].strip()
        break
    m = re.match(r'^(.*\S)\s*\[\d+\]$', s)
    if m and not ptr:       # an array member: a sequence of fixed length
        return CType('vec', [parse_type(m.group(1), aliases, depth + 1)], ref=ref, const=const)
    if ptr:
        inner = parse_type(s, aliases, depth + 1)
        return CType('ptr', [inner], ref=ref, const=const)
    if s in ('bool', '_Bool'):
        return CType('bool', ref=ref, const=const)
    if s in INTS:
        sg, b = INTS[s]
        return CType('int', ref=ref, const=const, signed=sg, bits=b)
    if s in ('double', 'float', 'long double'):
        return CType('real', ref=ref, const=const)
    if s == 'void':
        return CType('void')
    m = re.match(r'^(?:std::)?(vector|array|unordered_set|pair|unordered_map|map|set)<(.*)>$', s)
    if m:
        args = split_targs(m.group(2))
        k = m.group(1)
        n = {'vector': 1, 'array': 1, 'unordered_set': 1, 'set': 1, 'pair': 2, 'unordered_map': 2, 'map': 2}[k]
        kind = {'vector': 'vec', 'array': 'vec', 'unordered_set': 'set', 'set': 'set', 'pair': 'pair', 'unordered_map': 'map', 'map': 'map'}[k]
        return CType(kind, [parse_type(a, aliases, depth + 1) for a in args[:n]], 'array' if k == 'array' else '', ref=ref, const=const)
    m = re.match(r'^(?:std::)?complex<(.*)>$', s)
    if m:
        t = parse_type(m.group(1), aliases, depth + 1)
        return CType('pair', [t, t], ref=ref, const=const)
    if s in ('std::string', 'string', 'std::basic_string<char>', 'std::__cxx11::basic_string<char>'):
        return CType('str', ref=ref, const=const)
    if 'std::_Bit_reference' in s or s == 'std::vector<bool>::reference':
        return CType('bool', ref=True, const=const)
    if 'normal_iterator' in s or s in ('iterator', 'const_iterator'):
        return CType('iter')
    short = s.split('::')[-1] if '<' not in s else s
    if short in aliases and aliases[short] != s:
        t = parse_type(aliases[short], aliases, depth + 1)
        return CType(t.kind, t.args, t.name, ref or t.ref, const or t.const, t.signed, t.bits)
    base = s.split('<')[0].split('::')[-1]
    return CType('class', name=s if '<' in s else base, ref=ref, const=const)


def node_type(n, aliases):
    t = n.get('type')
    if not t:
        return CType('void')
    return parse_type(t.get('desugaredQualType') or t['qualType'], aliases)
