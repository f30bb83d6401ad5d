"""Front end: clang's JSON AST of the real translation units of /repo.

Nothing is rewritten by hand: macros are expanded by clang with the build's own
flags, and the function bodies that the verifier executes are exactly the AST
nodes clang prints for the file on disk.
"""
import json, subprocess, os, re, sys
from build import cflags, REPO

sys.setrecursionlimit(100000)


class CType:
    __slots__ = ('kind', 'to', 'name', 'n')

    def __init__(self, kind, to=None, name=None, n=None):
        self.kind = kind; self.to = to; self.name = name; self.n = n

    def __repr__(self):
        if self.kind == 'ptr':
            return '%r*' % self.to
        if self.kind == 'arr':
            return '%r[%s]' % (self.to, self.n)
        return self.name or self.kind

    def isptr(self):
        return self.kind in ('ptr', 'arr')


INT_TYPES = {
    'char': (1, True), 'signed char': (1, True), 'unsigned char': (1, False),
    'short': (2, True), 'unsigned short': (2, False),
    'int': (4, True), 'unsigned int': (4, False), 'unsigned': (4, False),
    'long': (8, True), 'unsigned long': (8, False), 'long long': (8, True),
    'unsigned long long': (8, False), '_Bool': (1, False), 'bool': (1, False),
}
FLOAT_TYPES = {'double': 8, 'float': 4, 'long double': 16}


class TU:
    def __init__(self, path, repo=None):
        repo = repo or REPO
        self.path = path
        cmd = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w'] + cflags(repo) + [path]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise RuntimeError('clang failed on %s: %s' % (path, r.stderr.decode()[-2000:]))
        self.root = json.loads(r.stdout)
        self.typedefs = {}
        self.records = {}      # name -> [(field, CType)]
        self.enums = {}
        self.funcs = {}        # name -> FunctionDecl with body
        self.globals = {}
        self._lines()
        self._collect()

    # clang omits "file"/"line" when unchanged: restore absolute positions
    def _lines(self):
        st = {'file': None, 'line': 0}

        def one(l):
            if not l:
                return
            if 'spellingLoc' in l or 'expansionLoc' in l:
                for k in ('spellingLoc', 'expansionLoc'):
                    if k in l:
                        one(l[k])
                e = l.get('expansionLoc') or {}
                l['L'] = e.get('L'); l['F'] = e.get('F')
                return
            if 'file' in l:
                st['file'] = l['file']
            if 'line' in l:
                st['line'] = l['line']
            l['L'] = st['line']; l['F'] = st['file']

        stack = [self.root]

        def walk(n):
            if 'loc' in n:
                one(n['loc'])
            if 'range' in n:
                one(n['range'].get('begin')); one(n['range'].get('end'))
            for c in n.get('inner', ()):
                walk(c)
        walk(self.root)

    def _collect(self):
        for n in self.root.get('inner', ()):
            k = n['kind']
            if k == 'TypedefDecl':
                t = n['type']
                self.typedefs[n['name']] = t.get('desugaredQualType', t['qualType'])
            elif k == 'RecordDecl' and n.get('completeDefinition'):
                fs = []
                for f in n.get('inner', ()):
                    if f['kind'] == 'FieldDecl' and 'name' in f:
                        fs.append((f['name'], f['type'].get('desugaredQualType', f['type']['qualType'])))
                if 'name' in n:
                    self.records[n['name']] = fs
                self.records['#' + n['id']] = fs
            elif k == 'EnumDecl':
                v = -1
                for f in n.get('inner', ()):
                    if f['kind'] == 'EnumConstantDecl':
                        v = v + 1
                        for c in f.get('inner', ()):
                            if 'value' in c:
                                v = int(c['value'])
                        self.enums[f['name']] = v
            elif k == 'FunctionDecl':
                if any(c['kind'] == 'CompoundStmt' for c in n.get('inner', ())):
                    n['TU'] = self
                    self.funcs[n['name']] = n
            elif k == 'VarDecl':
                self.globals[n['name']] = n

    def ctype(self, s):
        return parse_type(s, self)

    def fields(self, rec):
        return [(f, self.ctype(t)) for f, t in self.records[rec]]


def parse_type(s, tu):
    s = s.strip()
    s = re.sub(r'\b(const|volatile|restrict|__restrict|struct|enum)\b', ' ', s)
    s = re.sub(r'\s+', ' ', s).strip()
    if '(*' in s or re.search(r'\)\s*\(', s) or s.endswith(')'):
        if re.match(r'.*\(\*\)\(.*\)$', s) or '(' in s:
            return CType('func', name=s)
    m = re.match(r'^(.*?)\s*((\[\d*\])+)$', s)
    if m:
        dims = re.findall(r'\[(\d*)\]', m.group(2))
        t = parse_type(m.group(1), tu)
        for d in reversed(dims):
            t = CType('arr', to=t, n=int(d) if d else None)
        return t
    if s.endswith('*'):
        return CType('ptr', to=parse_type(s[:-1], tu))
    if s == 'void':
        return CType('void', name='void')
    if s in INT_TYPES:
        return CType('int', name=s)
    if s in FLOAT_TYPES:
        return CType('real', name=s)
    if s in tu.records:
        return CType('struct', name=s)
    if s in tu.typedefs:
        d = tu.typedefs[s]
        d2 = re.sub(r'\b(struct|enum)\b', ' ', d).strip()
        if d2 == s:
            if s in tu.records:
                return CType('struct', name=s)
            return CType('int', name='int') if d.startswith('enum') else CType('opaque', name=s)
        return parse_type(d, tu)
    if s in ('BRANCHING_STRATEGY', 'NODE_SELECTION_METHOD') or s.isupper():
        return CType('int', name='unsigned int')
    return CType('opaque', name=s)


def nodetype(n):
    t = n['type']
    return t.get('desugaredQualType', t['qualType'])


def line_of(n):
    try:
        b = n['range']['begin']
        return b.get('L')
    except Exception:
        return None


class Program:
    """All functions of the ECOS sources (one clang run per file, in parallel)."""

    def __init__(self, files, repo=None):
        from concurrent.futures import ThreadPoolExecutor
        repo = repo or REPO
        with ThreadPoolExecutor(8) as ex:
            self.tus = list(ex.map(lambda f: TU(os.path.join(repo, f), repo), files))
        self.funcs = {}
        self.records = {}
        for t in self.tus:
            for k, v in t.funcs.items():
                self.funcs.setdefault(k, v)
            for k, v in t.records.items():
                if k not in self.records:
                    self.records[k] = [(f, t.ctype(ty)) for f, ty in v] if not k.startswith('#') else None

    def func(self, name):
        return self.funcs.get(name)


if __name__ == '__main__':
    import time
    t = time.time()
    files = ['src/ecos.c', 'src/cone.c', 'src/spla.c', 'src/equil.c', 'src/kkt.c', 'src/splamm.c', 'src/expcone.c',
             'src/preproc.c', 'src/ctrlc.c', 'ecos_bb/ecos_bb.c', 'ecos_bb/ecos_bb_preproc.c', 'external/ldl/src/ldl.c']
    p = Program(files)
    print(time.time() - t, len(p.funcs))
    print(p.records['pwork'])
    print(p.records['ecos_bb_pwork'])
    kinds = {}
    def walk(n):
        kinds[n['kind']] = kinds.get(n['kind'], 0) + 1
        for c in n.get('inner', ()): walk(c)
    for f, n in p.funcs.items():
        if n['TU'].path.startswith('/repo') and '/repo' in str(n['loc'].get('F', '')): walk(n)
    print(kinds)
