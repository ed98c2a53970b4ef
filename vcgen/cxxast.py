"""Loads clang's JSON AST of the tnco headers (extraction, redone from /repo on every run)."""
import json, os, re, subprocess, hashlib, tempfile, sys, time

REPO = os.environ.get('TNCO_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), '.cache')

def venv_python():
    return '/opt/venv/bin/python'

_flags = None
def include_flags():
    global _flags
    if _flags is None:
        out = subprocess.run([venv_python(), '-c', "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()['include'])"], capture_output=True, text=True, check=True).stdout.split()
        _flags = ['-I' + x for x in out]
    return _flags

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def header_files():
    res = []
    for d, _, fs in os.walk(os.path.join(REPO, 'include')):
        res += [os.path.join(d, f) for f in fs]
    return res

def short_name(d):
    """Qualified name without template arguments, parameters and return type."""
    if d.startswith('_ZN'):
        m = re.match(r'_ZN[KVRO]*', d); i = m.end(); parts = []
        while i < len(d) and d[i].isdigit():
            m = re.match(r'\d+', d[i:]); k = int(m.group()); i += m.end()
            parts.append(d[i:i + k]); i += k
            if i < len(d) and d[i] == 'I': break
        return '::'.join(parts)
    d = d.replace('operator()', 'operator@call').replace('operator<<', 'operator@shl').replace('operator>>', 'operator@shr')
    d = re.sub(r'operator(<=|>=|<|>|->)(?=[(<])', lambda m: 'operator@' + {'<=': 'le', '>=': 'ge', '<': 'lt', '>': 'gt', '->': 'arrow'}[m.group(1)], d)
    d = d.replace('(anonymous namespace)', '@anon').replace('->', '@')
    out, depth = [], 0
    for ch in d:
        if ch in '<([': depth += 1
        elif ch in '>)]': depth -= 1
        elif depth == 0: out.append(ch)
    r = ''.join(out).strip()
    r = re.sub(r'( const| volatile| &&| &)+$', '', r)
    r = r.replace(' const::', '::')
    r = r.split(' ')[-1]
    return r.replace('operator@call', 'operator()')

class AST:
    def __init__(self, docs):
        self.by_id = {}
        self.qual = {}      # id -> qualified name
        self.funcs = {}     # qualified name -> [nodes with a body]
        self.docs = docs
        for prefix, d in docs:
            self._walk(d, prefix)
        self._demangle()
    def _demangle(self):
        m = [(n['mangledName'], n) for n in self.by_id.values() if n.get('mangledName') and n.get('_body')]
        out = subprocess.run(['c++filt'], input='\n'.join(x for x, _ in m), capture_output=True, text=True).stdout.split('\n')
        self.full = {}
        for (x, n), d in zip(m, out):
            d = d.replace("[abi:cxx11]", ""); n["_full"] = d; n["_short"] = short_name(d)
            if n['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
                self.full.setdefault(d, n)
    def find(self, regex, unique=True):
        r = [n for d, n in self.full.items() if re.search(regex, d)]
        if unique:
            if len(r) != 1: raise LookupError('%s: %d matches %s' % (regex, len(r), [n['_full'][:200] for n in r][:4]))
            return r[0]
        return r
    def find1(self, regex):
        r = [n for q, n in self.full.items() if re.search(regex, q)]
        if len(r) != 1:
            from .core import OutOfFragment
            raise OutOfFragment('%d functions match %s' % (len(r), regex))
        return r[0]
    def _walk(self, d, prefix):
        stack = [(d, prefix, None)]
        while stack:
            n, ns, parent = stack.pop()
            k = n.get('kind', '')
            i = n.get('id')
            name = n.get('name', '')
            q = ns
            if k.endswith('Decl') and i:
                has_body = any(isinstance(c, dict) and c.get('kind') == 'CompoundStmt' for c in n.get('inner', ()))
                old = self.by_id.get(i)
                if old is None or (has_body and not old.get('_body')) or (k.startswith('ClassTemplateSpec') and len(n.get('inner', ())) > len(old.get('inner', ()))):
                    n['_body'] = has_body
                    self.by_id[i] = n
                    if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplateDecl', 'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'FunctionTemplateDecl', 'CXXConversionDecl', 'FieldDecl', 'VarDecl'):
                        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
                            self.qual[i] = ns + '::' + name
                        else:
                            self.qual[i] = (ns + '::' + name) if name else ns
                        n['_q'] = self.qual[i]
                    if has_body and k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
                        self.funcs.setdefault(self.qual[i], []).append(n)
                if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                    q = (ns + '::' + name) if name else ns
            for c in n.get('inner', ()):
                if isinstance(c, dict) and c: stack.append((c, q, n))

def _dump(extra):
    drv = os.path.join(HERE, 'driver.cpp')
    cmd = ['clang++', '-std=c++17', '-I', os.path.join(REPO, 'include')] + include_flags() + list(extra) + \
          ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=tnco', drv]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError('extraction failed (the driver does not compile against the current headers):\n' + r.stderr[:3000])
    return r.stdout

_loaded = {}
def load(debug=False):
    """debug=False: as built for release (-DNDEBUG); debug=True keeps the ASSERTs."""
    if debug in _loaded: return _loaded[debug]
    s = _dump([] if debug else ['-DNDEBUG'])
    dec = json.JSONDecoder(); i = 0; docs = []; prefix = ''
    n = len(s)
    while i < n:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: break
        if s.startswith('Dumping', i):
            j = s.index('\n', i)
            q = s[i + 8:j].rstrip(':').strip()
            prefix = q.rsplit('::', 1)[0] if '::' in q else ''
            i = j + 1; continue
        d, i = dec.raw_decode(s, i)
        docs.append((prefix, d)); prefix = ''
    a = AST(docs)
    _loaded[debug] = a
    return a

if __name__ == '__main__':
    t = time.time()
    a = load()
    print(time.time() - t, len(a.by_id))
    for q in sorted(a.full): print(q)
