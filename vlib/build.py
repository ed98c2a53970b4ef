"""Builds the real extension module from the current tree of the repository into /verif/.cache (git-ignored).

Variants (all compile the repository's own headers, unmodified):
  full  include/tnco/main.cpp as it is, all cost and width types
  lite  the same file with the EXPAND_* instantiation macros restricted to <double>
  base  Bitset, Node, Tree, ContractionTree, utils and float1024 only (no optimizers)
  models  base plus the cost models and acceptance rules for all types (no optimizers)
A variant that does not compile (the macros were renamed, say) falls back to `full`.
"""
import os, sys, subprocess, hashlib, fcntl
REPO = os.environ.get('TNCO_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, '.cache')
VENV = '/opt/venv/bin/python'

LITE = '''#include <tnco/globals.hpp>
#undef EXPAND_COST_TYPE
#undef EXPAND_WIDTH_TYPE
#undef EXPAND_COST_WIDTH_TYPE
#define EXPAND_COST_TYPE(function, ...) function<double>(__VA_ARGS__);
#define EXPAND_WIDTH_TYPE(function, T, ...) function<T, double>(__VA_ARGS__);
#define EXPAND_COST_WIDTH_TYPE(function, ...) EXPAND_WIDTH_TYPE(function, double, __VA_ARGS__);
#include <tnco/main.cpp>
'''
BASE = '''#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <tnco/globals.hpp>
#include <tnco/utils.hpp>
namespace tnco {
namespace py = pybind11;
PYBIND11_MODULE(tnco_core, m) {
  bitset::init(m, "Bitset");
  node::init<index_type>(m, "Node");
  tree::init<node_type>(m, "Tree");
  ctree::init<tree_type, bitset_type>(m, "ContractionTree");
  fixed_float::init<1024>(m, "float1024");
  { auto sm = m.def_submodule("utils"); utils::init(sm); }
}
}
'''

MODELS = BASE.replace('#include <tnco/utils.hpp>\n', '''#include <tnco/utils.hpp>
#undef EXPAND_WIDTH_TYPE
#define EXPAND_WIDTH_TYPE(function, T, ...) function<T, float>(__VA_ARGS__); function<T, double>(__VA_ARGS__);
#include <tnco/optimize/prob/main.hpp>
#include <tnco/optimize/infinite_memory/cost_model/main.hpp>
#include <tnco/optimize/finite_width/cost_model/main.hpp>
''').replace('  { auto sm = m.def_submodule("utils"); utils::init(sm); }\n', '''
  { auto sm = m.def_submodule("utils"); utils::init(sm); }
  auto om = m.def_submodule("optimize");
  { auto sm = om.def_submodule("prob"); optimize::prob::init(sm); }
  { auto sm = om.def_submodule("infinite_memory"); auto s2 = sm.def_submodule("cost_model"); optimize::infinite_memory::cost_model::init(s2); }
  { auto sm = om.def_submodule("finite_width"); auto s2 = sm.def_submodule("cost_model"); optimize::finite_width::cost_model::init(s2); }
''')

def includes():
    o = subprocess.run([VENV, '-c', 'import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_path("include"))'],
                       capture_output=True, text=True).stdout.split()
    return o

def sources():
    res = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'include')):
        res += [os.path.join(d, f) for f in fs]
    res.append(os.path.join(REPO, 'CMakeLists.txt'))
    return sorted(p for p in res if os.path.exists(p))

def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sources():
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def build(variant='lite'):
    os.makedirs(CACHE, exist_ok=True)
    if variant == 'none': return None
    key = tree_hash(variant + LITE + BASE + MODELS)
    d = os.path.join(CACHE, 'so_%s_%s' % (variant, key))
    so = os.path.join(d, 'tnco_core.so')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so): return so
        src = os.path.join(REPO, 'include/tnco/main.cpp')
        if variant != 'full':
            src = os.path.join(d, variant + '.cpp')
            open(src, 'w').write({'lite': LITE, 'base': BASE, 'models': MODELS}[variant])
        inc = includes()
        cmd = ['g++', '-O1', '-std=c++17', '-fPIC', '-fvisibility=hidden', '-w', '-Dtnco_core_EXPORTS', '-I', os.path.join(REPO, 'include')]
        for i in inc: cmd += ['-isystem', i]
        tmp = so + '.tmp'
        r = subprocess.run(cmd + ['-shared', '-o', tmp, src, '-lmpfr', '-lgmp'], capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, so); return so
    if variant != 'full': return build('full')
    raise RuntimeError('the extension does not compile:\n' + r.stderr[:2000])

if __name__ == '__main__':
    import time
    t = time.time(); print(build(sys.argv[1] if len(sys.argv) > 1 else 'lite'), time.time() - t)
