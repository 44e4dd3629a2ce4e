#!/usr/bin/env python3
"""Build pipeline: real /repo sources -> LLVM IR (clang 18) / native objects (g++).

Everything is regenerated from /repo's working tree on every run: the include
tree is a set of forwarding stubs to the real headers, nothing is copied except
headers that clang cannot parse verbatim (CountedRef.h: pre-C++11 access
declarations), which are mechanically rewritten (X::y; -> using X::y;) at run
time and presented to clang through a VFS overlay.
"""
import os, re, subprocess, sys, hashlib, json, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PKGS = {
  'TimBase': 'TimBase', 'DMI': 'DMI', 'OCTOPUSSY': 'OCTOPUSSY', 'MEQ': 'MEQ',
  'MeqNodes': 'MeqNodes', 'MeqServer': 'MeqServer', 'VisCube': 'VisCube',
  'OCTOPython': 'OCTOPython', 'MeqMPI': 'MeqMPI',
  'AppAgent': 'AppAgent/AppAgent', 'AppUtils': 'AppAgent/AppUtils',
}
HAVE = ['TIMBASE', 'DMI', 'OCTOPUSSY', 'MEQ', 'OCTOPYTHON', 'VISCUBE', 'APPAGENT']

DEFS = ['-DHAVE_AIPSPP', '-DHAVE_QDBM', '-DMAKE_LOFAR_SYMBOLS_GLOBAL', '-DSTRIP_CUDA',
        '-DUSE_STD_COMPLEX', '-DUSE_THREADS', '-D_GNU_SOURCE', '-DIMPLICIT_CTDS_32BIT', '-DNDEBUG']
SYSINC = ['-I/usr/include/casacore', '-I/usr/lib/python3/dist-packages/numpy/core/include',
          '-I/usr/include/python3.12']

def write_if_changed(p, s):
    try:
        if open(p).read() == s: return
    except OSError: pass
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + '.%d.tmp' % os.getpid()
    open(tmp, 'w').write(s); os.replace(tmp, p)

def make_includes(work):
    inc = os.path.join(work, 'inc')
    for pkg, d in PKGS.items():
        src = os.path.join(REPO, d, 'src')
        for root, _, files in os.walk(src):
            for f in files:
                if f.endswith(('.h', '.tcc', '.hh', '.inc')) or (pkg == 'TimBase' and f.endswith('.cc')):
                    rel = os.path.relpath(os.path.join(root, f), src)
                    write_if_changed(os.path.join(inc, pkg, rel), '#include "%s"\n' % os.path.join(root, f))
        for f in os.listdir(os.path.join(REPO, d, 'src')) if os.path.isdir(src) else []:
            pass
    cfg = '#ifndef SX_LOFAR_CONFIG_H\n#define SX_LOFAR_CONFIG_H\n#include <config.h>\n'
    for h in HAVE: cfg += '#ifndef HAVE_LOFAR_%s\n#define HAVE_LOFAR_%s 1\n#endif\n' % (h, h)
    cfg += '#endif\n'
    write_if_changed(os.path.join(inc, 'lofar_config.h'), cfg)
    c = ''
    for h in 'MALLOC_H MEMORY_H DLFCN_H STDINT_H STDLIB_H STRINGS_H STRING_H SYS_STAT_H SYS_TYPES_H UNISTD_H BLITZ PYTHONLIBS CASACORE DBM WCSLIB FFTW3 CFITSIO THREADS'.split():
        c += '#define HAVE_%s 1\n' % h
    write_if_changed(os.path.join(inc, 'config.h'), c)
    write_if_changed(os.path.join(inc, 'sx_compat.h'), '''#ifdef __cplusplus
#include <cstring>
namespace sx_compat { struct SysSigList { const char * operator [] (int sig) const { return ::strsignal(sig); } };
static const SysSigList siglist = {}; }
#define sys_siglist (::sx_compat::siglist)
#endif
''')
    write_if_changed(os.path.join(work, 'incclang', 'blitz', 'llvm', 'bzconfig.h'), '#include <blitz/gnu/bzconfig.h>\n')
    # VFS overlay for headers needing the mechanical clang rewrite
    entries = []
    hdrs = []
    for pkg, d in PKGS.items():
        for root, _, files in os.walk(os.path.join(REPO, d, 'src')):
            hdrs += [os.path.join(root, f) for f in files if f.endswith('.h')]
    for p in sorted(hdrs):
        s = open(p, errors='surrogateescape').read()
        s2 = re.sub(r'^([ \t]*)((?:\w+::)+(?:operator[ \t]*[^\w\s;]+|\w+)[ \t]*;)', r'\1using \2', s, flags=re.M)
        if s2 == s: continue
        q = os.path.join(work, 'vfs', os.path.relpath(p, REPO).replace('/', '_'))
        write_if_changed(q, s2)
        entries.append({'name': p, 'type': 'file', 'external-contents': q})
    ov = os.path.join(work, 'vfs', 'overlay.json')
    write_if_changed(ov, json.dumps({'version': 0, 'roots': entries}))
    return inc

def flags_common(work):
    inc = os.path.join(work, 'inc')
    return DEFS + ['-I' + inc] + SYSINC + ['-I' + os.path.join(VERIF, 'harness'), '-include', os.path.join(inc, 'sx_compat.h'), '-std=c++17', '-w']

def clang_cmd(work, src, out, extra=()):
    return (['clang++-18', '-c', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
             '-ivfsoverlay', os.path.join(work, 'vfs', 'overlay.json'), '-I' + os.path.join(work, 'incclang'),
             '-DSX_SYMBOLIC', '-fno-discard-value-names' if os.environ.get('SX_NAMES') else '-fdiscard-value-names',
             '-fno-threadsafe-statics', '-fdelayed-template-parsing', '-Wno-c++11-narrowing', '-ffp-contract=off', '-fno-math-errno' ] + flags_common(work) + list(extra) + [src, '-o', out])

def native_cmd(work, src, out, extra=()):
    return (['g++', '-c', '-O0', '-g1', '-fPIC', '-DSX_NATIVE', '-ffp-contract=off'] + flags_common(work) + list(extra) + [src, '-o', out])

def run1(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr

def compile_many(jobs, n=8):
    """jobs: list of (cmd, out). Raises on failure."""
    errs = []
    with ThreadPoolExecutor(n) as ex:
        for (cmd, out), (rc, txt) in zip(jobs, ex.map(lambda j: run1(j[0]), jobs)):
            if rc: errs.append((out, ' '.join(cmd), txt))
    return errs
