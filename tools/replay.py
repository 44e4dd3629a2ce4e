#!/usr/bin/env python3
"""Rebuild the real code natively and replay a counterexample: replay.py evidence/replay-<ID>-<entry>.json [--asan]"""
import sys, os, json, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C, specs, sxbuild as B, subprocess
def main():
    r = json.load(open(sys.argv[1])); asan = '--asan' in sys.argv; tier = 1 if r.get('tier') == 'thorough' else 0
    subprocess.run(['bash', os.path.join(C.VERIF, 'engine/build.sh')], check=True, stdout=subprocess.DEVNULL); B.make_includes(C.BUILD)
    for g in specs.SPECS[r['property']]['groups']:
        if any(e['name'] == r['entry'] for e in g['entries']):
            srcs = ['h:' + h for h in g['harness']] + g['sources'] + ['h:sx_native']; defs = g.get('defs', []) + (['-DSX_NO_NEW'] if asan else [])
            w = os.path.join(C.BUILD, 'replay'); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); exe = os.path.join(w, 'prog')
            C.link_native(g, C.compile_all(srcs, 'asan' if asan else 'o', tier, defs), exe, asan)
            rc, out = C.native_run(exe, r['entry'], r, os.path.join(w, 'in.txt'), 120); print(out); print('exit code', rc); return
main()
