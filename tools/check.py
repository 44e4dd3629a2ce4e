#!/usr/bin/env python3
"""Decide one property: regenerate IR from /repo, explore symbolically, validate/replay natively.

usage: check.py --property ID [--tier quick|thorough] [--entry NAME] [--keep]
exit 0: held on everything within the bounds; 1: confirmed violation; 2: no answer.
"""
import sys, os, re, json, time, hashlib, subprocess, argparse, shutil, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxbuild as B
import specs
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF, REPO = B.VERIF, B.REPO
BUILD = os.environ.get('SX_BUILD', os.path.join(VERIF, 'build'))
SYMX = os.path.join(BUILD, 'engine', 'symx')
NPROC = int(os.environ.get('SX_PROCS', '8'))

def sha(p):
    h = hashlib.sha256()
    try:
        with open(p, 'rb') as f: h.update(f.read())
    except OSError: return 'none'
    return h.hexdigest()

class Cache:
    """dependency-hash cache of compiler outputs (key: command + contents of every non-system dependency)"""
    def __init__(self): self.h = {}
    def hs(self, p):
        if p not in self.h: self.h[p] = sha(p)
        return self.h[p]
    def fresh(self, out, key):
        try: k = json.load(open(out + '.key'))
        except (OSError, ValueError): return False
        if k['key'] != key or not os.path.exists(out): return False
        return all(self.hs(p) == v for p, v in k['deps'].items())
    def store(self, out, key, deps):
        tmp = out + '.key.%d' % os.getpid()
        json.dump({'key': key, 'deps': {p: self.hs(p) for p in deps}}, open(tmp, 'w')); os.replace(tmp, out + '.key')
CACHE = Cache()

def parse_dep(f):
    try: s = open(f).read()
    except OSError: return []
    s = s.replace('\\\n', ' '); s = s[s.index(':') + 1:]
    return [x for x in s.split() if not x.startswith('/usr/')]

def src_path(s):
    if s.startswith('/'): return s
    if s.startswith('rt:'): return os.path.join(VERIF, 'engine', s[3:] + '.cc')
    if s.startswith('h:'): return os.path.join(VERIF, 'harness', s[2:] + '.cc')
    pkg, f = s.split('/', 1)
    return os.path.join(REPO, B.PKGS[pkg], 'src', f + '.cc')
def flat(s): return s.replace('/', '_').replace(':', '_')

def compile_one(s, mode, tier, defs):
    """mode: bc | o | asan -> output path; raises on error"""
    ish = s.startswith('h:'); name = flat(s) + ('.t%d' % tier if ish else '')
    out = os.path.join(BUILD, mode, name + ('.bc' if mode == 'bc' else '.o'))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    dep = out + '.%d.d' % os.getpid(); tmp = out + '.%d.tmp' % os.getpid()
    extra = ['-MMD', '-MF', dep] + (['-DSX_TIER=%d' % tier] + defs if ish else [])
    src = src_path(s)
    if mode == 'bc': cmd = B.clang_cmd(BUILD, src, tmp, extra)
    else: cmd = B.native_cmd(BUILD, src, tmp, extra + (['-fsanitize=address', '-fno-omit-frame-pointer'] if mode == 'asan' else []))
    key = ' '.join(c for c in cmd if str(os.getpid()) not in c) + (CACHE.hs(os.path.join(VERIF, 'engine/ext.cpp')) + CACHE.hs(os.path.join(VERIF, 'engine/main.cpp')) if mode == 'bc' else '')
    if CACHE.fresh(out, key): return out
    rc, txt = B.run1(cmd)
    if rc: raise RuntimeError('compile failed: %s (%s)\n%s' % (s, mode, txt[-3000:]))
    deps = parse_dep(dep)
    if mode == 'bc':
        tmp2 = tmp + '2'; rc, txt = B.run1([SYMX, 'opt', tmp, tmp2])
        if rc: raise RuntimeError('symx opt failed: %s\n%s' % (s, txt[-2000:]))
        os.replace(tmp2, out); os.unlink(tmp)
    else: os.replace(tmp, out)
    os.unlink(dep); CACHE.store(out, key, deps)
    return out

def compile_all(srcs, mode, tier, defs):
    with ThreadPoolExecutor(NPROC) as ex: return list(ex.map(lambda s: compile_one(s, mode, tier, defs), srcs))

def link_native(spec, objs, out, asan):
    base = ['g++'] + (['-fsanitize=address'] if asan else []) + ['-no-pie', '-rdynamic', '-o', out] + objs
    tail = ['-ldl', '-lpthread', '-lm'] + spec.get('libs', []) + ['-Wl,--warn-unresolved-symbols', '-Wl,--no-demangle']
    rc, txt = B.run1(base + tail)
    if rc: raise RuntimeError('native link failed\n' + txt[-3000:])
    und = sorted(set(re.findall(r"undefined reference to `([^']+)'", txt)))
    if und: # parts of the program that were not taken along: reaching one ends the native run with code 99
        st = out + '.und.s'
        with open(st, 'w') as f:
            f.write('.text\n')
            for u in und: f.write('.globl "%s"\n"%s":\n call sx_undefined\n .skip 24\n' % (u, u))
        rc, txt = B.run1(base + [st] + tail)
        if rc: raise RuntimeError('native link failed\n' + txt[-3000:])

def native_run(exe, entry, rec, path, timeout=20):
    with open(path, 'w') as f:
        for n, v in rec['inputs']: f.write('%s %s\n' % (n.replace(' ', '_'), v))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:alloc_dealloc_mismatch=0', GLIBCXX_FORCE_NEW='1', HOME='/')
    try: r = subprocess.run([exe, entry, path], capture_output=True, timeout=timeout, env=env, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired: return 'timeout', ''
    return r.returncode, r.stdout.decode(errors='replace') + r.stderr.decode(errors='replace')[-3000:]

class NoAnswer(Exception): pass

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('--property', required=True); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--entry', action='append'); ap.add_argument('--verbose', '-v', action='store_true'); ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args(); t0 = time.time(); pid = a.property; tier = 1 if a.tier == 'thorough' else 0
    ev = {'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking'}
    rc = 2; known_hits = set(); viol = []
    try: rc = run(a, pid, tier, ev, known_hits, viol, t0)
    except NoAnswer as e: print('NO-ANSWER property=%s %s' % (pid, e))
    except RuntimeError as e: print('NO-ANSWER property=%s build: %s' % (pid, str(e)[:6000]))
    ev['wall_s'] = round(time.time() - t0, 2)
    if 'coverage' in ev:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', pid + '.json'); json.dump(ev, open(p + '.tmp', 'w'), indent=1); os.replace(p + '.tmp', p)
    sys.exit(rc)

def run(a, pid, tier, ev, known_hits, viol, t0):
    spec = specs.SPECS[pid]; log = lambda *x: print(*x, flush=True)
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    r = subprocess.run(['bash', os.path.join(VERIF, 'engine', 'build.sh'), os.path.join(BUILD, 'engine')], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('engine: ' + r.stderr[-2000:])
    B.make_includes(BUILD)
    work = os.path.join(BUILD, 'w-%s-%d' % (pid, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try: return run2(a, pid, tier, ev, known_hits, viol, t0, spec, log, work)
    finally:
        if os.environ.get('SX_KEEP'): shutil.copy(os.path.join(work, 'm0.bc'), os.environ['SX_KEEP'])
        shutil.rmtree(work, ignore_errors=True)

def known_list(pid):
    p = os.path.join(VERIF, 'known_findings.json'); L = json.load(open(p)) if os.path.exists(p) else []
    return {k['id']: k for k in L if k.get('property') == pid and k.get('status') == 'known'}

def run2(a, pid, tier, ev, known_hits, viol, t0, spec, log, work):
    groups = spec['groups']; ents = []; results = []; reasons = []; validated = 0; mism = []
    samples_rec = []; fnset = set(); bound_txt = []; KL = known_list(pid); tb = 0
    for gi, g in enumerate(groups):
        es = [e for e in g['entries'] if (tier or not e.get('thorough_only')) and (not a.entry or e['name'] in a.entry)]
        if not es: continue
        defs = g.get('defs', []); srcs = ['h:' + h for h in g['harness']] + g['sources']
        tc = time.time(); bcs = compile_all(srcs + ['rt:rt'], 'bc', tier, defs); mod = os.path.join(work, 'm%d.bc' % gi)
        rc, txt = B.run1([SYMX, 'link', mod, ','.join(e['name'] for e in es)] + bcs)
        if rc: raise RuntimeError(txt[-3000:])
        tb += time.time() - tc
        # native objects are compiled while the exploration runs (it rarely uses all cores)
        exe = os.path.join(work, 'n%d' % gi); nat = {}
        def build_native():
            try: link_native(g, compile_all(srcs + ['h:sx_native'], 'o', tier, defs), exe, False)
            except Exception as e: nat['err'] = e
        th = threading.Thread(target=build_native)
        if not a.no_native: th.start()
        byopt = {}
        for e in es: byopt.setdefault(tuple(e.get('opts_t' if tier and 'opts_t' in e else 'opts', [])), []).append(e)
        for opts, L in byopt.items():
            tmo = max(e.get('timeout', 300 if not tier else 1800) for e in L)
            cmd = [SYMX, 'run', mod, '--out', work, '--procs', str(NPROC), '--timeout', str(tmo)] + list(opts)
            for e in L: cmd += ['--entry', e['name']]
            pr = subprocess.run(cmd, capture_output=True, text=True)
            if a.verbose: sys.stderr.write(pr.stderr[-6000:])
            got = {}
            for line in pr.stdout.splitlines():
                try: s = json.loads(line); got[s['entry']] = s
                except ValueError: pass
            for e in L:
                s = got.get(e['name'])
                if not s:
                    init = ''
                    ip = os.path.join(work, 'init.jsonl')
                    if os.path.exists(ip): init = open(ip).read()[:500]
                    reasons.append('%s: engine gave no result: %s %s' % (e['name'], pr.stderr[-800:], init)); continue
                s['group'] = gi; s['spec'] = e; s['exe'] = exe; s['g'] = g; s['srcs'] = srcs; s['defs'] = defs; s['mod'] = mod; s['opts'] = list(opts); results.append(s)
        if not a.no_native:
            th.join()
            if 'err' in nat: raise nat['err']
    # ---- evaluate
    tot = dict(paths=0, forks=0, queries=0, solver_us=0, instructions=0, asserts=0, assert_queries=0, sym_branches=0, sched_steps=0, cache_hits=0, known=0)
    for s in results:
        e = s['spec']; name = e['name']
        for k in tot: tot[k] += s[k]
        fnset.update(s['functions'])
        recs = []
        p = os.path.join(work, name + '.jsonl')
        if os.path.exists(p): recs = [json.loads(l, strict=False) for l in open(p, errors='replace') if l.strip()]
        if a.verbose: log('  %s: %s' % (name, {k: s[k] for k in s if k in ('paths', 'ok', 'assume', 'violations', 'errors', 'known', 'queries', 'solver_us', 'max_query_us', 'instructions', 'wall_s', 'reach', 'stopped', 'timeout')}))
        confirmed = False
        cand = [r for r in recs if r['kind'] in ('violation', 'error')]
        for r in cand:
            if r['kind'] == 'violation' or not confirmed:
                if a.no_native: log('  UNREPLAYED %s %s: %s %s' % (r['kind'], name, r['msg'], r.get('inputs'))); continue
                c = confirm(a, pid, s, r, work, tier)
                if a.verbose: log('  %s %s: %s -> %s\n     inputs %s' % (r['kind'], name, r['msg'][:600], c, r.get('inputs')))
                if c: viol.append((name, r, c)); confirmed = True; break
        if not confirmed:
            if s['violations']: reasons.append('%s: counterexample not reproduced natively: %s' % (name, [r['msg'][:300] for r in cand][:2]))
            if s['errors']: reasons.append('%s: engine errors: %s' % (name, sorted(set(r['msg'][:400] for r in cand if r['kind'] == 'error'))[:3]))
            if s['timeout']: reasons.append('%s: exploration did not finish in time' % name)
            for lab in e.get('reach', []):
                if not s['reach'].get(lab): reasons.append('%s: vacuous: label %r never reached' % (name, lab))
            if s['ok'] + s['known'] == 0: reasons.append('%s: no complete path' % name)
        # known findings
        for r in recs:
            if r['kind'] == 'known':
                kid = r['msg'].split(' @')[0]
                if kid in KL: known_hits.add(kid)
                else: reasons.append('%s: finding %s is not listed in known_findings.json' % (name, kid))
        # native validation of sampled complete paths
        if not a.no_native and not confirmed:
            for i, r in enumerate([r for r in recs if r['kind'] == 'ok'][:12]):
                if r.get('nomodel'): continue
                rc, out = native_run(s['exe'], name, r, os.path.join(work, 'in.txt'))
                obs = [l.split(' ')[1:] for l in out.splitlines() if l.startswith('OBS ')]
                want = [[n.replace(' ', '_'), v] for n, v in r['obs']]
                bad = rc != 0 or len(obs) != len(want) or any(w[1] is not None and (o[-1] != w[1]) for o, w in zip(obs, want))
                if bad and rc == 97 or rc in (134, 139, 'timeout') or (isinstance(rc, int) and rc < 0):
                    # the real code fails where the model passed: report it (concrete, reproduced)
                    viol.append((name, dict(r, msg='native run of a sampled path fails: ' + out[-300:]), ('native', rc, out[-2000:]))); break
                if bad: mism.append('%s: native run of sampled path disagrees (rc=%s): %s want %s' % (name, rc, out[-300:], want[:5]))
                else: validated += 1
                if len(samples_rec) < 8: samples_rec.append({'entry': name, 'inputs': r['inputs'][:24], 'native': 'agrees' if not bad else 'differs'})
    reasons += mism[:3]
    ev['coverage'] = {
        'states': max(1, tot['paths']), 'transitions': max(1, tot['forks'] + tot['sched_steps']), 'traces_validated_against_impl': validated, 'samples': samples_rec or [{'note': 'none'}],
        'technique': 'symbolic execution of LLVM IR compiled from /repo (fork per feasible branch, SMT via Z3)',
        'bounds': spec.get('bounds_t' if tier else 'bounds', spec.get('bounds', '')), 'outside': spec.get('outside', ''),
        'functions_encoded': sorted(f for f in fnset if not f.startswith(('std::', '__gnu', 'sx_', 'void std::', 'bool std::')))[:400], 'n_functions': len(fnset),
        'queries': tot['queries'], 'solver_s': round(tot['solver_us'] / 1e6, 3), 'assertions': tot['asserts'], 'assert_queries': tot['assert_queries'], 'paths': tot['paths'], 'ir_instructions': tot['instructions'],
        'entries': [{k: s[k] for k in ('entry', 'paths', 'ok', 'assume', 'known', 'violations', 'errors', 'queries', 'solver_us', 'max_query_us', 'wall_s', 'reach', 'timeout')} for s in results],
        'complete': not reasons, 'build_s': round(tb, 1)}
    ev['assumptions'] = spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS
    for k in sorted(known_hits): log('KNOWN-FINDING: property=%s %s' % (pid, KL[k]['what']))
    if viol:
        vd = []
        for name, r, c in viol:
            path = os.path.join(VERIF, 'evidence', 'replay-%s-%s.json' % (pid, name))
            json.dump({'property': pid, 'tier': a.tier, 'entry': name, 'message': r['msg'], 'inputs': r['inputs'], 'confirmed': c[0], 'rc': c[1], 'output': c[2][-3000:], 'how': 'python3 tools/replay.py <this file>'}, open(path, 'w'), indent=1)
            log('VIOLATION property=%s replay=%s' % (pid, path)); log('  entry %s: %s' % (name, r['msg'][:500])); log('  inputs: %s' % r['inputs'][:40]); vd.append({'entry': name, 'message': r['msg'][:500], 'replay': path})
        ev['violations'] = len(vd); ev['coverage']['violation_details'] = vd
        return 1
    missing = [k for k in KL if k not in known_hits and not a.entry]
    if missing: log('note: listed finding(s) not observed: %s' % missing)
    if reasons:
        raise NoAnswer('; '.join(reasons)[:4000])
    log('OK property=%s tier=%s entries=%d paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs' % (pid, a.tier, len(results), tot['paths'], tot['queries'], tot['solver_us'] / 1e6, validated, time.time() - t0))
    return 0

ASAN_LOCK = {}
def confirm(a, pid, s, r, work, tier):
    if not r.get('inputs') and r.get('inputs') != []: return None
    def judge(rc, out, kind):
        if rc == 97: return (kind + ': assertion fails', rc, out)
        if rc == 'timeout' and 'no termination' in r['msg'] or rc == 'timeout' and 'deadlock' in r['msg']: return (kind + ': does not terminate', rc, out)
        if isinstance(rc, int) and (rc < 0 or rc in (134, 139)): return (kind + ': crash', rc, out)
        if rc == 66: return (kind + ': address sanitizer', rc, out)
        return None
    rc, out = native_run(s['exe'], s['entry'], r, os.path.join(work, 'in.txt'))
    if a.verbose: print('   native rc', rc, out[-400:])
    j = judge(rc, out, 'native')
    if j: return j
    if r['kind'] == 'error': return None
    if 'memory' in r['msg'] or 'unreachable' in r['msg'] or True:
        exe = s['exe'] + '.asan'
        if exe not in ASAN_LOCK:
            link_native(s['g'], compile_all(s['srcs'], 'asan', tier, s['defs']) + compile_all(['h:sx_native'], 'o', tier, ['-DSX_NO_NEW'] ), exe, True) if False else link_asan(s, exe, tier)
            ASAN_LOCK[exe] = 1
        rc, out = native_run(exe, s['entry'], r, os.path.join(work, 'in.txt'), 60)
        if a.verbose: print('   asan rc', rc, out[-1500:])
        j = judge(rc, out, 'native+asan')
        if j: return j
    if s['spec'].get('threads'): # the schedule is part of the counterexample: re-run the real code's IR with every input and scheduling decision fixed
        w2 = os.path.join(work, 'rp'); os.makedirs(w2, exist_ok=True); f = os.path.join(w2, 'in.txt')
        with open(f, 'w') as fh:
            for n, v in r['inputs']: fh.write('%s %s\n' % (n.replace(' ', '_'), v))
        pr = subprocess.run([SYMX, 'run', s['mod'], '--out', w2, '--procs', '1', '--timeout', '120', '--replay', f, '--entry', s['entry']] + s['opts'], capture_output=True, text=True)
        try: got = [json.loads(l, strict=False) for l in open(os.path.join(w2, s['entry'] + '.jsonl'), errors='replace') if l.strip()]
        except OSError: got = []
        bad = [g for g in got if g['kind'] == 'violation' and g['inputs'][:len(r['inputs'])] == r['inputs']]
        if a.verbose: print('   schedule replay:', [g['msg'][:200] for g in got][:3])
        if bad: return ('schedule replayed with fixed inputs on the IR of the real code', 0, bad[0]['msg'])
    return None

def link_asan(s, exe, tier):
    objs = compile_all(s['srcs'] + ['h:sx_native'], 'asan', tier, s['defs'] + ['-DSX_NO_NEW'])
    link_native(s['g'], objs, exe, True)

if __name__ == '__main__': main()
