#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property by symbolic execution of the real code.

exit 0: held for every input within the stated bounds; 1: VIOLATION (replayed); 2: no answer."""
import sys, os, re, json, time, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f'{V}/tools')
import build
from concurrent.futures import ThreadPoolExecutor
B = build.B
LIB = f'{B}/lib/libdyndall.so'

def parse_harness(name):
    """//@ lines of a harness: property, entries with required reach labels, bounds, options."""
    h = {'name': name, 'entries': [], 'bounds': [], 'assume': [], 'opts': {}}
    for l in open(f'{V}/harness/{name}.cpp'):
        m = re.match(r'\s*//@(\w+)\s*(.*)', l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'property': h['property'] = v
        elif k == 'bound': h['bounds'].append(v)
        elif k == 'assume': h['assume'].append(v)
        elif k == 'opt': a, b = v.split(None, 1); h['opts'][a] = b
        elif k == 'entry':
            f = v.split(); e = {'name': f[0], 'reach': [], 'tier': 'quick'}
            for x in f[1:]:
                a, b = x.split('=', 1)
                if a == 'reach': e['reach'] = b.split(',')
                else: e[a] = b
            h['entries'].append(e)
    return h

def harness_args(d): return ['--lib', LIB, '--libdir', f'{B}/lib', '--harness', f'{d}/h.so', '--hbc', f'{d}/p.bc', '--hidx', f'{d}/idx']
def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, w, v in inputs: f.write(f'{n}\t{v}\n')
def run(cmd, timeout, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e: return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

def demangle(names):
    try: return subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True, timeout=60).stdout.split('\n')
    except Exception: return names

def confirm(h, d, v, tier, inp):
    """Replay a counterexample against the real code. Returns (confirmed, description)."""
    env = dict(os.environ, MALLOC_PERTURB_='165')
    rc, out = run([f'{B}/engine/replay', LIB, f'{d}/h.so', v['entry'], inp, str(tier)], 40, env=env)
    last = out.strip().split('\n')[-1][:300] if out.strip() else ''
    if rc == 10: return True, f'native run: {last}'
    if rc == 11: return True, f'native run: {last}'
    if rc == 'timeout': return True, 'native run: does not terminate within 40 s'
    if isinstance(rc, int) and rc < 0: return True, f'native run: killed by signal {-rc} {last}'
    if v['kind'] in ('memory', 'null', 'arith', 'stack', 'crash'):
        o = tempfile.mkdtemp(dir=f'{B}/out'); 
        rc2, out2 = run([f'{B}/engine/symrun'] + harness_args(d) + ['--out', o, '--entries', v['entry'], '--replay', inp, '--tier', str(tier), '--deadline', '60', '--maxsteps', h['opts'].get('maxsteps', '60000000')], 120)
        vs = [json.loads(x) for x in open(f'{o}/violations.jsonl')] if os.path.exists(f'{o}/violations.jsonl') else []
        shutil.rmtree(o, ignore_errors=True)
        if any(x['kind'] == v['kind'] for x in vs): return True, f'concrete re-execution of the compiled code under the memory checker: {vs[0]["msg"]} (native run ended with {rc})'
    return False, f'not reproduced (native run ended with {rc} {last})'

def validate(hd, wits, tier, out):
    """Replay path witnesses natively; returns (agreed, violations, disagreements)."""
    if not wits: return 0, [], []
    os.makedirs(out, exist_ok=True)
    chunks = [wits[i::8] for i in range(8) if wits[i::8]]
    def one(ci):
        c = chunks[ci]; lf = f'{out}/batch{ci}'
        with open(lf, 'w') as f:
            for i, w in enumerate(c):
                p = f'{out}/w{ci}_{i}'; write_inputs(p, w['inputs']); f.write(f'{w["entry"]}\t{p}\n')
        rc, o = run([f'{B}/engine/replay', LIB, f'{hd}/h.so', '--batch', lf, str(tier)], 300, env=dict(os.environ, MALLOC_PERTURB_='165'))
        res = re.split(r'^CASE \d+$', o, flags=re.M)[1:]
        return list(zip(c, res))
    ok, bad, dis = 0, [], []
    with ThreadPoolExecutor(8) as ex:
        for l in ex.map(one, range(len(chunks))):
            for w, r in l:
                m = re.search(r'COMPLETED ?(.*)', r)
                if 'EXIT 0' in r and m and m.group(1).strip() == w['labels'].strip(): ok += 1
                elif 'EXIT 10' in r or 'EXIT 11' in r or ('SIGNAL' in r and 'SIGNAL 14' not in r): bad.append((w, r.strip()[-300:]))
                else: dis.append((w, r.strip()[-300:]))
    return ok, bad, dis

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    t0 = time.time(); T = 1 if tier == 'thorough' else 0
    names = [n for n in build.all_harnesses() if n == pid or n.startswith(pid + '_')]
    if not names: print(f'no harness for {pid}'); return 2
    hs = [parse_harness(n) for n in names]
    try:
        with build.Lock():
            build.build_engine(); build.build_lib()
            with ThreadPoolExecutor(4) as ex: dirs = list(ex.map(build.build_harness, names))
    except build.BuildError as e:
        print(f'BUILD-ERROR {e}'); return 2
    tb = time.time() - t0
    known = json.load(open(f'{V}/known_findings.json')) if os.path.exists(f'{V}/known_findings.json') else {'findings': []}
    known = [k for k in known['findings'] if k['property'] == pid]
    out = f'{B}/out/{pid}.{tier}'; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    rep = f'{B}/replays'; os.makedirs(rep, exist_ok=True)
    problems, viols, knownhit = [], [], {}
    tot = dict(paths=0, assumed_out=0, branches=0, forks=0, asserts=0, asserts_sym=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, fp_queries=0, cache_hits=0, solver_s=0.0, validated=0, processes=0)
    funcs, ents, samples, bounds, assume = set(), [], [], [], []
    for h, d in zip(hs, dirs):
        bounds += h['bounds']; assume += h['assume']
        es = [e for e in h['entries'] if (e['tier'] == 'quick' or (T and e['tier'] == 'thorough')) and (not only or e['name'] in only)]
        if not es: continue
        o = f'{out}/{h["name"]}'; os.makedirs(o)
        dl = float(h['opts'].get('deadline', 400)) if not T else float(h['opts'].get('deadline_thorough', 3600))
        cmd = [f'{B}/engine/symrun'] + harness_args(d) + ['--out', o, '--entries', ','.join(e['name'] for e in es), '--jobs', '8', '--deadline', str(dl), '--qtimeout', h['opts'].get('qtimeout', '60'), '--maxsteps', h['opts'].get('maxsteps', '60000000'), '--maxpaths', '5000000', '--tier', str(T)]
        rc, so = run(cmd, dl + 60)
        try: r = json.load(open(f'{o}/result.json'))
        except Exception: problems.append(f'{h["name"]}: engine failed ({rc}): {so[-500:]}'); continue
        if rc != 0: problems.append(f'{h["name"]}: engine exit {rc}: {so[-500:]}')
        if r['stop']: problems.append(f'{h["name"]}: exploration stopped early (reason {r["stop"]}: 1 deadline, 2 path limit, 3 too many violations)')
        if r['lost'] or r['bad']: problems.append(f'{h["name"]}: {r["lost"]} paths lost, {r["bad"]} processes failed: {so[-300:]}')
        for k in ('queries', 'sat', 'unsat', 'unknown', 'fp_queries', 'cache_hits', 'solver_s', 'processes'): tot[k] += r[k]
        if os.path.exists(f'{o}/functions.txt'): funcs |= {l.strip() for l in open(f'{o}/functions.txt')}
        vs = [json.loads(l) for l in open(f'{o}/violations.jsonl')] if os.path.exists(f'{o}/violations.jsonl') else []
        inc = open(f'{o}/incomplete.log').read().split('\n')[:-1] if os.path.exists(f'{o}/incomplete.log') else []
        kn = {(k['entry'], k['kind'], k['msg']) for k in known}
        hadviol = set()
        # replay counterexamples, one per (entry, kind, message), up to 4 attempts each
        byk = {}
        for v in vs: byk.setdefault((v['entry'], v['kind'], v['msg']), []).append(v)
        def handle(item):
            k, l = item
            for n, v in enumerate(l):
                f = f'{rep}/{pid}.{re.sub("[^A-Za-z0-9]", "_", k[0])}.{abs(hash(k)) % 100000}.{n}.inputs'; write_inputs(f, v['inputs'])
                c, why = confirm(h, d, v, T, f)
                if c: return k, v, f, why
            return k, l[0], None, why
        with ThreadPoolExecutor(6) as ex: conf = list(ex.map(handle, byk.items()))
        for k, v, f, why in conf:
            hadviol.add(k[0])
            if f is None: problems.append(f'{h["name"]}/{k[0]}: counterexample [{k[1]}] {k[2]} {why}; inputs {v["inputs"][:20]}; trace {v["trace"][:300]}'); continue
            if k in kn: knownhit.setdefault(k, (v, f, why)); continue
            viols.append((h, d, v, f, why))
        for e in es:
            s = next((x for x in r['entries'] if x['name'] == e['name']), None)
            if s is None: problems.append(f'{h["name"]}/{e["name"]}: not run'); continue
            for k in ('paths', 'assumed_out', 'branches', 'forks', 'asserts', 'asserts_sym', 'steps'): tot[k] += s[k]
            ents.append({k: s[k] for k in ('name', 'paths', 'assumed_out', 'violations', 'asserts', 'asserts_sym', 'branches', 'steps')} | {'reach': s['reach']})
            if s['incomplete']: problems.append(f'{h["name"]}/{e["name"]}: {s["incomplete"]} paths undecided: ' + '; '.join(x for x in inc if x.startswith(e['name']) or x.startswith('unknown'))[:400])
            miss = [x for x in e['reach'] if not s['reach'].get(x)]
            if miss and e['name'] not in hadviol: problems.append(f'{h["name"]}/{e["name"]}: vacuous, never reached {miss}')
            if not s['paths'] and not s['violations']: problems.append(f'{h["name"]}/{e["name"]}: no path completed')
        wits = [json.loads(l) for l in open(f'{o}/witnesses.jsonl')] if os.path.exists(f'{o}/witnesses.jsonl') else []
        per, sel = {}, []
        for w in wits:
            per[w['entry']] = per.get(w['entry'], 0) + 1
            if per[w['entry']] <= (12 if T else 6): sel.append(w)
        ok, bad, dis = validate(d, sel, T, f'{o}/wit')
        tot['validated'] += ok
        for w, why in bad:
            f = f'{rep}/{pid}.{w["entry"]}.native.inputs'; write_inputs(f, w['inputs'])
            viols.append((h, d, {'entry': w['entry'], 'kind': 'native', 'msg': 'the natively compiled code fails on an input the symbolic run accepts', 'inputs': w['inputs'], 'trace': ''}, f, why))
        for w, why in dis: problems.append(f'{h["name"]}/{w["entry"]}: encoding and native run disagree on {w["inputs"][:8]} labels {w["labels"]}: {why}')
        for w in sel[:3]: samples.append({'entry': w['entry'], 'inputs': [[a, c] for a, b, c in w['inputs'][:24]], 'reached': w['labels']})
    dn = sorted(x for x in demangle(sorted(funcs)) if x and 'sym_main' not in x)
    dyn = [x[:180] for x in dn if 'dynd' in x]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': tot['paths'] + tot['assumed_out'], 'transitions': tot['branches'], 'traces_validated_against_impl': tot['validated'], 'samples': samples[:12],
                       'evaluations': tot['asserts'], 'distinct_nontrivial': tot['asserts_sym'],
                       'rule': 'states = execution paths explored to the end, each standing for all inputs satisfying its path condition; transitions = input-dependent branches and assertions decided by the solver; evaluations = property assertions evaluated over all paths, non-trivial when symbolic; traces = solver models of paths re-run natively with the same outcome',
                       'functions_encoded': len(funcs), 'functions_sample': dyn[:150], 'instructions_executed': tot['steps'], 'bounds': bounds,
                       'solver': {'name': 'z3', 'queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'floating_point_queries': tot['fp_queries'], 'cache_hits': tot['cache_hits'], 'seconds': round(tot['solver_s'], 2)},
                       'entries': ents, 'undecided': problems[:20], 'known_findings_hit': len(knownhit)},
          'assumptions': assume + COMMON, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(f'{V}/evidence', exist_ok=True)
    with open(f'{V}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
    for k, (v, f, why) in knownhit.items():
        w = next(x for x in known if (x['entry'], x['kind'], x['msg']) == k)
        print(f'KNOWN-FINDING: property={pid} {w["what"]}')
    print(f'{pid} {tier}: build {tb:.1f}s, {tot["paths"]} paths, {tot["branches"]} decisions, {tot["queries"]} solver queries ({tot["solver_s"]:.1f}s), {tot["asserts"]} assertions, {len(funcs)} functions, {tot["validated"]} witnesses replayed, {time.time()-t0:.1f}s')
    for p in problems[:12]: print('UNDECIDED', p)
    shutil.rmtree(out, ignore_errors=True) if not os.environ.get('VP_KEEP') else None
    if viols:
        for h, d, v, f, why in viols[:8]:
            print(f'  counterexample in {h["name"]}/{v["entry"]}: [{v["kind"]}] {v["msg"]} {v.get("note","")}\n    inputs {[(a, c) for a, b, c in v["inputs"][:24]]}\n    at {v["trace"][:400]}\n    {why}\n    rerun: {B}/engine/replay {LIB} {d}/h.so {v["entry"]} {f} {T}')
        for h, d, v, f, why in viols[:1]: print(f'VIOLATION property={pid} replay={f}')
        return 1
    return 2 if problems else 0

COMMON = ['bitcode compiled by clang 18 -O1 from the current sources stands for the code (the shipped build uses gcc)',
          'x86-64 Linux; round-to-nearest; one thread; allocation never fails',
          'fresh heap memory holds 0xA5 bytes; heap addresses are concrete and never reused',
          'libstdc++ stream formatting in messages runs natively on the values of one model of the path']
if __name__ == '__main__': sys.exit(main())
