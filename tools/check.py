#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: prove every obligation of the property on the current source; on failure search for a
failing history on the real code.  exit 0: holds; exit 1 with a VIOLATION line: broken."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, jobs as J

CPUS = max(2, min(8, os.cpu_count() or 8))
TRUSTED = [
    'CBMC 6.11.0: goto-cc front end, goto-instrument (dynamic frames, loop contracts, call replacement), bit-precise C semantics for a 64 bit little-endian machine, SAT back ends CaDiCaL and MiniSat2',
    'specification spec/mb_spec.h (Modbus function code limits, CRC-16/MODBUS bit by bit, response layout), written independently of the code',
    'environment contract in proof/*.c and proof/master_state.h: the driver writes received bytes only into the buffer it was given and never beyond byte 255, reports T1.5 before T3.5 of the same frame, and runs between two polls (or, for the end of a transmission, also inside send); the application gives valid pointers',
    'register_app_data_* and the accessors are called with an index inside their table (precondition; established by proof for every call inside the library)',
]
DEF_TIME = {'quick': dict(proof=400, fallback=240, confirm=150, cross=10), 'thorough': dict(proof=560, fallback=200, confirm=150, cross=60)}

def weight(j):
    return (('fc15' in j.name) * 4 + ('request' in j.name) * 2 + j.name.startswith('slave_fc') + j.name.startswith('crc'))

def run_jobs(js, deadline, workers=CPUS):
    out = [None] * len(js)
    def go(i):
        left = deadline - time.time()
        if left < 3:
            out[i] = dict(name=js[i].name, status='timeout', obligations=0, discharged=0, failed=[], reach_ok=0, reached=[], reach_bad=[], group=js[i].group,
                          detail='not started', loops=[], wall=0.0, solver=0.0, functions=list(js[i].functions), bounded=js[i].bounded, cmd='')
        else:
            out[i] = js[i].execute(timeout=min(left, max(js[i].timeout, 300)))
    order = sorted(range(len(js)), key=lambda i: -weight(js[i]))
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, order))
    # a group of jobs splits one case distinction: every reachability goal must be met by one of them
    groups = {}
    for r in out:
        if r['group']:
            groups.setdefault(r['group'], []).append(r)
    for rs in groups.values():
        met = set(x for r in rs for x in r['reached'])
        for r in rs:
            miss = r['reach_bad'] = [x for x in r['reach_bad'] if x not in met]
            if r['status'] == 'proved' and (miss or not r['reach_ok']):
                r['status'] = 'vacuous'
                r['detail'] = 'unreachable: %s' % miss
    return out

def definitive(pid, r, job):
    """failed obligations that say by themselves that the property is broken"""
    out = []
    if any(x.startswith('REACH: uses') for x in r['reach_bad']):
        return out          # the code was restructured around a function whose contract is used: nothing follows
    if any('.no-body.' in f['property'] for f in r['failed']):
        return out          # a function outside the job is called: nothing follows
    for f in r['failed']:
        if f['status'] != 'FAILURE':
            continue
        if re.match('C0*%d:' % int(pid[1:]), f['description']):
            out.append(f)
        elif job.checks and '/proof/' not in f['where'] and '/spec/' not in f['where'] and not f['where'].startswith(('<', '?')) and \
                re.search(r'\.(pointer_dereference|array_bounds|overflow|undefined-shift|pointer_arithmetic|division-by-zero|enum-range-check|bounds|assigns)\b', f['property']) and \
                'unwind' not in f['property'] and 'assigns' not in f['property']:
            out.append(f)
        elif job.enforce and re.search(r'\.(postcondition|assigns)\b', f['property']):
            out.append(f)
    return out

# ------------------------------------------------------------------ native confirmation
NAT = {}
NAT_LOCK = threading.Lock()
def native_build(d, unit, san):
    key = (unit, san)
    with NAT_LOCK:
        if key in NAT:
            return NAT[key]
        w = '%s/nat_%d%d' % (d, unit, san)
        os.makedirs(w)
        fl = (['-DUNIT_TEST'] if unit else []) + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if san else []) + ['-g', '-O1', '-w'] + vlib.INC
        rc, o, _ = vlib.run(['gcc', '-fexceptions', '-c', *fl, *vlib.sources()], 100, cwd=w)
        if rc == 0:
            rc, o, _ = vlib.run(['g++', '-std=c++17', *fl, vlib.VERIF + '/native/sim.cpp'] + [w + '/' + x for x in sorted(os.listdir(w)) if x.endswith('.o')] + ['-o', w + '/sim'], 100)
        NAT[key] = w + '/sim' if rc == 0 else None
        if rc != 0:
            print('native build failed: ' + o[-800:])
        return NAT[key]

def literals():
    vals = set()
    for d, _, fs in os.walk(vlib.SRC):
        for f in fs:
            if f.endswith(('.c', '.h')):
                t = re.sub(r'/\*.*?\*/|//[^\n]*', '', open(d + '/' + f, errors='replace').read(), flags=re.S)
                for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?=[uUlL]*\b)', t):
                    try:
                        v = int(m.group(1), 0)
                    except ValueError:
                        continue
                    if v <= 65535:
                        vals.add(v)
    return vals

def trace_dictionary(js, results, deadline, workers=CPUS):
    """values and frames of the verifier's counterexamples"""
    vals, frames = set(), []
    todo = [(j, r) for j, r in zip(js, results) if r['status'] == 'failed' and not r.get('no_trace')][:6]
    def go(x):
        j, r = x
        props = [f['property'] for f in r['failed'] if f['status'] == 'FAILURE'][:3]
        k = vlib.Job(**{a: getattr(j, a) for a in ('name', 'harness', 'defs', 'skip', 'unit', 'replace', 'annotate', 'unwind', 'unwindset', 'checks', 'entry', 'enforce',
                                                      'nondet_static', 'remove_fp', 'solver', 'loops', 'group', 'functions')},
                     cbmc=list(j.cbmc) + sum((['--property', p] for p in props), []))
        return k.execute(timeout=max(5, min(90, deadline - time.time())), trace=True)
    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(go, todo):
            for f in r['failed']:
                arr = {}
                for st in f.get('trace', []):
                    if st.get('stepType') != 'assignment':
                        continue
                    v = st.get('value', {})
                    lhs = st.get('lhs', '')
                    m = re.match(r'^(.*)\[(\d+)[a-z]*\]$', lhs)
                    try:
                        n = int(v.get('binary', ''), 2)
                    except ValueError:
                        continue
                    if v.get('width', 0) > 32:
                        continue
                    if m and int(m.group(2)) < 256 and n < 256:
                        arr.setdefault(m.group(1), {})[int(m.group(2))] = n
                    elif n <= 65535:
                        vals.add(n)
                for a in arr.values():
                    if len(a) > 2:
                        frames.append(bytes(a.get(i, 0) for i in range(min(253, max(a) + 1))))
                        vals.update(256 * a[i] + a[i + 1] for i in a if i + 1 in a and i < 8)
    return set(list(vals)[:400]), frames[:20]

def native(pid, seconds, seed, d, vals, frames, workers=CPUS, stop=None):
    """returns the output of the first run that finds a failing history, or None; and what was tried"""
    dic = d + '/dict%d' % int(time.time() * 1000)
    with open(dic, 'w') as f:
        f.write('\n'.join(map(str, sorted(vals))) + '\n' + '\n'.join('x' + x.hex() for x in frames) + '\n')
    san = pid in ('C09', 'C22')
    kinds = [(1, san), (0, san)] + ([(1, False), (0, False)] if san else [])
    sims = [s for s in (native_build(d, *k) for k in kinds) if s]
    if not sims:
        return None, 0
    ps = [subprocess.Popen([sims[i % len(sims)], pid, str(seed * 100 + i), str(seconds), dic], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
          for i in range(workers)]
    outs = [None] * workers
    found = threading.Event()
    def wait(i):
        outs[i] = ps[i].communicate()[0].decode(errors='replace')
        if 'FOUND ' in outs[i]:
            found.set()
    ts = [threading.Thread(target=wait, args=(i,)) for i in range(workers)]
    for t in ts:
        t.start()
    end = time.time() + seconds + 60
    while time.time() < end and any(t.is_alive() for t in ts) and not found.is_set() and not (stop and stop.is_set()):
        time.sleep(0.2)
    for p in ps:
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
    for t in ts:
        t.join(5)
    for i, o in enumerate(outs):
        if o and 'FOUND ' in o:
            return dict(output=o, cmd='%s config of the library%s, sim %s %d %s DICT' % ('unit test' if sims[i % len(sims)] == NAT.get((1, san)) else 'default',
                        ', sanitizers' if san else '', pid, seed * 100 + i, seconds)), 0
    return None, sum(int(m) for o in outs if o for m in re.findall(r'no failing history in (\d+)', o))

def state_vars(d):
    """variables with static lifetime that the code can change"""
    w = d + '/state'
    os.makedirs(w)
    rc, o, _ = vlib.run(['gcc', '-c', '-O0', '-w', '-DUNIT_TEST', *vlib.INC, *vlib.sources()], 60, cwd=w)
    out = set()
    if rc == 0:
        rc, o, _ = vlib.run(['nm', *[w + '/' + x for x in sorted(os.listdir(w))]], 30)
        for m in re.finditer(r' [bBdDC] (\S+)', o):
            out.add(re.sub(r'\.\d+$', '', m.group(1)))
    return out

def known_findings(pid):
    out = []
    p = vlib.VERIF + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) obligation="([^"]*)" (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in DEF_TIME else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1) & 0xFFFF
    T = DEF_TIME[tier]
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='mbcheck.')
    try:
        return decide(pid, tier, seed, T, t0, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def decide(pid, tier, seed, T, t0, d):
    js = J.jobs(pid, tier)
    res = run_jobs(js, t0 + T['proof'])
    bad = [(j, r) for j, r in zip(js, res) if r['status'] != 'proved']
    for r in res:
        print('%-40s %-9s %5d/%-5d %6.1f s %s' % (r['name'], r['status'], r['discharged'], r['obligations'], r['wall'], r['detail'][:160].replace('\n', ' ')))
        for f in r['failed'][:4]:
            print('      %s: %s at %s' % (f['property'], f['description'], f['where']))
    vals, frames = literals(), []
    fb, fbj = [], []
    fails, confirmed, tried = [], None, 0
    if not bad:
        confirmed, tried = native(pid, T['cross'], seed, d, vals, frames)
    else:
        known = set(json.load(open(vlib.VERIF + '/tools/state_vars.json')))
        new_state = sorted(state_vars(d) - known)
        if new_state:
            print('state the contracts do not know: ' + ', '.join(new_state))
        # 1. real code, numbers of the source; 2. with the values of the counterexamples
        confirmed, n = native(pid, T['confirm'] // 6, seed, d, vals, frames)
        tried += n
        if not confirmed:
            todo = [(j, o) for j, r in bad for o in j.fallback]
            half = CPUS // 2 if todo else CPUS
            box = dict(n=(None, 0), v=set(), f=[])
            stop = threading.Event()
            def search():
                box['v'], box['f'] = trace_dictionary([j for j, r in bad], [r for j, r in bad], time.time() + 100, half)
                if not stop.is_set():
                    box['n'] = native(pid, T['confirm'], seed + 1, d, vals | box['v'], box['f'], half, stop)
            th = threading.Thread(target=search)
            th.start()
            if todo:
                for j, o in todo:
                    a = {x: getattr(j, x) for x in ('name', 'harness', 'defs', 'skip', 'unit', 'replace', 'annotate', 'unwind', 'unwindset', 'checks', 'entry', 'timeout',
                                                    'enforce', 'nondet_static', 'remove_fp', 'solver', 'cbmc', 'loops', 'functions', 'bounded')}
                    a.update(o)
                    a['name'] += '_without_loop_contracts'
                    fbj.append(vlib.Job(**a))
                fb = run_jobs(fbj, time.time() + T['fallback'], CPUS - half)
                for r in fb:
                    print('%-40s %-9s %5d/%-5d %6.1f s %s' % (r['name'], r['status'], r['discharged'], r['obligations'], r['wall'], r['detail'][:160].replace('\n', ' ')))
                    for f in r['failed'][:4]:
                        print('      %s: %s at %s' % (f['property'], f['description'], f['where']))
                if all(j.fallback for j, r in bad) and all(r['status'] == 'proved' and not r['bounded'] for r in fb):
                    stop.set()      # the rewritten code is proved by unrolling, for every length
            th.join()
            confirmed, n = box['n']
            vals, frames = vals | box['v'], box['f']
            tried += n
        for j, r in [x for x in bad if not x[0].annotate and x[0].repo] + list(zip(fbj, fb)):
            if not new_state:
                fails += [(r['name'], f) for f in definitive(pid, r, j)]
    known_f = known_findings(pid)
    shown = set()
    for o, what in known_f:
        hit = [x for x in fails if x[1]['description'] == o]
        if hit:
            shown.add(o)
            fails = [x for x in fails if x not in hit]
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
    violated = bool(confirmed) or bool(fails)
    if shown and confirmed and not fails:
        violated = False
    write_evidence(pid, tier, seed, t0, js, res, fb, tried, violated)
    if not violated:
        for j, r in bad:
            print('not proved, checked by the bounded search and fallback only: %s (%s)' % (r['name'], r['status']))
        print('%s: %s' % (pid, 'every obligation proved' if not bad else 'no violation found'))
        return 0
    rd = vlib.VERIF + '/evidence/replay'
    os.makedirs(rd, exist_ok=True)
    path = '%s/%s.txt' % (rd, pid)
    with open(path, 'w') as f:
        f.write('property %s\n\nfailed obligations\n' % pid)
        for j, r in bad + list(zip(fbj, fb)):
            if r['status'] != 'proved':
                f.write('%s: %s %s\n   %s\n' % (r['name'], r['status'], r['detail'], r['cmd']))
                for x in r['failed']:
                    f.write('   %s [%s] %s at %s\n' % (x['property'], x['status'], x['description'], x['where']))
        if confirmed:
            f.write('\nfailing history on the real code (native/sim.cpp, %s)\n%s\n' % (confirmed['cmd'], confirmed['output']))
            f.write('\nDICT: %s %s\n' % (sorted(vals), [x.hex() for x in frames]))
        else:
            f.write('\nno failing history found on the real code in %d histories\n' % tried)
    if confirmed:
        print(confirmed['output'][:1500])
    print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found'))
    return 1

def write_evidence(pid, tier, seed, t0, js, res, fb, tried, violated):
    ob, di = sum(r['obligations'] for r in res), sum(r['discharged'] for r in res)
    fun = sorted(set(f for r in res for f in r['functions']))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=int(violated),
              coverage=dict(obligations=ob, discharged=di, checker_cmd='python3 tools/check.py %s %s' % (pid, tier), trusted_base=TRUSTED,
                            functions_under_contract=fun, back_ends=sorted(set('cbmc/' + j.solver for j in js)), solver_s=round(sum(r['solver'] for r in res), 2),
                            jobs=[dict(name=r['name'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'], reachable_cases=r['reach_ok'],
                                       loop_contracts=r['loops'], wall_s=round(r['wall'], 2), solver_s=round(r['solver'], 2), cmd=r['cmd']) for r in res],
                            bounded_fallback=[dict(name=r['name'], status=r['status'], bound=r['bounded'] or 'none (complete for the default configuration)') for r in fb],
                            native_histories=tried),
              assumptions=TRUSTED[2:])
    os.makedirs(vlib.VERIF + '/evidence', exist_ok=True)
    with open(vlib.VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)

if __name__ == '__main__':
    sys.exit(main())
