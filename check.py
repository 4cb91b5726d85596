#!/usr/bin/env python3
"""check.py <PROPERTY>: decides one property by symbolic execution of /repo's code.

Compiles the harnesses of the property together with /repo's current sources to
LLVM IR, runs the engine (engine/ksym) on every entry point, replays every
counterexample on the natively compiled code, writes evidence/<PROPERTY>.json.
Exit 0: holds within the bounds; 1: violated (VIOLATION line); 2: no answer."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import specs
REPO = '/repo'
CLANG = '/usr/lib/llvm-18/bin/clang++'
IRFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-w', '-fno-pie', '-emit-llvm', '-c']
CONFIG = dict(RISTRA_DOUBLE_PRECISION=1, RISTRA_ENABLE_PYTHON=1, RISTRA_ENABLE_LUA=1, RISTRA_ENABLE_EXCEPTIONS=1, RISTRA_DBC_REQUIRE=1)

def log(*a):
    print(*a, flush=True)

def gen_config(inc, undef=()):
    src = open(f'{REPO}/ristra/ristra-config.h.in').read()
    def rep(m):
        n = m.group(1)
        return f'#define {n}' if n in CONFIG and n not in undef else f'/* #undef {n} */'
    src = re.sub(r'#cmakedefine\s+(\w+)', rep, src)
    src = src.replace('@RISTRA_TEST_TOLERANCE@', '1.0e-14')
    os.makedirs(f'{inc}/ristra', exist_ok=True)
    open(f'{inc}/ristra/ristra-config.h', 'w').write(src)

STOP = [None]   # set to a deadline once a violation is confirmed
def run_stoppable(cmd, deadline):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    out = []
    import threading
    th = threading.Thread(target=lambda: out.append(p.stdout.read())); th.start()
    while p.poll() is None:
        t = time.time()
        if t > deadline or (STOP[0] and t > STOP[0]):
            os.killpg(p.pid, 9); p.wait(); th.join(); return -999, ''.join(out)
        time.sleep(0.02)
    th.join()
    return p.returncode, ''.join(out)

def run(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b''
        return -999, o.decode(errors='replace') if isinstance(o, bytes) else o

class Unit:
    """one harness source file"""
    def __init__(self, prop, u, scratch, tier):
        self.u = u; self.scratch = scratch; self.tier = tier
        self.name = u.get('name', os.path.splitext(os.path.basename(u['src']))[0])
        self.dir = f'{scratch}/{self.name}'; os.makedirs(self.dir, exist_ok=True)
        self.defs = list(u.get('defs', [])) + (['-DTHOROUGH=1'] if tier == 'thorough' else [])
        gen_config(f'{self.dir}/inc', u.get('undef', ()))
        self.inc = [f'-I{self.dir}/inc', f'-I{VERIF}/lib', f'-I{VERIF}/harness', f'-I{REPO}', f'-I{REPO}/ristra'] + u.get('inc', [])
        self.std = u.get('std', 'c++17')
        self.native = None; self.native_log = ''
    def compile_ir(self):
        bcs = []
        srcs = [f'{VERIF}/harness/{self.u["src"]}'] + [f'{REPO}/{x}' for x in self.u.get('repo_srcs', [])] + [f'{VERIF}/harness/{x}' for x in self.u.get('extra_srcs', []) + self.u.get('ir_extra_srcs', [])]
        for i, s in enumerate(srcs):
            o = f'{self.dir}/{i}.bc'
            c = 'clang++'
            extra = self.u.get('irflags', []) if i == 0 or self.u.get('irflags_all') else []
            io = [] if any('shim_io' in x for x in extra) else [f'-I{VERIF}/harness/shim_io'] # the stream models; without them if the code needs more than they have
            rc, out = run([CLANG, f'-std={self.std}', *IRFLAGS, *extra, *io, *self.inc, *self.defs, s, '-o', o])
            if rc and io: rc, out = run([CLANG, f'-std={self.std}', *IRFLAGS, *extra, *self.inc, *self.defs, s, '-o', o])
            if rc: raise RuntimeError(f'cannot compile {s} to IR:\n' + out[-3000:])
            if i == 0 and self.u.get('instrument'):
                rc, out = run([f'{VERIF}/build/instr', o, f'{self.dir}/{i}i.bc'])
                if rc: raise RuntimeError(f'cannot instrument {s}:\n' + out[-3000:])
                o = f'{self.dir}/{i}i.bc'
            bcs.append(o)
        self.bc = f'{self.dir}/all.bc'
        rc, out = run(['llvm-link-18', *bcs, f'{VERIF}/build/support.bc', '-o', self.bc])
        if rc: raise RuntimeError('llvm-link failed:\n' + out[-3000:])
        rc, out = run(['llvm-nm-18', '--defined-only', bcs[0]])
        names = re.findall(r'\bT (h_\w+|t_\w+)', out)
        only = self.u.get('only')
        self.entries = sorted(n for n in names if (n.startswith('h_') or self.tier == 'thorough') and (not only or n in only))
        if not self.entries: raise RuntimeError('no entry points in ' + srcs[0])
    def compile_native(self):
        if self.native is not None: return self.native
        srcs = [f'{VERIF}/harness/{self.u["src"]}'] + [f'{REPO}/{x}' for x in self.u.get('repo_srcs', [])] + [f'{VERIF}/harness/{x}' for x in self.u.get('extra_srcs', [])]
        exe = f'{self.dir}/replay'
        san = self.u.get('sanitize', ['-fsanitize=address,undefined', '-fno-sanitize-recover=bounds,null,alignment', '-fno-sanitize=vptr'])
        objs = []
        for i, s in enumerate(srcs):
            o = f'{self.dir}/n{i}.o'
            if i == 0 and self.u.get('instrument'):  # the same instrumented code, compiled
                rc, out = run([CLANG, '-O1', '-w', '-c', f'{self.dir}/0i.bc', '-o', o])
            else: rc, out = run(['g++', f'-std={self.std}', '-O1', '-g', '-w', '-ftrivial-auto-var-init=pattern', *san, *self.u.get('nativeflags', []), *self.inc, *self.defs, '-c', s, '-o', o])
            if rc: self.native = False; self.native_log = out[-2000:]; return False
            objs.append(o)
        o = f'{self.dir}/rt.o'
        rc, out = run(['g++', '-std=c++17', '-O1', '-g', '-w', f'-I{VERIF}/lib', '-c', f'{VERIF}/lib/replay.cpp', '-o', o])
        if rc == 0: rc, out = run(['g++', *san, '-rdynamic', *objs, o, '-o', exe, '-ldl', '-pthread', *self.u.get('libs', [])])
        if rc: self.native = False; self.native_log = out[-2000:]; return False
        self.native = exe
        return exe

def vary(inputs, k):
    from fractions import Fraction
    r = []
    for i, (n, v) in enumerate(inputs):
        if v[0] == 'r':
            try: x = float(Fraction(v[2:].strip())); v = 'r ' + repr(x * (1 + 0.0123456789 * (k + 1)) + (0.1234567891 + 0.0345678912 * i if k % 2 else 0) + (1.0987654321 if k >= 4 else 0))
            except ValueError: pass
        r.append((n, v))
    return r
def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, v in inputs:
            f.write(f'{n}\t{v[0]}\t{v[2:]}\n')

RENV = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=171:detect_stack_use_after_return=1',
            UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=0')

def replay(exe, entry, path, label='', timeout=20):
    return run(['bash', '-c', 'ulimit -c 0; exec "$0" "$@"', exe, entry, path, label], timeout=timeout, env=RENV, cwd=os.path.dirname(path))

def confirmed(kind, rc, out):
    if rc == 42: return 'an assertion of the harness fails on the compiled code'
    if rc == 99: return 'AddressSanitizer reports an error on the compiled code'
    if rc == 1 and 'runtime error:' in out: return 'UndefinedBehaviorSanitizer reports an error on the compiled code'
    if kind == 'ub' and 'runtime error:' in out: return 'UndefinedBehaviorSanitizer reports an error on the compiled code'
    if rc < 0 and rc != -999 or rc >= 128: return f'the compiled code dies (status {rc})'
    if kind == 'nontermination' and rc == -999: return 'the compiled code does not return within 20 s'
    return None

def brief(names):
    # template arguments are dropped when the full list would be very long
    if sum(map(len, names)) < 100000: return sorted(names)
    out = set()
    for n in names:
        depth = 0; r = ''
        for i, c in enumerate(n):
            if c == '<' and not n[:i].endswith('operator') and not n[:i].endswith('operator<'): depth += 1
            if depth == 0: r += c
            if c == '>' and depth: depth -= 1
        out.add(r)
    return sorted(out)[:1500]
def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if '--quick' in sys.argv: tier = 'quick'
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    if not os.path.exists(f'{VERIF}/build/ksym') or not os.path.exists(f'{VERIF}/build/support.bc'):
        subprocess.check_call(['bash', f'{VERIF}/setup.sh'])
    spec = specs.PROPS[prop]
    scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    rdir = f'{VERIF}/build/replay/{prop}'
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    try:
        rc = check(prop, spec, tier, seed, scratch, rdir, t0, only)
    except Exception as e:
        import traceback; traceback.print_exc(); log('INCONCLUSIVE internal error:', e); rc = 2
    finally:
        if '--keep' in sys.argv: log('scratch kept:', scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def known():
    k = {}
    for line in open(f'{VERIF}/known_findings.txt'):
        m = re.match(r'known: property=(\S+) entry=(\S+) label=(\S+) (.*)', line.strip())
        if m: k[(m.group(1), m.group(2), m.group(3))] = m.group(4)
    return k

def check(prop, spec, tier, seed, scratch, rdir, t0, only):
    units = [Unit(prop, u, scratch, tier) for u in spec['units']]
    if only: units = [u for u in units if u.name in only or any(o.startswith(u.name + ':') for o in only)]
    pool = ThreadPoolExecutor(8)
    errors = []
    def comp(u):
        try: u.compile_ir(); return None
        except RuntimeError as e:
            u.entries = []
            # a use the property grants that no longer compiles: both compilers must refuse it, inside /repo's code
            if re.search(r'^%s/\S+: (fatal )?error:' % REPO, str(e), re.M):
                rc, out = run(['g++', f'-std={u.std}', '-w', '-fsyntax-only', *u.inc, *u.defs, f'{VERIF}/harness/{u.u["src"]}'])
                if rc and re.search(r'^%s/\S+: (fatal )?error:' % REPO, out, re.M):
                    u.refused = out
            return str(e)
    for e in pool.map(comp, units):
        if e: errors.append(e)
    budget = float(spec.get('budget', {}).get(tier, 480 if tier == 'quick' else 3600))
    qt = float(spec.get('qtimeout', {}).get(tier, 30 if tier == 'quick' else 120))
    jobs = [(u, e) for u in units for e in u.entries]
    if only: jobs = [(u, e) for u, e in jobs if u.name in only or f'{u.name}:{e}' in only]
    npool = ThreadPoolExecutor(8)
    for u in units: u.native_future = npool.submit(u.compile_native)
    kn = known()
    def one(j):
        u, e = j
        out = f'{u.dir}/{e}.json'
        left = budget - (time.time() - t0)
        if left < 5: return (u, e, {'errors': ['no time left'], 'violations': [], 'labels': {}})
        rc, o = run_stoppable(['bash', '-c', 'ulimit -v 12000000; ulimit -s unlimited; exec "$0" "$@"', f'{VERIF}/build/ksym', u.bc, f'--entry={e}', f'--out={out}', f'--timeout={left:.0f}', f'--qtimeout={qt}',
                     f'--max-instr={u.u.get("max_instr", 3000000)}', f'--scope={REPO}/', f'--samples={u.u.get("samples", 6)}'] + (['-v'] if '-v' in sys.argv else []), time.time() + left + 20)
        try: r = json.load(open(out))
        except Exception: r = {'errors': [f'engine failed on {e} (status {rc}): ' + o[-500:]], 'violations': [], 'labels': {}}
        if '-v' in sys.argv: log(o)
        if rc == -999: r['errors'] = [('stopped: another entry already has a confirmed violation' if STOP[0] else f'engine exceeded its time on {e}')]
        r['conf'] = {}
        for v in r['violations']:
            base = f'{rdir}/{u.name}-{e}-{re.sub("[^A-Za-z0-9_.-]", "_", v["label"])}'
            write_inputs(base + '.inputs', v['inputs'])
            exe = u.native_future.result(); conf = None; out = u.native_log
            if exe:
                rc, out = replay(exe, e, base + '.inputs', v['label'] if v['kind'] == 'assert' else '')
                conf = confirmed(v['kind'], rc, out)
                if not conf and v['kind'] == 'assert':
                    rc, out = replay(exe, e, base + '.inputs'); conf = confirmed(v['kind'], rc, out)
            if exe and not conf and v['kind'] == 'assert' and any('rounding to float' in x for x in r.get('notes', [])):
                # the solver leaves the rounding open: give it inputs with more digits, and the sampled ones
                for inp in [vary(v['inputs'], k) for k in range(6)] + list(r.get('samples', [])):
                    write_inputs(base + '.varied', inp); rc2, out2 = replay(exe, e, base + '.varied', v['label'])
                    if rc2 == 42: rc, out, v['inputs'] = rc2, out2, inp; write_inputs(base + '.inputs', inp); conf = confirmed(v['kind'], rc, out); break
                os.remove(base + '.varied')
            r['conf'][v['label']] = (conf, out, base)
            if conf and (prop, e, v['label']) not in kn and not STOP[0]: STOP[0] = time.time() + 60
        return (u, e, r)
    ex2 = ThreadPoolExecutor(int(spec.get('jobs', 8)))
    results = list(ex2.map(one, jobs))
    for u in units: u.native_future.result()
    nviol = 0
    for u in units:
        if getattr(u, 'refused', None):
            base = f'{rdir}/{u.name}-does-not-compile.txt'
            open(base, 'w').write(f'property {prop}\nharness {u.u["src"]} uses /repo in a way the property grants; clang++ and g++ both refuse to compile it:\n' + u.refused[:6000])
            nviol += 1; log(f'VIOLATION property={prop} replay={base}'); log('  does-not-compile: ' + re.search(r'^%s/\S+: (fatal )?error:.*' % REPO, u.refused, re.M).group(0)[:300])
    nknown = 0; validated = 0; val_tried = 0; samples = []
    agg = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, paths=0, paths_completed=0, forks=0, instructions=0, assert_checks=0)
    functions = set(); stubs = set(); notes = set(); obligations = {}
    for u, e, r in results:
        for k in agg: agg[k] += r.get(k, 0)
        functions |= set(r.get('functions', [])); stubs |= set(r.get('stubs', [])); notes |= set(r.get('notes', []))
        vl = {v['label'] for v in r['violations']}
        if not r.get('labels') and not r['violations'] and not r['errors']: errors.append(f'{u.name}:{e}: no assertion reached (vacuous)')
        for l, st in r.get('labels', {}).items():
            ok = st['discharged'] == st['checks'] and l not in vl
            obligations[f'{u.name}:{e}:{l}'] = dict(checks=st['checks'], discharged=st['discharged'], reachable=st['witness'], holds=ok)
            if not st['witness'] and l not in vl: errors.append(f'{u.name}:{e}: assertion {l} has no reachability witness (vacuous)')
        for er in r['errors']: errors.append(f'{u.name}:{e}: {er}')
        if '--times' in sys.argv: log(f'  {u.name}:{e} wall={r.get("wall_s",0):.1f} paths={r.get("paths",0)} q={r.get("queries",0)} solver={r.get("solver_s",0):.1f} labels={len(r.get("labels",{}))} instr={r.get("instructions",0)}')
        for v in r['violations']:
            conf, out, base = r['conf'][v['label']]
            with open(base + '.txt', 'w') as f:
                f.write(f'property {prop}\nharness {u.u["src"]} entry {e} label {v["label"]}\nkind {v["kind"]}: {v["detail"]}\nwhere {v["where"]}\nconfirmed: {conf}\ninputs:\n')
                for n, x in v['inputs']: f.write(f'  {n} = {x}\n')
                f.write('replay output:\n' + out[-4000:] + '\n')
            key = (prop, e, v['label'])
            if not conf:
                errors.append(f'{u.name}:{e}: counterexample for {v["label"]} ({v["kind"]}: {v["detail"]}) not confirmed on the compiled code; see {base}.txt'); continue
            if key in kn:
                nknown += 1; log(f'KNOWN-FINDING: property={prop} {e}/{v["label"]}: {kn[key]}'); continue
            nviol += 1
            log(f'VIOLATION property={prop} replay={base}.txt')
            log(f'  {e}/{v["label"]} {v["kind"]}: {v["detail"]} [{conf}] at {v["where"][:300]}')
            for n, x in v['inputs'][:24]: log(f'    {n} = {x}')
        exe = u.native or None
        for i, smp in enumerate(r.get('samples', [])):
            if len(samples) < 5 and smp: samples.append({'entry': e, 'inputs': [f'{n}={x[2:]}' for n, x in smp[:12]]})
            if exe and not r['violations']:
                pth = f'{scratch}/s.{u.name}.{e}.{i}'; write_inputs(pth, smp)
                val_tried += 1; rc, out = replay(exe, e, pth)
                if rc == 0: validated += 1
                elif "-v" in sys.argv: log(f"NOT-VALIDATED {u.name}:{e} rc={rc} {out[-400:]}")
                elif rc == 42 and '--times' in sys.argv: log(f'  note: sample {i} of {e} fails natively: {out[-300:]} {smp}')
    wall = time.time() - t0
    if not only:
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=nviol,
            coverage=dict(
                states=agg['paths'] + agg['forks'], transitions=agg['instructions'], traces_validated_against_impl=validated,
                samples=samples or ['(harness without inputs)'], exhaustive=not errors,
                explanation='symbolic execution of the LLVM IR of the current /repo sources; states = symbolic paths and forks, transitions = IR instructions interpreted, traces_validated_against_impl = solver-generated inputs of completed paths re-run on the natively compiled code with every assertion holding (of %d tried)' % val_tried,
                solver_queries=agg['queries'], queries_unsat=agg['unsat'], queries_sat=agg['sat'], queries_unknown=agg['unknown'], solver_seconds=round(agg['solver_s'], 2),
                assertion_checks=agg['assert_checks'], symbolic_paths=agg['paths'], entry_points=len(jobs),
                obligations=len(obligations), discharged=sum(1 for o in obligations.values() if o['holds']),
                obligation_list=obligations, functions_encoded=brief(functions), functions_encoded_count=len(functions), library_stubs=sorted(stubs), notes=sorted(notes),
                bounds=spec['bounds'], outside_bounds=spec.get('outside', ''), known_findings=nknown, inconclusive=errors[:20]),
            assumptions=specs.COMMON_ASSUMPTIONS + spec.get('assumptions', []))
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    for er in errors[:20]: log('INCONCLUSIVE', er)
    log(f'{prop} {tier}: {len(jobs)} entries, {len(obligations)} assertions, {agg["queries"]} solver queries ({agg["solver_s"]:.1f} s), {agg["paths"]} paths, {len(functions)} functions of /repo, {validated}/{val_tried} traces validated, {nviol} violations, {nknown} known, {wall:.1f} s')
    if nviol: return 1
    return 2 if errors else 0
main()
