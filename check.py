#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]   decide one property on the current tree of /repo
   check.py --replay <file>                       show a recorded failing input again

exit 0: the property held on everything explored; exit 1: VIOLATION line(s).  See DESIGN.md."""
import sys, os, json, time, shutil, tempfile, pickle, random, fcntl, signal, subprocess, traceback, resource
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.setrecursionlimit(20000)
import family, gen_cpp, refsem, replay
from ir import Unsupported

NCPU = int(os.environ.get('VP_CPUS', os.cpu_count() or 8))
HEAVY = ['full', 'subpar', 'pseudo', 'hist', 'internal', 'nested']
KNOWN = os.path.join(ROOT, 'known_findings.json')

def has(m, what):
    rows = [r for p in m['tables'] for r in m['tables'][p]]
    if what == 'anon': return any(not r[1] for r in rows)
    if what == 'defer': return bool(m['defer'])
    if what == 'hist': return any(r[4].startswith('hist:') for r in rows)
    if what == 'handler': return m['handler']
    if what == 'chain': return any(r[3][:1] == 'c' for r in rows)
    if what == 'deps': return m['ndeps'] > 0
    return True

# stages: A construction and tables; E process_event; Q queries and set; D set_dependency; X destruction; T two machines; U unit
PLAN = {
 'C01': ('A', None, 'Q1'), 'C02': ('AE', None, ''), 'C03': ('AHE', None, ''), 'C04': ('AE', 'anon', ''), 'C05': ('AE', 'defer', ''),
 'C06': ('AE', 'hist', ''), 'C07': ('A', None, ''), 'C08': ('Q', None, ''), 'C09': ('AHE', None, ''), 'C10': ('AHDE', 'deps', ''),
 'C11': ('AHTE', None, ''), 'C12': ('A', None, 'dsl'), 'C13': ('AHDXEQ', None, ''), 'C14': ('E', None, ''), 'C15': ('ADXE', None, 'own'),
 'C16': ('A', 'chain', 'chain'), 'C17': ('TEQD', None, ''),
}

# quick tier: process_event is proved on these machines, and scripts run on these (thorough: everything on all)
ENGINE = ['plain', 'handler', 'anon', 'par', 'paranon', 'defer', 'hist', 'full', 'subpar', 'internal', 'deferpar', 'histanon', 'deferanon', 'noinitpar', 'anonsub', 'histint', 'par3']
EQUICK = {'C02': ENGINE, 'C03': ENGINE, 'C13': ENGINE, 'C14': [x for x in ENGINE if x not in ('full', 'subpar')], 'C17': [x for x in ENGINE if x != 'full'],
          'C09': ['plain', 'handler', 'internal', 'chain'], 'C11': ['plain', 'handler', 'data', 'par'], 'C15': ['plain', 'defer', 'deferpar', 'anon']}
FQUICK = ['full', 'deadend', 'pseudo', 'nested', 'internal', 'defer', 'handler', 'hist', 'data', 'chain', 'paranon', 'deferpar', 'noinitpar', 'anonforms', 'prefix', 'anonsub', 'samenames', 'histint', 'datasub', 'deferint', 'exitpoint', 'lateinit', 'big', 'par3', 'anon3', 'evown']

# ---------------------------------------------------------------------------------------------- jobs
class Tokens:
    """at most NCPU jobs at a time; a job that dies gives its place back"""
    def __init__(s, d): s.fs = [os.path.join(d, 'tok%d' % i) for i in range(NCPU)]
    def __enter__(s):
        while True:
            for f in s.fs:
                fd = os.open(f, os.O_CREAT | os.O_RDWR)
                try: fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB); s.fd = fd; return s
                except OSError: os.close(fd)
            time.sleep(.03)
    def __exit__(s, *a): os.close(s.fd)

def fork(fn, wd, mem=6, lead=False):
    """run fn in a child; its result is pickled"""
    fd, out = tempfile.mkstemp(dir=wd); os.close(fd)
    pid = os.fork()
    if pid:
        if lead:
            try: os.setpgid(pid, pid)
            except OSError: pass
        return pid, out
    try:
        try:
            if lead: os.setpgid(0, 0)
            if mem: resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
            r = fn()
        except MemoryError: r = dict(undecided='out of memory')
        except Exception as e: r = dict(undecided='%s: %s' % (type(e).__name__, str(e)[:300]), tb=traceback.format_exc()[-1500:])
        with open(out + '.x', 'wb') as f: pickle.dump(r, f)
        os.rename(out + '.x', out)
    finally: os._exit(0)

def join(ch, end):
    pid, out = ch
    while True:
        p, _ = os.waitpid(pid, os.WNOHANG)
        if p: break
        if time.time() > end:
            try: os.killpg(pid, signal.SIGKILL) if os.getpgid(pid) == pid else os.kill(pid, signal.SIGKILL)
            except OSError: pass
            os.waitpid(pid, 0); return dict(undecided='time is up')
        time.sleep(.05)
    try:
        with open(out, 'rb') as f: return pickle.load(f)
    except Exception: return dict(undecided='the verifier process died')

def result(ob, v, t, **kw):
    return dict(items=dict(ob.items), cls={k: sorted(x) for k, x in ob.cls.items()},
                failed=[(n, tuple(c), short(i)) for n, c, i in ob.failed], solver_s=ob.solver_s, queries=ob.queries, unknown=ob.unknown,
                fns=sorted(k for k in v.ex.fnseen if 'hsm' in k), steps=v.ex.steps, wall=time.time() - t, **kw)

def short(i):
    if not i: return None
    return {k: (x if isinstance(x, str) else repr(x))[:1200] for k, x in i.items()}

def proof_job(m, stages, wd, tok, end, rvalue):
    """one machine: every stage asked for"""
    import machine, engine, queries
    from sym import Obligations
    from machine import MV
    out = []
    def fresh(v):
        ob = Obligations(); v.ob = ob; v.ex.ob = ob
        v.ex.fnseen = {}; v.ex.steps = 0
        return ob
    t = time.time()
    ob = Obligations()
    with tok:
        try: v = MV(m, wd, ob, queries='Q' in stages, rvalue=rvalue, deadline=end).setup()
        except machine.BuildError as e: return [dict(machine=m['name'], part='setup', undecided='the probes do not compile: ' + str(e)[:400])]
        except (Unsupported, AssertionError, KeyError, AttributeError, TypeError, ValueError, IndexError) as e:
            return [dict(machine=m['name'], part='setup', undecided='%s: %s' % (type(e).__name__, str(e)[:300]))]
        def part(name, f):
            n0 = len(ob.failed)
            try: f(); return True
            except Exception as e:
                out.append(dict(machine=m['name'], part=name, undecided='%s: %s' % (type(e).__name__, str(e)[:300]), tb=traceback.format_exc()[-1500:])); return False
        good = part('constructor', lambda: machine.check_ctor(v)) and part('tables', lambda: machine.check_tables(v))
        st = None
        if good:
            def fill(): v.filled = machine.fill_dynamic(v)
            good = part('create', fill)
        if good and stages != 'Q':
            good = part('entries', lambda: machine.check_entries(v, v.filled, 0)) and part('instances', lambda: machine.check_instances(v))
            if good and 'H' in stages: part('handlers', lambda: machine.check_handlers(v, v.filled, 0))
        out.append(dict(machine=m['name'], part='construction', **result(ob, v, t)))
    if not good: return out
    subs = []
    def dep():
        ob = fresh(v); t = time.time(); machine.check_setdep(v)
        if 'X' in stages: machine.check_dtor(v, v.afterdep, ' after set_dependency')
        return dict(part='set_dependency', **result(ob, v, t))
    def dtor():
        ob = fresh(v); t = time.time(); machine.check_dtor(v); return dict(part='destructor', **result(ob, v, t))
    def two():
        ob = fresh(v); t = time.time(); machine.check_two(v); return dict(part='two machines', **result(ob, v, t))
    def quer():
        ob = fresh(v); t = time.time(); queries.check_queries(engine.Engine(v)); return dict(part='queries and set', **result(ob, v, t))
    def eng(i, ev, rv):
        t = time.time()
        for ideal in (False, True):
            ob = fresh(v)
            e = engine.Engine(v, ideal=ideal); e.learn_queue()
            e.verify('vp_pe%s%d' % ('r' if rv else '', i), ev)
            r = dict(part='process_event(%s)%s' % (ev, ' rvalue' if rv else ''), paths=e.paths, joins=e.joins, hits=e.hits, ideal=ideal, **result(ob, v, t))
            if ideal and r['failed']: return first
            first = r
            if not r['failed'] or not v.ref.has_anon: return r
        return r
    if 'E' in stages:
        for i, ev in enumerate(v.ref.events):
            subs.append((lambda i=i, ev=ev: eng(i, ev, False), 'process_event(%s)' % ev))
            if rvalue: subs.append((lambda i=i, ev=ev: eng(i, ev, True), 'process_event(%s) rvalue' % ev))
    if 'Q' in stages: subs.append((quer, 'queries and set'))
    if 'D' in stages: subs.append((dep, 'set_dependency'))
    if 'X' in stages: subs.append((dtor, 'destructor'))
    if 'T' in stages: subs.append((two, 'two machines'))
    def run(f):
        def g():
            with tok: return f()
        return g
    ch = [(fork(run(f), wd), n) for f, n in subs]
    for c, n in ch:
        r = join(c, end + 5); r['machine'] = m['name']; r.setdefault('part', n)
        out.append(r)
    return out

def unit_job(name, wd, tok, end):
    import units
    from sym import Obligations
    ob = Obligations(); t = time.time()
    with tok:
        try: u = units.UNITS[name][0](wd, ob)
        except units.BuildError as e: return [dict(machine=name, part='unit', undecided='does not compile: ' + str(e)[:400])]
        except Exception as e: return [dict(machine=name, part='unit', undecided='%s: %s' % (type(e).__name__, str(e)[:300]), failed=[(n, tuple(c), short(i)) for n, c, i in ob.failed])]
        return [dict(machine=name, part='unit', **result(ob, u, t))]

# --------------------------------------------------------------------------------------- replay side
def run_case(ref, exe, cmds):
    """None, or (index, expected, got, rc, err, script, interp)"""
    best = None
    for fa in ((True, False) if ref.has_anon else (True,)):
        it = refsem.Interp(ref, finding_anon=fa)
        script, exp = it.run(cmds)
        if fa: got, rc, err = replay.run_script(exe, script); s0 = script
        elif script != s0: continue
        d = replay.diff(exp, got, rc, err)
        if d is None: return None
        if best is None: best = d + (rc, err, script, it, got)
    return best

def diff_classes(ref, d, cmds, exe):
    """which properties the first difference speaks about"""
    i, exp, got, rc, err, script, it, out = d
    C = set()
    stage = it.out.meta[min(i, len(it.out.meta) - 1)] if it.out.meta else 'main'
    cmd = '?'
    for j in range(min(i, len(it.out) - 1), -1, -1):
        if not it.out[j].startswith(' ') and not it.out[j].startswith('O'): cmd = it.out[j].split()[0]; break
    threw = any('throw' in x for x in it.out[max(0, i - 3):i + 1])
    m = ref.m
    STG = {'main': 'C02', 'handler': 'C03', 'retry': 'C05', 'main anon': 'C04', 'retry anon': 'C05'}
    if rc not in (0,) and (i >= len(out) or exp in ('exit 0', '<end>') or got.startswith('<no output')):
        C |= {'C13'}
        if rc == 'timeout': C |= {'C04', 'C05', 'C02', 'C03'}
        if 'leak' in err.lower() or 'double-free' in err or 'use-after-free' in err or 'bad-free' in err: C |= {'C15', 'C11'}
        if threw: C.add('C14')
        if has(m, 'hist'): C.add('C06')
        if 'D' in [c[0] for c in cmds]: C.add('C10')
    if exp.startswith('O') or got.startswith('O'):
        C |= {'N': {'C01'}, 'S': {'C08', 'C13'}, 'S1': {'C08', 'C13'}, 'D': {'C10'}, 'I': {'C17'}, 'R': {'C08'}}.get(cmd, set())
        if cmd == 'E':
            C |= {'C02', 'C08', 'C13'} | {STG.get(stage, 'C02')}
            if ref.has_anon: C.add('C04')
            if m['defer']: C.add('C05')
            if has(m, 'hist'): C.add('C06')
            if any('ret throw' in x for x in it.out[max(0, i - 1):i + 1]): C.add('C14')
    elif cmd in ('S', 'S1'): C |= {'C08', 'C13'}
    elif cmd == 'E':
        e, g = exp.split(), got.split()
        same = e[:2] == g[:2] and e[:1] and e[0] in ('guard', 'action', 'handler', 'create')
        if same:
            for a, b in zip(e[2:] + [''] * 3, g[2:] + [''] * 3):
                if a == b: continue
                t = (a or b)[:2]
                if t == 'ev': C |= {'C09'} | ({'C05'} if 'retry' in stage else set())
                elif t in ('st', 'nu'): C |= {'C09', 'C11', 'C07'}
                elif t[:1] in 'AB?': C |= {'C10', 'C09'}
        elif exp.strip().startswith('ret') and got.strip().startswith('ret'):
            C |= {'C03'} if 'throw' not in exp + got and 'exception' not in got else {'C14', 'C13', 'C03'}
        else:
            C |= {STG.get(stage, 'C02'), 'C07', 'C02'}
            if 'action' in (e[:1] + [''])[0] or 'action' in (g[:1] + [''])[0]: C |= {'C09'} | ({'C16'} if has(m, 'chain') else set())
            if 'handler' in exp + got: C.add('C03')
            if 'ret throw' in exp or threw: C.add('C14')
            if ref.has_anon and ('anon' in stage or exp.strip().startswith('ret')): C.add('C04')
            if m['defer']: C.add('C05')
            if has(m, 'hist'): C.add('C06')
            if 'handler' not in exp + got and exp.strip().startswith('ret'): C.add('C03')
            if len(e) > 1 and e[0] == 'guard' and it.out and m.get('dsl'): C.add('C12')
    if got.strip() in ('ret exception', 'exception', 'ret unknown exception') and 'exception' not in exp: C.add('C13')
    # do other operations matter?
    for op, cl in (('D', 'C10'), ('I', 'C17'), ('S', 'C08')):
        if any(c[0] == op for c in cmds):
            if op in 'DS': c2 = [c for c in cmds if c[0] not in (op, op + '1')]
            else:
                c2 = []; cur = 0
                for c in cmds:
                    if c[0] == 'I': cur = c[1]
                    elif cur == 0: c2.append(c)
            try:
                if run_case(ref, exe, c2) is None: C.add(cl)
            except Exception: pass
    return C

def shrink(ref, exe, cmds, budget=12):
    end = time.time() + budget
    best = cmds
    d = run_case(ref, exe, best)
    n = max(1, len(best) // 2)
    while n >= 1 and time.time() < end:
        i = 0; changed = False
        while i < len(best) and time.time() < end:
            if any(c[0] in ('R', 'N') for c in best[i:i + n]) and i < 2: i += 1; continue
            c2 = best[:i] + best[i + n:]
            try: d2 = run_case(ref, exe, c2) if any(c[0] == 'N' for c in c2) else None
            except Exception: d2 = None
            if d2 is not None: best = c2; d = d2; changed = True
            else: i += n
        if not changed or n == 1: n //= 2
    return best, d

def fuzz_job(m, wd, tok, end, seeds, length, stop=6):
    """bounded: generated scripts on the real code against the reference semantics"""
    ref = refsem.Ref(m); out = dict(machine=m['name'], part='bounded', scripts=0, commands=0, diffs=[], distinct=0)
    with tok:
        exe, err = replay.build(m, wd)
        if exe is None: out['build'] = err[:3000]; return out
        seen = set()
        for s in seeds:
            if time.time() > end: break
            cmds = replay.gen_cmds(ref, s, length, replay.ALL)
            try: d = run_case(ref, exe, cmds)
            except RecursionError: continue
            out['scripts'] += 1; out['commands'] += len(cmds)
            if d is None: continue
            cl = diff_classes(ref, d, cmds, exe)
            if cl <= seen and len(out['diffs']) >= 2: continue
            seen |= cl
            out['diffs'].append(dict(cmds=cmds, classes=sorted(cl), exp=d[1], got=d[2][:600], seed=s, exe=exe))
            if len(out['diffs']) >= stop: break
        if seeds: out['sample'] = ' '.join(refsem.Interp(ref).run(replay.gen_cmds(ref, list(seeds)[0], length, replay.ALL))[0][:8])
    return out

# ------------------------------------------------------------------------------------------ findings
def findings(prop, wd):
    """lines to print, and whether a finding turned into something else"""
    lines, bad = [], []
    try: known = json.load(open(KNOWN))['findings']
    except OSError: known = []
    for f in known:
        if f['property'] != prop: continue
        src = os.path.join(ROOT, f['reproducer']); exe = os.path.join(wd, 'finding_' + f['id'])
        r = subprocess.run(['clang++', '-std=c++20', '-w', '-I' + replay.REPO + '/include', src, '-o', exe], capture_output=True, text=True)
        if r.returncode: bad.append((f, 'does not compile: ' + r.stderr[:800])); continue
        try: o = subprocess.run([exe], capture_output=True, text=True, timeout=30).stdout.strip()
        except subprocess.TimeoutExpired: o = 'TIMEOUT'
        if o == 'PRESENT': lines.append('KNOWN-FINDING: property=%s %s: %s' % (prop, f['id'], f['what']))
        elif o != 'ABSENT': bad.append((f, 'behaves in a third way: ' + o))
    return lines, bad

# ---------------------------------------------------------------------------------------------- main
TRUSTED = [
 'clang 18 translates the headers of /repo to LLVM IR correctly (-O1 -Xclang -disable-llvm-passes, then opt sroa, early-cse, simplifycfg)',
 'lib/ir.py and lib/sym.py, the verifier of this framework, implement LLVM IR semantics for the instructions they accept and refuse the others',
 'z3 4.8.12 (queries that come back unknown are never counted as proved)',
 'contracts assumed for operator new/delete, memcpy/memmove/memset, the C++ exception runtime, std::type_info, and the chunk map of std::deque (lib/stdmodel.py)']
ASSUME = [
 'operator new does not fail',
 'guards, actions and handlers of the machine do not call back into the same machine (undocumented and unsupported by the library)',
 'templates are verified per instantiation: the machines of lib/family.py (and, in the thorough tier, generated machines); other machines are not covered by the proof',
 'one thread; the library has no synchronisation and promises none']

def shortname(names):
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.splitlines()
    out = set()
    for n in r:
        n = n.replace('operator<', 'operator_lt').replace('operator->', 'operator_arrow').replace('operator()', 'operator_call')
        d = 0; s = ''
        for c in n:
            if c in '<([{': d += 1
            elif c in '>)]}': d -= 1
            elif d == 0: s += c
        s = s.split(' const')[0].strip()
        s = s.split()[-1] if s.split() else s
        if 'hsm::' in s: out.add(s)
    return sorted(out)

def main():
    if sys.argv[1] == '--replay': return do_replay(sys.argv[2])
    if sys.argv[1] == '--selftest': return selftest()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    thorough = tier == 'thorough'
    end = t0 + float(os.environ.get('VP_BUDGET', 720 if thorough else 420))
    wd = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try: return check(prop, tier, thorough, seed, t0, end, wd)
    finally: shutil.rmtree(wd, ignore_errors=True)

def check(prop, tier, thorough, seed, t0, end, wd):
    from sym import Obligations
    stages, need, unit = PLAN[prop]
    fam = list(family.FAMILY)
    if thorough: fam += [family.random_machine(i) for i in range(1, 41)]
    mach = [m for m in fam if not need or has(m, need)]
    mach.sort(key=lambda m: HEAVY.index(m['name']) if m['name'] in HEAVY else 100)
    tok = Tokens(wd)
    if unit == 'Q1': stages = 'AQ'
    jobs = []
    for m in mach:
        rv = m['name'] in ('plain', 'defer', 'par', 'handler') or thorough
        stg = stages if thorough or m['name'] in EQUICK.get(prop, [m['name']]) else stages.replace('E', '')
        if stg: jobs.append((fork(lambda m=m, rv=rv, stg=stg: proof_job(m, stg, wd, Tokens(wd), end, rv and 'E' in stg), wd, mem=None, lead=True), 'p', m['name']))
    if unit in ('dsl', 'chain', 'own'): jobs.append((fork(lambda: unit_job(unit, wd, Tokens(wd), end), wd), 'p', unit))
    nseed = 150 if thorough else 30
    fz = [m for m in mach if thorough or need or m['name'] in FQUICK]
    def fuzzer(m): return fork(lambda: fuzz_job(m, wd, Tokens(wd), end, range(seed, seed + nseed), 60), wd, mem=None), 'f', m['name']
    jobs += [fuzzer(m) for m in fz]
    res = []; fuzz = []
    jobs.sort(key=lambda j: j[1] != 'f')
    while jobs:
        ch, kind, n = jobs.pop(0)
        r = join(ch, end + 20)
        if kind == 'f' and any(prop in d['classes'] for d in r.get('diffs', ())): end = min(end, time.time() + 40)    # an input is known: no need to wait for the verifier
        if kind == 'p' and any(x.get('undecided') for x in (r if isinstance(r, list) else [r])):    # stand-in for what could not be proved
            for m in mach:
                if m['name'] == n and m not in fz: fz.append(m); jobs.append(fuzzer(m))
        if kind == 'f': fuzz.append(r if 'scripts' in r else dict(machine=n, part='bounded', scripts=0, commands=0, diffs=[], undecided=r.get('undecided')))
        else: res += r if isinstance(r, list) else [dict(machine=n, part='all', **r)]
    unitrun = None
    if unit in ('dsl', 'chain', 'own'):
        import units
        unitrun = units.run_main(unit, wd)
    lines, badfind = findings(prop, wd)

    failed = [(r['machine'], r['part'], f) for r in res for f in r.get('failed') or [] if prop in f[1]]
    undecided = [(r['machine'], r['part'], r['undecided'], r.get('tb')) for r in res if r.get('undecided')] + [(r['machine'], r['part'], r['undecided'], None) for r in fuzz if r.get('undecided')]
    diffs = [(f['machine'], d) for f in fuzz for d in f['diffs'] if prop in d['classes']]
    builds = [(f['machine'], f['build']) for f in fuzz if f.get('build')]
    viol = []
    rdir = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    def write(name, obj):
        p = os.path.join(rdir, '%s_%s.json' % (prop, name)); json.dump(obj, open(p, 'w'), indent=1, default=str); return p
    proofs = [dict(machine=m, part=p, obligation=f[0], properties=f[1], output=f[2]) for m, p, f in failed]
    if builds and len(builds) and (prop in ('C07', 'C12') or len(builds) == len(fuzz)):
        viol.append((write('build', dict(property=prop, kind='build', machine=builds[0][0], output=builds[0][1], machines=[b[0] for b in builds])), ''))
    elif badfind:
        viol.append((write('finding', dict(property=prop, kind='finding', finding=badfind[0][0], output=badfind[0][1])), ''))
    elif unitrun and unitrun[0] != 0 and unitrun[0] != 'build':
        viol.append((write('unit', dict(property=prop, kind='unit', unit=unit, output=unitrun[1][:4000], failed=proofs[:20])), ''))
    elif unitrun and unitrun[0] == 'build':
        viol.append((write('unit', dict(property=prop, kind='unit', unit=unit, output='does not compile: ' + unitrun[1][:4000])), ''))
    elif diffs:
        viol.append((record(prop, diffs[0], proofs, write), ''))
    elif failed:
        # the proof failed: look for an input that shows it
        hit = search(prop, failed, fuzz, wd, seed, min(time.time() + (150 if not thorough else 400), t0 + 800))
        if hit: viol.append((record(prop, hit, proofs, write), ''))
        else: viol.append((write('proof', dict(property=prop, kind='proof', failed=proofs[:40])), ' no-failing-input-found'))
    # evidence
    items = {}; inst = 0; fl = set()
    for r in res:
        for k, n in (r.get('items') or {}).items():
            if prop in r['cls'].get(k, ()): items[r['machine'], r['part'], k] = n; inst += n
    for m, p, f in failed: fl.add((m, p, f[0])); items.setdefault((m, p, f[0]), 0)
    und = [u for u in undecided]
    nob = len(items) + len(und)
    dis = len([k for k in items if k not in fl])
    fns = shortname(sorted({x for r in res for x in r.get('fns') or []}))
    samples = [' / '.join(k) for k in list(items)[:3]] + [f.get('sample', '') for f in fuzz[:2]]
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 1), violations=len(viol),
      coverage=dict(obligations=nob, discharged=dis, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier), trusted_base=TRUSTED,
        back_end='lib/sym.py path engine with z3 4.8.12 (python API)', instances=inst,
        solver_queries=sum(r.get('queries') or 0 for r in res), solver_s=round(sum(r.get('solver_s') or 0 for r in res), 2), solver_unknown=sum(r.get('unknown') or 0 for r in res),
        machines=[m['name'] for m in mach], functions_under_contract=fns, functions=len(fns), instructions_executed=sum(r.get('steps') or 0 for r in res),
        paths=sum(r.get('paths') or 0 for r in res), inductive_joins=sum(r.get('joins') or 0 for r in res),
        undecided=[dict(machine=u[0], part=u[1], why=u[2], stand_in='bounded: generated scripts on that machine') for u in und],
        bounded=dict(note='supplement, never counted as proved', scripts=sum(f['scripts'] for f in fuzz), commands=sum(f['commands'] for f in fuzz), script_length=60, differences=sum(len(f['diffs']) for f in fuzz)),
        proof_cpu_s=round(sum(r.get('wall') or 0 for r in res), 1), samples=samples),
      assumptions=ASSUME)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    print('%s: %d obligations (%d instances), %d discharged, %d failed, %d undecided; bounded: %d scripts, %d differences (%d of this property); %.0f s' %
          (prop, nob, inst, dis, len(fl), len(und), sum(f['scripts'] for f in fuzz), sum(len(f['diffs']) for f in fuzz), len(diffs), time.time() - t0))
    for u in und[:8]: print('  undecided: %s %s: %s' % u[:3])
    if os.environ.get('VP_DEBUG'):
        for u in und[:3]: print(u[3])
        for m, p, f in failed[:12]: print('  FAILED', m, p, f[0], f[1], str(f[2])[:int(os.environ['VP_DEBUG'])])
        for f in fuzz:
            for d in f['diffs'][:2]: print('  DIFF', f['machine'], d['classes'], d['exp'], '|', d['got'][:200])
    if nob == 0 and not any(f['scripts'] for f in fuzz) and not viol: viol.append((write('empty', dict(property=prop, kind='proof', failed=['nothing could be checked'], undecided=und)), ' no-failing-input-found'))
    for p, x in viol: print('VIOLATION property=%s replay=%s%s' % (prop, p, x))
    return 1 if viol else 0

def record(prop, hit, proofs, write):
    n, d = hit
    m = family.by_name(n); ref = refsem.Ref(m)
    cmds = d['cmds']
    try:
        cmds, dd = shrink(ref, d['exe'], d['cmds'])
        exp, got, script = dd[1], dd[2], dd[5]
    except Exception: exp, got, script = d['exp'], d['got'], None
    return write('input', dict(property=prop, kind='script', machine=n, classes=d['classes'], expected=exp, got=got[:1500], cmds=cmds, script=script,
                               driver=gen_cpp.driver(m), failed_obligations=proofs[:20]))

def search(prop, failed, fuzz, wd, seed, end):
    """inputs on the machines whose proof failed"""
    names = []
    for m, p, f in failed:
        if m not in names: names.append(m)
    other = [(f['machine'], d) for f in fuzz for d in f['diffs'] if f['machine'] in names]
    if other: return other[0]
    ch = []
    ms = [family.by_name(n) for n in names[:6] if n not in ('dsl', 'chain', 'own')]
    if not ms: return None
    k = max(1, NCPU // len(ms))
    for m in ms:
        for j in range(k):
            d = os.path.join(wd, 's%d' % len(ch)); os.makedirs(d)
            a = seed + 1000 + 4000 * j
            ch.append((fork(lambda m=m, d=d, a=a: fuzz_job(m, d, Tokens(d), end, range(a, a + 4000), random.Random(a).choice([12, 30, 100]), stop=1), d, mem=None)))
    hits = []
    for c in ch:
        r = join(c, end + 10)
        for d in r.get('diffs', []): hits.append((r['machine'], d))
    hits.sort(key=lambda h: prop not in h[1]['classes'])
    return hits[0] if hits else None

def selftest():
    """the tools are there and the verifier tells right from wrong"""
    import z3
    for c in (['clang++', '--version'], ['opt', '--version'], ['c++filt', '--version']): subprocess.run(c, capture_output=True, check=True)
    x = z3.Int('x'); s = z3.Solver(); s.add(x > 0, x < 1); assert s.check() == z3.unsat
    print('ready')
    return 0

def do_replay(f):
    o = json.load(open(f)); wd = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        print(json.dumps({k: v for k, v in o.items() if k not in ('driver', 'cmds')}, indent=1)[:6000])
        if o['kind'] == 'script':
            m = family.by_name(o['machine']); ref = refsem.Ref(m)
            exe, err = replay.build(m, wd)
            if exe is None: print(err); return 1
            d = run_case(ref, exe, [tuple(c) for c in o['cmds']])
            print('REPRODUCED line %d: expected %r got %r' % (d[0], d[1], d[2]) if d else 'not reproduced'); return 1 if d else 0
        if o['kind'] == 'unit':
            import units
            r = units.run_main(o['unit'], wd); print(r); return int(r[0] != 0)
        if o['kind'] == 'finding':
            l, b = findings(o['property'], wd); print(l, b); return int(bool(b))
    finally: shutil.rmtree(wd, ignore_errors=True)
    return 1

if __name__ == '__main__': sys.exit(main())
