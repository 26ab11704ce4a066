"""Differential replay: generated scripts on the real code against the reference semantics."""
import os, random, subprocess, hashlib, shutil, tempfile, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import family, gen_cpp, refsem

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CXX = ['clang++', '-std=c++20', '-O0', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-D_GLIBCXX_ASSERTIONS', '-w', '-fbracket-depth=4096', '-Wno-c++11-narrowing', '-I' + REPO + '/include', '-I' + ROOT + '/cpp']

def build(m, wd):
    src = os.path.join(wd, m['name'] + '.cpp'); exe = os.path.join(wd, m['name'])
    open(src, 'w').write(gen_cpp.driver(m))
    r = subprocess.run(CXX + [src, '-o', exe], capture_output=True, text=True)
    if r.returncode: # what clang refuses and gcc takes is still the code
        g = subprocess.run(['g++'] + [x for x in CXX[1:] if not x.startswith(('-fbracket', '-Wno-c++11'))] + [src, '-o', exe], capture_output=True, text=True)
        if g.returncode == 0: return exe, ''
    return exe if r.returncode == 0 else None, r.stderr

def gen_cmds(ref, seed, n, features):
    R = random.Random(seed)
    P = gen_cpp.pairs(ref.m)
    P = [i for i, (p, s) in enumerate(P) if any(c[0] == (p, s) for c, _ in ref.cells.items()) or True]
    reach = set()
    for p in ref.parents:
        for ch in ref.children(p):
            if ch[0] == 'state' and not ref.is_sub(ch[1]): reach.add((p, ch[1]))
    PP = [i for i, x in enumerate(gen_cpp.pairs(ref.m)) if x in reach]
    sts = [x for x in ref.states if x not in ref.m['tables']]
    S1 = [i for i, s in enumerate(sts) if (ref.m['root'], s) in reach]
    cmds = [('R', R.randrange(1, 1 << 30), R.choice([0, 0, 8]) if 'throw' in features else 0, R.choice([1, 2, 4])), ('N', 0), ('O',)]
    inst = 1; burst = seed % 5 == 0
    if 'iso' in features and R.random() < .5:
        cmds += [('I', 1), ('N', 1), ('I', 0)]; inst = 2
    for j in range(n):
        x = R.random()
        if x < .06 and 'set' in features: cmds.append(('S', R.choice([0, 0, 0, 1, 2]), R.choice(PP)))
        elif x < .08 and 'set' in features: cmds.append(('S1', R.choice(S1)))
        elif x < .12 and 'dep' in features: cmds.append(('D', R.randrange(4)))
        elif x < .16 and inst == 2: cmds.append(('I', R.randrange(2)))
        elif x < .17: cmds.append(('N', R.randrange(4)))
        elif burst and R.random() < .02:      # the same event many times in a row
            e = R.randrange(len(ref.events))
            cmds += [('E', e, R.randrange(1000)) for _ in range(R.choice([10, 70, 300]))]
        else: cmds.append(('E', R.randrange(len(ref.events)), R.randrange(1000)))
        cmds.append(('O',))
    return cmds

ALL = ('throw', 'iso', 'set', 'dep')

def valid_set(ref, cmds):
    return cmds

def run_script(exe, script, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        r = subprocess.run([exe], input='\n'.join(script) + '\n', capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b''
        return (o if isinstance(o, str) else o.decode(errors='replace')).splitlines(), 'timeout', ''
    return r.stdout.splitlines(), r.returncode, r.stderr

def diff(exp, got, rc, err):
    for i, e in enumerate(exp):
        if i >= len(got): return i, e, '<no output, exit %s> %s' % (rc, err[-600:])
        if got[i] != e: return i, e, got[i]
    if len(got) > len(exp): return len(exp), '<end>', got[len(exp)]
    if rc != 0: return len(exp), 'exit 0', 'exit %s: %s' % (rc, err[-1500:])
    return None

def sub_null(m, cmds):
    return cmds
