"""Contracts of is, parent_is and set: any configuration, any region number."""
import z3
from ir import Unsupported
from sym import *
from family import states_of

def run_all(e, st0, fn, args, post):
    """post(st) on every path; it may split the cases"""
    ex = e.ex
    def end(st):
        work = [st]
        while work:
            s = work.pop()
            try: post(s)
            except PathEnd: pass
            except Fork as f:
                for c, _ in f.alts:
                    s2 = s.clone()
                    if callable(c): c(s2); work.append(s2); continue
                    if ex.check(s2, c) is False: continue
                    try: ex.assume(s2, c)
                    except PathEnd: continue
                    work.append(s2)
    st = st0.clone(); st.frames = []; st.trace = []; st.result = None
    ex.start(st, fn, args)
    ex.run(st, end)

def start(e):
    """any configuration"""
    v = e.v
    st = v.filled.clone()
    st.frames = []; st.trace = []; st.result = None; st.pc = []; st.pcids = set(); st.eqs = {}; st.ghost = {'qo': {}, 'val': {}}
    e.base = st.clone()
    class Cfg: pass
    sp = Cfg(); sp.ver = 0
    st.spec = None
    e.fresh_config(st, sp, None)
    e.base = st.clone()
    return st, sp

def truth(ex, st, x):
    x = ex.tok(st, x)
    if isinstance(x, bool) or isinstance(x, int): return bool(x)
    if is_sym(x):
        b = ex.check(st, i2b(x))
        if b is not None: return b
        raise Fork([(i2b(x), None), (z3.Not(i2b(x)), None)])
    raise Unsupported('result %r' % (x,))

def check_queries(e):
    reach = set((p, ch[1]) for p in e.ref.parents for ch in e.ref.children(p) if ch[0] == 'state' and not e.ref.is_sub(ch[1]))
    e.v.reachable = reach
    v = e.v; ex = e.ex; ref = v.ref
    e.usehist = True; e.qs = None
    cs = list(v.code.items())
    for i, (a, c) in enumerate(cs):
        for b, d in cs[:i]:
            v.ok('distinct configurations are told apart: %s %s' % (a, b), ('C08', 'C13'), c != d)
    ex.gmut_read.clear(); ex.gmut_write.clear()
    for i, (p, s) in enumerate(v.allp):
        if ref.is_sub(s): continue
        for r in range(ref.maxreg):
            query(e, 'is(region %d, %s, %s)' % (r, p, s), 'vp_is3_%d' % i, [r], r, lambda a, b: b[0] == p and a[1] == s)
        query(e, 'is(%s, %s)' % (p, s), 'vp_is2_%d' % i, [], 0, lambda a, b: b[0] == p and a[1] == s)
    for i, s in enumerate(states_of(v.m)):
        if ref.is_sub(s): continue
        query(e, 'is(%s)' % s, 'vp_is1_%d' % i, [], 0, lambda a, b: a[1] == s)
    for i, p in enumerate(v.m['tables']):
        query(e, 'parent_is(%s)' % p, 'vp_parent_%d' % i, [], 0, lambda a, b: b[0] == p)
    asked = False
    for i, (p, s) in enumerate(v.allp):
        if (p, s) not in v.reachable: continue
        for r in range(ref.maxreg):
            setter(e, 'set(region %d, %s, %s)' % (r, p, s), 'vp_set3_%d' % i, [r], r, v.code[p, s])
        setter(e, 'set(%s, %s)' % (p, s), 'vp_set2_%d' % i, [], 0, v.code[p, s])
        out_of_range(e, 'set(region out of range, %s, %s)' % (p, s), 'vp_set3_%d' % i)
        if not asked and not ref.is_sub(s): out_of_range(e, 'is(region out of range, %s, %s)' % (p, s), 'vp_is3_%d' % i, True); asked = True
    for i, s in enumerate(states_of(v.m)):
        if (ref.m['root'], s) in v.reachable:
            setter(e, 'set(%s)' % s, 'vp_set1_%d' % i, [], 0, v.code[ref.m['root'], s])
    v.ok('queries and set write no global object', ('C17',), not ex.gmut_write, sorted(ex.gmut_write)[:5])
    v.ok('queries and set depend on no global object', ('C17',), not ex.gmut_read, sorted(ex.gmut_read)[:5])

def guarded(v, name, cls, f):
    n0 = len(v.ob.failed)
    f()
    if len(v.ob.failed) == n0: v.ok(name, cls, True)

def failer(e, name):
    def fail(st, what, cls, info=None):
        e.ex.fail(st, '%s: %s [%s]' % (name, what, e.v.n), cls, info)
        raise PathEnd()
    e.fail = fail

def query(e, name, fn, args, r, want):
    ex = e.ex; st, sp = start(e)
    cov = set()
    failer(e, name)
    def post(s):
        k, x = s.result
        if k != 'ret': e.fail(s, 'throws', ('C08', 'C13'), s.result)
        got = truth(ex, s, x)
        a = ex.tok(s, sp.cur[r])
        if a is UNDEF or (isinstance(a, Tok)): raise PathEnd()
        b = ex.tok(s, sp.cur[0])
        w = want(e.cell[a], e.cell[b])
        if got != w: e.fail(s, 'answers for the current state', ('C08',), '%s in %s, active parent %s' % (got, e.cell[a], e.cell[b][0]))
        cov.add((a, e.cell[b][0]))
        s.spec = sp
        bad = e.insync(s)
        if bad: e.fail(s, 'does not change the configuration', ('C08',), bad)
        e.frame(s, ('C08',))
    def go():
        # the region asked about is active
        for par, n in e.ninit.items():
            if n <= r: continue
            s = st.clone()
            d = tuple(c for c in e.dom if e.par[c] == par)
            if not d: continue
            tokset(sp.cur[0].name, d)(s)
            run_all(e, s, fn, [Ptr('SM')] + args, post)
        if not cov: e.v.ok(name + ': some configuration covered', ('C08',), False)
    guarded(e.v, name + ' answers for the current state and changes nothing', ('C08', 'C13', 'C17'), go)

def setter(e, name, fn, args, r, code):
    ex = e.ex; st, sp = start(e)
    failer(e, name)
    def post(s):
        k, x = s.result
        if k != 'ret': e.fail(s, 'throws', ('C08', 'C13'), s.result)
        class Cfg: pass
        q = Cfg(); q.cur = list(sp.cur); q.hist = sp.hist
        old = ex.tok(s, sp.n) if e.maxreg > 1 else 1
        q.cur[r] = code
        c0 = ex.tok(s, q.cur[0]) if e.maxreg > 1 else code
        q.n = sp.n
        if e.maxreg > 1:
            par = e.par[c0]; ini = e.ref.inits[par]
            for j in range(old, len(ini)): q.cur[j] = e.code[par, ini[j]]
            q.n = len(ini) or 1
        s.spec = q
        bad = e.insync(s)
        if bad: e.fail(s, 'only the region given changes', ('C08', 'C13'), bad)
        e.frame(s, ('C08',))
    guarded(e.v, name + ' puts the region there and keeps the invariant', ('C08', 'C13', 'C17'), lambda: run_all(e, st, fn, [Ptr('SM')] + args, post))

def out_of_range(e, name, fn, query=False):
    ex = e.ex; st, sp = start(e)
    failer(e, name)
    r = z3.Int('region')
    ex.assume(st, r >= e.maxreg); ex.assume(st, r <= 255)
    def post(s):
        k, x = s.result
        if k != 'throw' and not (query and x == 0): e.fail(s, 'throws', ('C08', 'C13'), s.result)
        s.spec = sp
        bad = e.insync(s)
        if bad: e.fail(s, 'changes nothing', ('C08', 'C13'), bad)
        e.frame(s, ('C08',))
    guarded(e.v, name + (' is false or throws, changes nothing' if query else ' throws and changes nothing'), ('C08', 'C13'), lambda: run_all(e, st, fn, [Ptr('SM'), r], post))
