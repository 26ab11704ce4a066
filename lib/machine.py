"""Contracts of the construction side, checked on one machine of the family.

Everything here executes the functions of /repo (as compiled) from arbitrary symbolic values where the
contract quantifies over values; object graphs are concrete because construction has no input but the
dependencies.
"""
import os, subprocess, time, z3, re, sys
import gen_ir, refsem, family
from ir import Module, Unsupported, PTR
from sym import *
import stdmodel

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = ['clang++', '-std=c++20', '-fbracket-depth=4096', '-Wno-c++11-narrowing', '-w', '-I' + REPO + '/include', '-I' + ROOT + '/cpp', '-O1', '-Xclang', '-disable-llvm-passes',
         '-fno-strict-aliasing', '-S', '-emit-llvm']
OPT = ['opt', '-S', '-passes=function(sroa,early-cse,simplifycfg)']

class BuildError(Exception): pass

def compile_ir(src, out, extra=()):
    open(out + '.cpp', 'w').write(src)
    r = subprocess.run(CLANG + list(extra) + [out + '.cpp', '-o', out + '.raw.ll'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:3000])
    r = subprocess.run(OPT + [out + '.raw.ll', '-o', out + '.ll'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:3000])
    os.unlink(out + '.raw.ll')
    return out + '.ll'

class EnvLog:
    """guards, actions and handlers as an arbitrary environment that may throw"""
    def __init__(self, ex, throws=True):
        self.throws = throws
        ex.hooks['vp_guard'] = self.guard; ex.hooks['vp_action'] = self.action
        ex.hooks['vp_evdead'] = self.evdead; ex.hooks['vp_handler'] = self.action; ex.hooks['vp_create'] = self.create
    def log(self, st, name, args): st.trace = st.trace + [(name,) + tuple(args)]
    def out(self, ex, st, val, name, args):
        x = None
        if name != 'handler' and isinstance(args[2], Ptr):
            try: x = ex.load(st, args[2], 4) if args[1] != 1 else 0
            except (PathEnd, Unsupported): pass
        self.log(st, name, list(args) + [None] * (9 - len(args)) + [x])
        if not self.throws: return val
        s2 = st.clone()
        s2.trace = s2.trace + [('throws',)]
        return [(st, 'ret', val)] + ex.env_throws(s2)
    def evdead(self, ex, st, name, args, ins):
        """an event ends: its value is not there any more"""
        p = args[0]
        if isinstance(p, Ptr) and p.obj is not None and not p.terms and not isinstance(p.obj, tuple) and p.obj not in ex.regions: st.wobj(p.obj).cells.pop(p.off, None)
        elif isinstance(p, Ptr) and p.obj in ex.regions:
            r = ex.region(p.obj, p.off)
            if r is not None: r.wipe(ex, st, p, 4)
        return [(st, 'ret', None)]
    def guard(self, ex, st, name, args, ins):
        r = ex.fresh('g', 'b')
        st.ghost['gres'] = [r]
        return self.out(ex, st, r, 'guard', args)
    def action(self, ex, st, name, args, ins): return self.out(ex, st, None, name[3:], args)
    def create(self, ex, st, name, args, ins):
        oid = stdmodel.newheap(ex, st, 'made')
        p = ex.alloc(st, oid, 4, 'heap', tag='state'); st.mem[oid].cells[0] = (4, z3.Int('made'))
        return self.out(ex, st, p, 'create', args)

class MV:
    def __init__(self, m, wd, ob, queries=False, rvalue=False, layout=True, deadline=None, sets='all'):
        self.m = m; self.ref = refsem.Ref(m); self.ob = ob; self.wd = wd
        t = time.time()
        src = gen_ir.source(m, queries=queries, rvalue=rvalue, layout=layout, sets=sets)
        self.ll = compile_ir(src, os.path.join(wd, 'ir_' + m['name'] + ('q' if queries else '')))
        self.compile_s = time.time() - t
        self.mod = Module(self.ll)
        self.ex = Exec(self.mod, ob, deadline=deadline); stdmodel.install(self.ex)
        self.env = EnvLog(self.ex)
        self.nd = m['ndeps']
        self.allp = gen_ir.allpairs(m)
        self.events = self.ref.events + ([''] if self.ref.has_anon else [])
        self.evi = {e: i for i, e in enumerate(self.events)}
        self.n = m['name']
    # -- running
    def call(self, st, fn, args, expect='any'):
        s = st.clone(); s.frames = []; s.trace = []; s.result = None
        ends = []
        self.ex.start(s, fn, args)
        self.ex.run(s, ends.append)
        return ends
    def one(self, st, fn, args):
        e = self.call(st, fn, args)
        if len(e) != 1 or e[0].result[0] != 'ret': raise Unsupported('%s: %d paths' % (fn, len(e)))
        return e[0]
    def deps(self, st, k):
        out = []
        for i in range(self.nd):
            oid = 'dep%d_%d' % (i, k)
            if oid not in st.mem: self.ex.alloc(st, oid, 4, 'param')
            out.append(Ptr(oid))
        return out
    def construct(self, st=None, name='SM', k=0):
        st = st or State()
        n = self.one(st, 'vp_sizeof', []).result[1]
        self.ex.alloc(st, name, n, 'param')
        s = self.call(st, 'vp_ctor', [Ptr(name)] + self.deps(st, k))
        good = [x for x in s if x.result[0] == 'ret']
        if len(good) != 1: raise Unsupported('constructor has %d paths' % len(s))
        return good[0]
    def layout(self):
        """where the members are"""
        S = self.base; L = {}
        if self.one(S, 'vp_repr', []).result[1] != 1: raise Unsupported('the machine keeps its configuration in another representation')
        for k in ('cur', 'ini', 'his', 'que', 'reg', 'tab', 'stm') + (('han',)):
            L[k] = self.one(S, 'vp_addr_' + k, [Ptr('SM')]).result[1].off
        L['maxreg'] = self.one(S, 'vp_maxreg', [Ptr('SM')]).result[1]
        L['np'] = self.one(S, 'vp_nparents', [Ptr('SM')]).result[1]
        for e, i in self.evi.items():
            L['tab', e] = self.one(S, 'vp_tab%d' % i, [Ptr('SM')]).result[1].off
            L['tabn', e] = self.one(S, 'vp_tabn%d' % i, [Ptr('SM')]).result[1]
            L['tabs', e] = self.one(S, 'vp_tabs%d' % i, [Ptr('SM')]).result[1]
            if self.m['handler']:
                L['han', e] = self.one(S, 'vp_han%d' % i, [Ptr('SM')]).result[1].off
                L['hans', e] = self.one(S, 'vp_hans%d' % i, [Ptr('SM')]).result[1]
        self.L = L
        # codes of configurations, as set stores them
        self.code = {}
        for i, (p, s) in enumerate(self.allp):
            if 'vp_set3_%d' % i in self.mod.fn_src:
                e = self.one(S, 'vp_set3_%d' % i, [Ptr('SM'), 0])
                self.code[(p, s)] = self.ex.load(e, Ptr('SM', L['cur']), 8)
        self.np = L['np']
        self.ncomb = L['tabn', self.events[0]]
        self.ns = self.ncomb // self.np
        return L
    def setup(self):
        self.base = self.construct()
        self.layout()
        return self
    # -- reading
    def vec(self, st, off):
        b = self.ex.load(st, Ptr('SM', off), 8); e = self.ex.load(st, Ptr('SM', off + 8), 8)
        if not isinstance(b, Ptr) or b.obj is None: return []
        return [self.ex.load(st, b.add(8 * j), 8) for j in range((e.off - b.off) // 8)]
    def entries(self, st, ev, code, sm='SM'):
        """the candidates of a cell, in order: (defer, history, internal, to, transition pointer)"""
        i = self.evi[ev]; sm = Ptr(sm); out = []; r = lambda f, a: self.one(st, f, a).result[1]
        for j in range(r('vp_tcn%d' % i, [sm, code])):
            p = r('vp_tce%d' % i, [sm, code, j]); g = lambda k: r('vp_ns%d_%s' % (i, k), [p])
            out.append((g('defer'), g('history'), g('internal'), g('combinedState'), g('transition')))
        return out
    def slots(self, st, entry):
        """virtual functions of an entry by name; renamed ones by signature"""
        vt = self.ex.load(st, entry, 8)
        out = {}
        k = 0
        o = self.ex.getobj(st, vt.obj)
        while vt.off + 8 * k < o.size:
            f = self.ex.load(st, vt.add(8 * k), 8)
            if isinstance(f, Fn):
                for n in ('executeGuard', 'executeAction', 'executeHandler'):
                    if n in f.name: out[n] = f.name
                    
            k += 1
        return out
    def event(self, st, ev):
        oid = 'EV_' + (ev or 'none')
        if oid not in st.mem:
            self.ex.alloc(st, oid, 4 if ev else 1, 'param')
            if ev: st.mem[oid].cells[0] = (4, z3.Int('evval'))
        return Ptr(oid)
    # -- obligations
    def ok(self, name, classes, good, info=None):
        self.ob.add('%s [%s]' % (name, self.n), classes, bool(good), None if good else dict(info=str(info)[:1500]))
        return bool(good)

# ------------------------------------------------------------------------------------------------
def check_ctor(v):
    """sm::sm: initial configuration"""
    ex, st, L, ref = v.ex, v.base, v.L, v.ref
    root = v.m['root']
    inis = ref.inits[root]
    for r, s in enumerate(inis):
        c = ex.load(st, Ptr('SM', L['cur'] + 8 * r), 8)
        v.ok('sm::sm ensures region %d in its declared initial state' % r, ('C01',), c == v.code[(root, s)], '%s is %s, code of %s is %s' % (r, c, s, v.code[(root, s)]))
    n = ex.load(st, Ptr('SM', L['reg']), 8)
    v.ok('sm::sm ensures number of active regions', ('C01', 'C13'), L['maxreg'] == 1 or n == len(inis), n)
    v.ok('sm ensures storage for the largest number of regions', ('C01', 'C13'), L['maxreg'] >= ref.maxreg, L['maxreg'])
    # parent index order: from codes
    pidx = {p: c // v.ns for (p, s), c in v.code.items()}; sidx = {s: c % v.ns for (p, s), c in v.code.items()}
    v.ok('combined index is injective', ('C08', 'C07'), len(set(v.code.values())) == len(v.code))
    affine = all(c == pidx[p] * v.ns + sidx[s] for (p, s), c in v.code.items()) and len(set(pidx.values())) == len(pidx)
    if not affine and len(set(v.code.values())) == len(v.code): raise Unsupported('configurations are not numbered parent * states + state')
    v.ok('combined index within the tables', ('C13',), all(0 <= c < v.ncomb for c in v.code.values()))
    v.pidx = pidx
    for p in v.m['tables']:
        want = [v.code[(p, s)] for s in ref.inits[p]]
        got = v.vec(st, L['ini'] + 24 * pidx[p])
        v.ok('fill_initial_state_table ensures the initial states of %s' % p, ('C01', 'C07'), got == want, (got, want))
        h = v.vec(st, L['his'] + 24 * pidx[p])
        v.ok('sm::sm ensures the history of %s is its initial state' % p, ('C01', 'C06'), h[:len(want)] == want, (h, want))
        v.ok('sm::sm ensures a history slot for every region (%s)' % p, ('C13', 'C06'), len(h) >= L['maxreg'] and all(isinstance(x, int) and 0 <= x < v.ncomb for x in h), h)
    q = [ex.load(st, Ptr('SM', L['que'] + o), 8) for o in (v.qoff(16), v.qoff(48))]
    v.ok('sm::sm ensures no deferred event', ('C01', 'C05'), q[0].obj == q[1].obj and q[0].off == q[1].off)

def find_queue(v):
    """offset of the deque inside variant_queue"""
    st = v.base
    for o in range(0, 64, 8):
        try: x = v.ex.load(st, Ptr('SM', v.L['que'] + o), 8)
        except PathEnd: continue
        if isinstance(x, Ptr) and isinstance(x.obj, tuple) and x.obj[0] == 'node': return o
    raise Unsupported('deferred queue not found')
MV.qoff = lambda v, o: find_queue(v) + o

def check_tables(v, st=None, tag='sm::sm', classes=('C07',)):
    """the dispatch tables are the declared ones"""
    st = st or v.base
    ref, L = v.ref, v.L
    cell = {c: ps for ps, c in v.code.items()}
    v.cand = []
    for ev in v.events:
        v.ok('%s table of event %s has a cell per configuration' % (tag, ev or 'none'), ('C07', 'C13'), L['tabn', ev] > max(cell), (L['tabn', ev], max(cell)))
        for c in range(L['tabn', ev]):
            if c not in cell: continue      # not a configuration: the machine is never there (shown by the engine stage)
            # a deferral that precedes or follows another one says nothing more
            es = v.entries(st, ev, c)
            es = [e for k, e in enumerate(es) if not k or e[0] != 1 or es[k - 1][0] != 1]
            want = ref.cell(cell[c], ev)
            want = [w for k, w in enumerate(want) if not k or not w.defer or not want[k - 1].defer]
            nm = '%s candidates of (%s,%s) on %s' % (tag, *cell.get(c, ('?', '?')), ev or 'none')
            if not v.ok(nm + ': number', classes, len(es) == len(want), '%d candidates, declared %d: %s' % (len(es), len(want), [w.label for w in want])): continue
            for k, (e, w) in enumerate(zip(es, want)):
                defer, hist, internal, to, tr = e
                if w.defer:
                    v.ok(nm + ' #%d: deferral' % k, classes + ('C05',), defer == 1, e); continue
                v.ok(nm + ' #%d: not a deferral' % k, classes + ('C05',), defer == 0, e)
                if not w.internal: v.ok(nm + ' #%d: target %s' % (k, w.to), classes, to == v.code[w.to], (e, w))
                v.ok(nm + ' #%d: history flag' % k, classes + ('C06',), hist == int(w.history), (e, w))
                v.ok(nm + ' #%d: internal flag' % k, classes, internal == int(w.internal), (e, w))
                alive = isinstance(tr, Ptr) and tr.obj is not None and st.mem.get(tr.obj) is not None and st.mem[tr.obj].alive
                v.ok(nm + ' #%d: owns a transition' % k, classes + ('C13', 'C15'), alive, tr)
                if alive and not ref.is_sub(cell[c][1]): v.cand.append((ev, cell[c], k, tr, w))
    return v.cand

def check_entries(v, st, depk, tag='sm::sm', only=None):
    """every candidate executes exactly its own row, on the machine's own objects"""
    ex, ref = v.ex, v.ref
    inst = v.__dict__.setdefault('inst', {})
    want_deps = v.deps(st, depk) + [NULL, NULL]
    S = ref.S
    same = lambda a, b: isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off
    def statearg(nm, tag_, p, name, st2, classes=('C09', 'C11')):
        good = tag_ == S[name]
        v.ok(nm + ': static type of the state', ('C09', 'C07'), good, (tag_, S[name]))
        if not good: return
        o = st2.mem.get(p.obj) if isinstance(p, Ptr) else None
        v.ok(nm + ': refers to a live object', ('C11', 'C13'), o is not None and o.alive and o.kind == 'heap', p)
        if name in v.m['nodefault']:
            h = v.dyn.get(name)
            v.ok(nm + ': is the stored object', ('C11',), h is not None and same(ex.load(st2, h, 8), p), (p, h))
            return
        if name not in inst: inst[name] = p
        v.ok(nm + ': is the machine\'s instance', classes, same(inst[name], p), (p, inst[name]))
    def evarg(nm, etag, p, ev, st2, copy, x=None):
        v.ok(nm + ': static type of the event', ('C09',), etag == ref.E[ev], etag)
        own = v.event(st2, ev)
        if copy and not same(p, own):
            good = True
            if ev:
                good = is_sym(x) and x.eq(z3.Int('evval'))
            v.ok(nm + ': is a copy of the event', ('C09', 'C11'), good, p)
        else: v.ok(nm + ': is the event', ('C09',), same(p, own), p)
    def deparg(nm, d):
        v.ok(nm + ': dependencies', ('C10', 'C09'), all(same(a, b) for a, b in zip(d, want_deps)), (d, want_deps[:2]))
    n = 0
    for ev, cfg, k, tr, w in v.cand:
        if only is not None and not only(ev, cfg, k, w): continue
        nm = '(%s,%s) on %s #%d (%s)' % (cfg[0], cfg[1], ev or 'none', k, w.label)
        n += 1
        evp = v.event(st, ev)
        sl = v.slots(st, tr)
        if not v.ok(nm + ': has guard and action', ('C09',), 'executeGuard' in sl and 'executeAction' in sl, sl): continue
        # guard
        nullt = w.tgt in v.m['nodefault'] and w.guard is not None and w.tgt != w.src
        v.guardrun = None
        for e in v.call(st, sl['executeGuard'], [tr, evp]):
            t = [x for x in e.trace if x[0] != 'throws']; thrown = e.trace and e.trace[-1][0] == 'throws'
            if w.guard is None:
                v.ok(nm + ': guard always true', ('C07', 'C12'), not t and e.result == ('ret', 1), (t, e.result)); continue
            if not v.ok(nm + ': evaluates its guard once', ('C07', 'C09', 'C12'), [(x[0], x[1]) for x in t] == [('guard', w.guard)], t): continue
            x = t[0]
            if thrown: v.ok(nm + ': exception of the guard propagates', ('C14',), e.result[0] == 'throw' and e.result[1].type == 'VpThrow', e.result)
            else: v.ok(nm + ': result of the guard', ('C07', 'C09'), e.result[0] == 'ret' and is_sym(i2b(e.result[1])) and i2b(e.result[1]).eq(e.ghost['gres'][0]), e.result)
            evarg(nm + ' guard', x[2], x[3], ev, e, False)
            statearg(nm + ' guard source', x[4], x[5], w.src, e); statearg(nm + ' guard target', x[6], x[7], w.src if w.internal else w.tgt, e)
            deparg(nm + ' guard', x[8:10])
        # action
        ends = v.call(st, sl['executeAction'], [tr, evp])
        ids = [(k2, i) for k2, i in w.acts]
        full = 0
        for e in ends:
            t = [x for x in e.trace if x[0] != 'throws']; thrown = e.trace and e.trace[-1][0] == 'throws'
            exp = [('create' if k2 == 'create' else 'action', i) for k2, i in ids]
            cls = ('C09', 'C07') + (('C16',) if len(ids) > 1 else ())
            good = [(x[0], x[1]) for x in t] == exp[:len(t)] and (thrown or len(t) == len(exp))
            v.ok(nm + ': executes its actions once and in order', cls, good, ([(x[0], x[1]) for x in t], exp))
            if thrown: v.ok(nm + ': exception of an action propagates', ('C14', 'C16'), e.result[0] == 'throw' and e.result[1].type == 'VpThrow', e.result)
            else: full += 1; v.ok(nm + ': returns', ('C09', 'C14'), e.result[0] == 'ret', e.result)
            if not good: continue
            for (k2, i), x in zip(ids, t):
                if k2 == 'create':
                    evarg(nm + ' factory', x[2], x[3], ev, e, True, x[-1])
                    v.ok(nm + ' factory: source type', ('C11',), x[4] == S[w.src], x)
                    continue
                evarg(nm + ' action', x[2], x[3], ev, e, k2 == 'reuse', x[-1])
                if k2 == 'reuse':
                    v.ok(nm + ' action: source type', ('C11',), x[4] == S[w.src], x)
                    statearg(nm + ' action target', x[6], x[7], w.tgt, e)
                    continue
                statearg(nm + ' action source', x[4], x[5], w.src, e)
                if w.tgt in v.m['nodefault'] and not w.internal:
                    v.ok(nm + ' action target type', ('C09', 'C11'), x[6] == 1000 + S[w.tgt], x)
                    h = ex.load(e, x[7], 8)
                    if w.tgt in v.dyn: v.ok(nm + ' action target: shared owner', ('C11',), same(h, v.dyn[w.tgt]), (h, v.dyn))
                else: statearg(nm + ' action target', x[6], x[7], w.src if w.internal else w.tgt, e)
                deparg(nm + ' action', x[8:10])
            if any(k2 == 'create' for k2, _ in ids) and not thrown:
                # the object made is stored, the one it replaces is destroyed
                made = [o for o in e.mem if isinstance(o, tuple) and o[0] == 'made' and o not in st.mem]
                h = v.dyn.get(w.tgt)
                if h is not None:
                    p = ex.load(e, h, 8); old = ex.load(st, h, 8)
                    v.ok(nm + ': stores exactly what the factory returned', ('C11',), len(made) == 1 and isinstance(p, Ptr) and p.obj == made[0] and e.mem[made[0]].alive, (p, made))
                    if isinstance(old, Ptr) and old.obj is not None: v.ok(nm + ': destroys the object it replaces', ('C15', 'C11'), not e.mem[old.obj].alive)
        v.ok(nm + ': action terminates normally on one path', ('C09',), full == 1, full)
        # frame: neither guard nor action touches the machine
        for e in ends[:1]:
            v.ok(nm + ': action writes nothing of the machine', ('C17', 'C02'), e.mem['SM'].cells == st.mem['SM'].cells)
    return n

def fill_dynamic(v):
    """give every state that is not default constructible its object, as create_state does"""
    v.dyn = {}
    st = v.base; ex = v.ex
    for name in v.m['nodefault']:
        for ev, cfg, k, tr, w in v.cand:
            if w.tgt == name and any(a[0] == 'create' for a in w.acts):
                before = set(st.mem)
                ends = [e for e in v.call(st, v.slots(st, tr)['executeAction'], [tr, v.event(st, ev)]) if e.result[0] == 'ret']
                e = ends[0]
                made = [o for o in e.mem if isinstance(o, tuple) and o[0] == 'made' and o not in before]
                for o, ob in e.mem.items():
                    if ob.kind == 'heap':
                        for off, (sz, x) in ob.cells.items():
                            if isinstance(x, Ptr) and made and x.obj == made[0]: v.dyn[name] = Ptr(o, off)
                v.ok('create_state stores the object it made (%s)' % name, ('C11',), name in v.dyn)
                e.frames = []; e.trace = []
                st = e
                break
    return st

def check_instances(v):
    ps = [(p.obj, p.off) for p in v.inst.values()]
    v.ok('states map: distinct states have distinct objects', ('C11',), len(set(ps)) == len(ps), v.inst)

def check_handlers(v, st, depk, tag='sm::sm'):
    if not v.m['handler']: return
    ex, ref, L = v.ex, v.ref, v.L
    from gen_cpp import HANDLER_ID
    want = v.deps(st, depk) + [NULL, NULL]
    cell = {c: ps for ps, c in v.code.items()}
    for ev in v.events:
        for c in range(v.ncomb):
            nm = '%s handler of (%s,%s) on %s' % (tag, *cell.get(c, ('?', '?')), ev or 'none')
            if c not in cell: continue
            p = v.one(st, 'vp_hane%d' % v.evi[ev], [Ptr('SM'), c]).result[1]
            alive = isinstance(p, Ptr) and p.obj is not None and st.mem[p.obj].alive
            if not v.ok(nm + ': exists', ('C03', 'C13', 'C15'), alive, p): continue
            s = cell[c][1]
            if s in v.m['nodefault'] and s not in v.dyn: continue
            sl = v.slots(st, p)
            for e in v.call(st, sl['executeHandler'], [p, v.event(st, ev)]):
                t = [x for x in e.trace if x[0] != 'throws']; thrown = e.trace and e.trace[-1][0] == 'throws'
                if not v.ok(nm + ': calls the handler once', ('C03', 'C09'), [(x[0], x[1]) for x in t] == [('handler', HANDLER_ID)], t): continue
                x = t[0]
                v.ok(nm + ': outcome', ('C14', 'C03'), e.result[0] == ('throw' if thrown else 'ret'), e.result)
                ep = v.event(e, ev)
                v.ok(nm + ': event', ('C09', 'C03'), x[2] == ref.E[ev] and isinstance(x[3], Ptr) and (x[3].obj, x[3].off) == (ep.obj, 0), x)
                good = x[4] == ref.S[s] and isinstance(x[5], Ptr)
                if s in v.m['nodefault']: good = good and x[5].obj == ex.load(e, v.dyn[s], 8).obj
                elif s in v.inst: good = good and (x[5].obj, x[5].off) == (v.inst[s].obj, v.inst[s].off)
                elif good: v.inst[s] = x[5]
                v.ok(nm + ': current state object', ('C11', 'C03', 'C09'), good, x)
                v.ok(nm + ': dependencies', ('C10',), all(isinstance(a, Ptr) and a.obj == b.obj for a, b in zip(x[6:8], want)), x)

def havoc_config(v, st):
    """an arbitrary configuration, history and deferred events (markers: only identity matters)"""
    L = v.L; o = st.wobj('SM'); mark = {}
    for r in range(L['maxreg']): o.cells[L['cur'] + 8 * r] = (8, z3.Int('cur%d' % r)); mark['SM', L['cur'] + 8 * r] = 1
    o.cells[L['reg']] = (8, z3.Int('nreg'))
    for p in range(v.np):
        for base in ('his', 'ini'):
            b = v.ex.load(st, Ptr('SM', L[base] + 24 * p), 8)
            e = v.ex.load(st, Ptr('SM', L[base] + 24 * p + 8), 8)
            if isinstance(b, Ptr) and b.obj is not None:
                h = st.wobj(b.obj)
                for j in range((e.off - b.off) // 8): h.cells[b.off + 8 * j] = (8, z3.Int('%s%d_%d' % (base, p, j)))
    return st

def snapshot(v, st, sm='SM'):
    """everything of a machine but its dispatch and handler tables: configuration, history, queue, state data"""
    L = v.L; out = {}
    skip = [(L['tab', e], L['tab', e] + L['tabs', e] * L['tabn', e]) for e in v.events]
    if v.m['handler']: skip += [(L['han', e], L['han', e] + L['hans', e] * v.ncomb) for e in v.events]
    todo = []
    for off, c in st.mem[sm].cells.items():
        if any(a <= off < b for a, b in skip): continue
        out[('SM', off)] = c
        if isinstance(c[1], Ptr) and c[1].obj not in (None, sm): todo.append(c[1].obj)
    seen = set()
    while todo:
        o = todo.pop()
        if o in seen or (isinstance(o, tuple) and o[0] == 'g'): continue
        seen.add(o)
        ob = st.mem.get(o)
        if ob is None: continue
        for off, c in ob.cells.items():
            out[(o, off)] = c
            if isinstance(c[1], Ptr) and c[1].obj not in (None, sm): todo.append(c[1].obj)
        out[(o, 'alive')] = ob.alive
    return out

def same_val(a, b):
    if isinstance(a, tuple): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr): return isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off and len(a.terms) == len(b.terms)
    if is_sym(a) or is_sym(b): return is_sym(a) and is_sym(b) and a.eq(b)
    return a == b

def refcounts(v, key):
    """use counts of shared_ptr control blocks are not state data"""
    return key[1] in (8, 12)

def check_setdep(v, times=2):
    """set_dependency in an arbitrary configuration"""
    st = v.filled.clone()
    st = havoc_config(v, st)
    for k in range(1, times + 1):
        before = snapshot(v, st)
        old = [(ev, c, v.entries(st, ev, c)) for ev in v.events for c in range(v.L['tabn', ev])]
        ends = v.call(st, 'vp_setdep', [Ptr('SM')] + v.deps(st, k))
        if not v.ok('set_dependency #%d: returns' % k, ('C10',), len(ends) == 1 and ends[0].result[0] == 'ret', [e.result for e in ends]): return
        e = ends[0]; e.frames = []; e.trace = []
        after = snapshot(v, e)
        diff = [x for x in before if x in after and not same_val(before[x], after[x]) and not refcounts(v, x)] + \
               [x for x in before if x not in after and not refcounts(v, x)]
        v.ok('set_dependency #%d: configuration, history, deferred events and state data unchanged' % k, ('C10',), not diff, diff[:5])
        tag = 'set_dependency #%d:' % k
        check_tables(v, e, tag, ('C10', 'C07'))
        for ev, c, es in old:
            for x in es:
                if isinstance(x[4], Ptr) and x[4].obj is not None:
                    v.ok('set_dependency #%d: transitions replaced are destroyed' % k, ('C15',), not e.mem[x[4].obj].alive, (ev, c))
        check_entries(v, e, k, tag)
        check_handlers(v, e, k, tag)
        st = e
    v.afterdep = st

def check_dtor(v, st=None, tag=''):
    """everything allocated for the machine is released once"""
    st = st or v.base
    ends = v.call(st, 'vp_dtor', [Ptr('SM')])
    if not v.ok('~sm%s: returns' % tag, ('C15',), len(ends) == 1 and ends[0].result[0] == 'ret', [e.result for e in ends]): return
    e = ends[0]
    leak = [o for o, x in e.mem.items() if x.kind == 'heap' and x.alive and not (isinstance(o, tuple) and o[0] == 'keep')]
    v.ok('~sm%s: nothing leaks' % tag, ('C15',), not leak, leak[:5])

def reach(v, st, sm):
    todo = [sm]; seen = set()
    while todo:
        o = todo.pop()
        if o in seen: continue
        seen.add(o)
        ob = st.mem.get(o)
        if ob is None: continue
        for off, c in ob.cells.items():
            x = c[1]
            if isinstance(x, Ptr) and x.obj is not None:
                y = x.obj
                if isinstance(y, tuple) and y[0] == 'node': y = y[1]
                if isinstance(y, tuple) and y[0] == 'g': 
                    if st.mem.get(y) is not None and st.mem[y].kind == 'global': seen.add(y)
                    continue
                todo.append(y)
    return seen

def check_two(v):
    """a second machine shares nothing with the first, and making it changes nothing of the first"""
    st = v.filled.clone()
    before = {o: dict(x.cells) for o, x in st.mem.items()}
    ex = v.ex
    ex.gmut_read.clear(); ex.gmut_write.clear()
    s2 = v.construct(st, 'SM2', 9)
    s2.frames = []
    a, b = reach(v, s2, 'SM'), reach(v, s2, 'SM2')
    sh = [o for o in a & b if not (isinstance(o, str) and o.startswith('dep'))]
    v.ok('sm::sm: machines share no object', ('C17', 'C11'), not sh, sh[:5])
    ch = [o for o in before if o in s2.mem and before[o] != s2.mem[o].cells and (o in a)]
    v.ok('sm::sm: constructing a machine changes nothing of another', ('C17',), not ch, ch[:5])
    w = [g for g in ex.gmut_write if not g.startswith('_ZGV')]
    v.ok('sm::sm: writes no object outside the machine', ('C17', 'C11'), not ex.gmut_write, list(ex.gmut_write)[:5])
    # set_dependency of the second
    m1 = {o: dict(s2.mem[o].cells) for o in a if o in s2.mem}
    ends = v.call(s2, 'vp_setdep', [Ptr('SM2')] + v.deps(s2, 8))
    e = ends[0]; e.frames = []
    ch = [o for o in m1 if e.mem.get(o) is None or m1[o] != e.mem[o].cells]
    v.ok('set_dependency: changes nothing of another machine', ('C17', 'C10'), not ch, ch[:5])
    v.ok('set_dependency: writes no object outside the machine', ('C17',), not ex.gmut_write, list(ex.gmut_write)[:5])
    ends = v.call(e, 'vp_dtor', [Ptr('SM2')])
    f = ends[0]
    ch = [o for o in m1 if f.mem.get(o) is None or m1[o] != f.mem[o].cells or not f.mem[o].alive]
    v.ok('~sm: destroys nothing of another machine', ('C17', 'C15', 'C11'), not ch, ch[:5])
