"""Contract of process_event, checked on the compiled code of one machine.

Precondition: the machine invariant, and nothing else - any configuration, any history, any number of
deferred events of any kind and value, any event value; guards, actions and handlers are an arbitrary
environment that may return anything and throw at any call.

Postcondition: the specification below, run in lock step.  It never looks at the implementation's
data; it predicts every call into the environment and the final machine.

Loops and calls: whenever the specification stands at the beginning of a region (or of the retry) and
the machine agrees with it, the machine is forgotten and replaced by an arbitrary one that satisfies
the invariant (a join).  A program point is explored once per join, so the argument is inductive: no
bound on the number of anonymous transitions, deferred events or earlier events.
"""
import z3
from ir import Unsupported
from sym import *
import stdmodel
from gen_cpp import HANDLER_ID

LQ = z3.Int('deferred')
QMAX = 1 << 28

class Spec:
    F = ('stage', 'ev', 'r', 'k', 'count', 'taken', 'rejected', 'acts', 'cand', 'looked', 'result', 'popped', 'exc', 'n', 'ver', 'hit', 'fresh')
    def __init__(s, eng, ideal):
        s.eng = eng; s.ideal = ideal
        s.stage = 'main'; s.ev = None; s.r = 0; s.k = 0; s.count = None; s.taken = False; s.rejected = False
        s.acts = (); s.cand = None; s.looked = False; s.result = None; s.popped = 0; s.exc = None; s.n = None; s.ver = 0; s.fresh = False
        s.cur = []; s.hist = {}; s.pushed = (); s.hit = False
    def copy(s):
        t = Spec.__new__(Spec)
        t.__dict__.update(s.__dict__)
        t.cur = list(s.cur); t.hist = dict(s.hist)
        return t
    def goto_region(s, r): s.r = r; s.k = 0; s.looked = False; s.fresh = False; s.cand = None
    def start_pass(s, stage, ev):
        s.stage = stage; s.ev = ev; s.count = None; s.taken = False; s.rejected = False; s.goto_region(0)
    def done(s, res): s.stage = 'done'; s.result = res; s.cand = None; s.acts = ()
    def phase(s):
        return (s.stage, s.ev[0] if s.ev else None, str(s.ev[1]) if s.ev else None, s.r, s.k, s.count, s.taken, s.rejected, len(s.acts),
                s.looked, s.fresh, s.result, s.popped, repr(s.exc), s.hit)
    def run(s, ex, st, force):
        """silent steps up to the next call into the environment.  Unforced, the specification does
        not go past what the code has looked at."""
        E = s.eng; ref = E.ref
        while True:
            if s.acts: return ('act', s.acts[0])
            if s.stage in ('main', 'retry', 'manon', 'ranon'):
                if s.count is None:
                    n = ex.tok(st, s.n) if force else ex.tokpeek(st, s.n)
                    if isinstance(n, Tok): return None
                    s.count = n; s.ver += 1
                if s.r >= s.count:
                    s.ver += 1; s.end_pass(); continue
                if not force and not s.looked: return None
                c = ex.tok(st, s.cur[s.r]) if force else ex.tokpeek(st, s.cur[s.r])
                if isinstance(c, Tok): return None
                anon = s.stage in ('manon', 'ranon')
                cands = ref.cell(E.cell[c], s.ev[0])
                if s.k >= len(cands):
                    s.ver += 1
                    if not cands and anon and not s.ideal:
                        s.hit = True; s.after_anon(); continue
                    if cands: s.rejected = True
                    s.goto_region(s.r + 1); continue
                w = cands[s.k]
                if w.defer:
                    s.ver += 1
                    s.pushed = s.pushed + (s.ev,)
                    s.done(False if s.stage == 'main' else True); continue
                if w.guard is not None: return ('guard', w)
                if not force: return None       # nothing shows that the code has taken it yet
                s.take(ex, st, w); continue
            if s.stage == 'retry?':
                if not ref.has_defer: s.ver += 1; s.done(True); continue
                if not force:
                    # not before the code removed the event
                    a = ex.load(st, Ptr('SM', E.qoff + 16), 8)
                    if not (isinstance(a, Ptr) and not a.terms and a.off > E.qs * s.popped): return None
                    if isinstance(ex.tokpeek(st, E.qevent(st, s.popped)[0]), Tok): return None
                    if ex.check(st, LQ - s.popped > 0) is not True: return None
                base = LQ - s.popped > 0
                k = ex.check(st, base)
                if k is None: raise Fork([(base, None), (z3.Not(base), None)])
                s.ver += 1
                if k: ev = E.qevent(st, s.popped)
                elif s.pushed: ev = s.pushed[0]; raise Unsupported('retry of an event deferred by the same call')
                else: s.done(True); continue
                name = ex.tok(st, ev[0])
                s.popped += 1
                s.start_pass('retry', (name, ev[1], 'copy')); continue
            if s.stage == 'handler': return ('handler', None)
            return ('done', s.result)
    def after_anon(s):
        if s.stage == 'manon': s.stage = 'retry?'; s.ev = None; s.cand = None; s.looked = False; s.r = s.k = 0; s.count = None
        else: s.done(True)
    def end_pass(s):
        ref = s.eng.ref
        if s.stage in ('manon', 'ranon'):
            if s.taken: s.start_pass(s.stage, s.ev)
            else: s.after_anon()
        elif s.taken:
            a = 'manon' if s.stage == 'main' else 'ranon'
            if ref.has_anon: s.start_pass(a, ('', 0, 'own'))
            else: s.stage = a; s.after_anon()
        elif s.stage == 'main':
            if s.rejected or not s.eng.m['handler']: s.done(False)
            else: s.stage = 'handler'
        else: s.done(True)
    def take(s, ex, st, w):
        """the effect of a transition that is executed now"""
        E = s.eng; r = s.r
        if not w.internal:
            src = ex.tok(st, s.cur[r]); n = s.n
            if r == 0 and E.maxreg > 1: n = ex.tok(st, s.n)
            to = E.code[w.to]
            if w.history:
                h = s.hist[w.to[0], r] if E.cell[src][0] != w.to[0] else src
                to = h
            if r == 0 and E.maxreg > 1: to = ex.tok(st, to)
            s.hist[E.cell[src][0], r] = src
            s.cur[r] = to
            if r == 0 and E.maxreg > 1:
                par = E.cell[to][0]; ini = E.ref.inits[par]
                for j in range(n, len(ini)): s.cur[j] = E.code[(par, ini[j])]
                s.n = len(ini) or 1
        s.ver += 1
        s.taken = True; s.cand = w; s.k = 0
        if w.acts: s.acts = tuple(w.acts)
        else: s.goto_region(r + 1)
    def acted(s):
        s.acts = s.acts[1:]; s.ver += 1
        if not s.acts: s.goto_region(s.r + 1)

STAGE_CLS = {'main': ('C02',), 'retry': ('C05',), 'manon': ('C04',), 'ranon': ('C04', 'C05'), 'retry?': ('C05',), 'handler': ('C03',), 'done': ('C02',)}

class CfgRegion:
    """marks which cells of the tables the code looked at"""
    transparent = True
    def __init__(s, lo, hi, cell, eng, ev): s.lo = lo; s.hi = hi; s.cell = cell; s.eng = eng; s.ev = ev
    def load(s, ex, st, p, size):
        sp = st.spec
        if sp is None or p.terms or sp.exc is not None: return NotImplemented
        if not sp.looked and sp.stage not in ('done', 'handler'): sp = s.eng.advance(st)
        if sp.ev is not None and sp.ev[0] == s.ev and sp.stage in ('main', 'retry', 'manon', 'ranon') and not sp.looked and sp.fresh:
            c = (p.off - s.lo) // s.cell
            if sp.r < len(sp.cur):
                x = ex.tokpeek(st, sp.cur[sp.r])
                if not isinstance(x, Tok) and x == c:
                    n = sp.copy(); n.looked = True; n.ver += 1; st.spec = n
        return NotImplemented
    def store(s, ex, st, p, size, v): return NotImplemented

class CurRegion:
    """marks for which region the code asked for the current state"""
    transparent = True
    def __init__(s, lo, hi, eng): s.lo = lo; s.hi = hi; s.eng = eng
    def load(s, ex, st, p, size):
        sp = st.spec
        if sp is None or p.terms or sp.exc is not None or sp.fresh: return NotImplemented
        sp = s.eng.advance(st)
        if sp.stage in ('main', 'retry', 'manon', 'ranon') and not sp.fresh and sp.r == (p.off - s.lo) // 8:
            n = sp.copy(); n.fresh = True; st.spec = n
        return NotImplemented
    def store(s, ex, st, p, size, v): return NotImplemented

class QRegion:
    """the deferred events: element j (from the first) is (kind token, value); what is pushed follows"""
    lo = -(1 << 62); hi = 1 << 62
    def __init__(s, eng): s.e = eng
    def where(s, ex, st, p):
        if not p.terms: return ('b', p.off)
        if len(p.terms) == 1 and p.terms[0][0] == s.e.qs and z3.is_expr(p.terms[0][1]) and p.terms[0][1].eq(LQ): return ('t', p.off)
        raise Unsupported('address in the queue: %r' % p)
    def elem(s, ex, st, p, off):
        """cells of the base element containing off"""
        S = s.e.qs; j = off // S
        if off < 0 or ex.check(st, LQ > j) is not True:
            ex.fail(st, 'memory: reads a deferred event that does not exist', ('C13', 'C05')); raise PathEnd()
        first = ex.load(st, Ptr('SM', s.e.qoff + 16), 8)
        if isinstance(first, Ptr) and first.obj == p.obj and not first.terms and j * S < first.off:
            ex.fail(st, 'memory: reads a deferred event after it has left the queue', ('C13', 'C05')); raise PathEnd()
        name, val, _ = s.e.qevent(st, j)
        if j in st.ghost['qw']: return j * S, {o - j * S: c for o, c in st.ghost['qw'][j].items()}
        name = ex.tok(st, name)
        return j * S, {o: (z, val if (is_sym(v)) else v) for o, (z, v) in s.e.qtemplate[name].items()}
    def cellmap(s, ex, st, p):
        k, off = s.where(ex, st, p)
        S = s.e.qs
        if k == 't' and off >= 0:
            q = st.ghost['qo']
            return {o - off: c for o, c in q.items()}
        if k == 't': raise Unsupported('last element of the queue')
        b, cs = s.elem(ex, st, p, off)
        return {b + o - off: c for o, c in cs.items()}
    def load(s, ex, st, p, size):
        o = Obj(None, 'heap'); o.cells = s.cellmap(ex, st, p)
        return ex.load_odd(o, 0, size)
    def fields_in(s, ex, st, p, n):
        o = s.cellmap(ex, st, p)
        return [(k, c[0], c[1]) for k, c in sorted(o.items()) if 0 <= k and k + c[0] <= n and c[1] is not UNDEF]
    def store(s, ex, st, p, size, v):
        k, off = s.where(ex, st, p)
        if k == 'b':
            b, cs = s.elem(ex, st, p, off)
            o = Obj(None, 'heap'); o.cells = {b + x: c for x, c in cs.items()}
            ex.setcell(o, off, size, v); st.ghost['qw'] = dict(st.ghost['qw']); st.ghost['qw'][b // s.e.qs] = o.cells
            return
        q = dict(st.ghost['qo']); o = Obj(None, 'heap'); o.cells = q
        ex.setcell(o, off, size, v); st.ghost['qo'] = q
    def wipe(s, ex, st, d, n):
        k, off = s.where(ex, st, d)
        if k == 'b':
            b, cs = s.elem(ex, st, d, off)
            if off + n > b + s.e.qs: raise Unsupported('write over several deferred events')
            st.ghost['qw'] = dict(st.ghost['qw']); st.ghost['qw'][b // s.e.qs] = {b + x: c for x, c in cs.items() if not (off <= b + x and b + x + c[0] <= off + n)}
            return True
        q = {o: c for o, c in st.ghost['qo'].items() if not (off <= o and o + c[0] <= off + n)}
        st.ghost['qo'] = q
        return True

class Engine:
    def __init__(self, v, ideal=False):
        self.v = v; self.m = v.m; self.ref = v.ref; self.ex = v.ex; self.L = v.L; self.ob = v.ob
        self.ideal = ideal
        self.cell = {c: ps for ps, c in v.code.items()}
        self.code = v.code; self.maxreg = v.ref.maxreg
        self.par = {c: ps[0] for c, ps in self.cell.items()}
        self.dom = tuple(sorted(c for c, (p, s) in self.cell.items() if not v.ref.is_sub(s)))
        self.ninit = {p: len(i) or 1 for p, i in v.ref.inits.items()}
        self.seen = set(); self.gen = 0; self.joins = 0; self.hits = 0; self.paths = 0
        self.hcell = {}     # (parent, region) -> (object, offset)
        self.usehist = any(c.history for cs in v.ref.cells.values() for c in cs if not c.defer)
        self.fails0 = 0
        st = v.base
        for p in v.m['tables']:
            b = self.ex.load(st, Ptr('SM', self.L['his'] + 24 * v.pidx[p]), 8)
            for r in range(self.maxreg): self.hcell[p, r] = (b.obj, b.off + 8 * r)
        self.qoff = v.L['que'] + v.qoff(0)
        self.qtemplate = {}
    # -- machine
    def ntok(self, t0):
        return DTok('n', t0, lambda c: self.ninit[self.par[c]])
    def fresh_config(self, st, sp, defd, count=None):
        """an arbitrary machine that satisfies the invariant, the same for code and specification"""
        L = self.L
        if defd is None: defd = 1
        o = st.wobj('SM')
        self.gen += 1
        val = {k: x for k, x in st.ghost.get('val', {}).items() if k[0] == 'q'}
        st.ghost['val'] = val
        sp.cur = []
        for r in range(self.maxreg):
            t = Tok('cur%d' % r, self.dom if count is None or r else tuple(c for c in self.dom if self.ninit[self.par[c]] == count)) if r < defd else None
            if t is None:
                # active regions are initialised; the others may never have been
                t = DTok('cur%d?' % r, sp.cur[0], (lambda r: lambda c: Tok('cur%d' % r, self.dom) if r < self.ninit[self.par[c]] else UNDEF)(r))
            sp.cur.append(t); o.cells[L['cur'] + 8 * r] = (8, t)
        sp.n = self.ntok(sp.cur[0])
        if self.maxreg > 1: o.cells[L['reg']] = (8, sp.n)
        else: sp.n = 1
        sp.hist = {}
        for (p, r), (oid, off) in self.hcell.items():
            t = Tok('hist_%s_%d' % (p, r), tuple(c for c in self.dom if self.par[c] == p))
            sp.hist[p, r] = t
            st.wobj(oid).cells[off] = (8, t)
    def insync(self, st):
        """does the machine agree with the specification? None or a complaint"""
        ex = self.ex; sp = st.spec
        mem = st.mem['SM'].cells
        n = ex.tokpeek(st, sp.n)
        for r in range(self.maxreg):
            if not isinstance(n, Tok) and r >= n: continue
            a = mem.get(self.L['cur'] + 8 * r); b = sp.cur[r]
            if not self.same(st, a[1] if a else UNDEF, b): return 'region %d is in %s, expected %s' % (r, self.nm(st, a[1] if a else UNDEF), self.nm(st, b))
        if self.maxreg > 1:
            a = mem.get(self.L['reg'])
            if not self.same(st, a[1], sp.n): return 'number of active regions is %s, expected %s' % (a[1], ex.tokpeek(st, sp.n))
        if self.usehist:
            for (p, r), (oid, off) in self.hcell.items():
                a = st.mem[oid].cells.get(off)
                if not self.same(st, a[1] if a else UNDEF, sp.hist[p, r]):
                    return 'history of %s in region %d is %s, expected %s' % (p, r, self.nm(st, a[1] if a else UNDEF), self.nm(st, sp.hist[p, r]))
        return None
    def nm(self, st, x):
        x = self.ex.tokpeek(st, x)
        return '(%s,%s)' % self.cell[x] if isinstance(x, int) and x in self.cell else repr(x)
    def same(self, st, a, b):
        a = self.ex.tokpeek(st, a); b = self.ex.tokpeek(st, b)
        if isinstance(a, Tok) or isinstance(b, Tok):
            return isinstance(a, Tok) and isinstance(b, Tok) and (a is b or a.name == b.name)
        return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)
    # -- deferred events
    def learn_queue(self):
        """what a deferred event looks like in memory, from deferring one"""
        v = self.v; ex = self.ex
        if not self.ref.has_defer: self.qs = None; return
        for ev in self.ref.events:
            for c in self.dom:
                cs = self.ref.cell(self.cell[c], ev)
                if cs and cs[0].defer:
                    s = v.filled.clone(); o = s.wobj('SM')
                    o.cells[self.L['cur']] = (8, c)
                    if self.maxreg > 1: o.cells[self.L['reg']] = (8, self.ninit[self.par[c]])
                    f0 = ex.load(s, Ptr('SM', self.qoff + 48), 8)
                    v.event(s, ev)
                    es = [e for e in v.call(s, 'vp_pe%d' % v.evi[ev], [Ptr('SM'), v.event(s, ev)])]
                    if len(es) != 1: raise Unsupported('deferring is not deterministic')
                    e = es[0]
                    f1 = ex.load(e, Ptr('SM', self.qoff + 48), 8)
                    if f1.obj != f0.obj or f1.off <= f0.off: raise Unsupported('deferring does not append to the queue')
                    self.qs = f1.off - f0.off
                    self.qtemplate[ev] = {k - f0.off: c2 for k, c2 in e.mem[f0.obj].cells.items() if k >= f0.off}
                    self.chunk = f0.obj
                    break
        if not self.qtemplate: self.qs = None
    def qevent(self, st, j):
        return (Tok('q%d' % j, tuple(sorted(self.qtemplate))), z3.Int('q%dval' % j), 'copy')
    # -- running
    def start(self, fn, ev):
        v = self.v; ex = self.ex; L = self.L
        st = v.filled.clone()
        st.frames = []; st.trace = []; st.result = None; st.pc = []; st.pcids = set(); st.eqs = {}; st.ghost = {'qo': {}, 'qw': {}, 'val': {}}
        self.base = st.clone()
        sp = Spec(self, self.ideal)
        sp.start_pass('main', (ev, z3.Int('evval'), 'own'))
        st.spec = sp
        self.fresh_config(st, sp, None)
        self.evp = v.event(st, ev)
        ex.regions = {'SM': [CfgRegion(L['tab', e], L['tab', e] + L['tabs', e] * L['tabn', e], L['tabs', e], self, e) for e in v.events] +
                      [CurRegion(L['cur'], L['cur'] + 8 * self.maxreg, self)]}
        if self.qs:
            ex.regions[self.chunk] = [QRegion(self)]
            ex.assume(st, LQ >= 0); ex.assume(st, LQ <= QMAX)
            o = st.wobj('SM')
            ex.store(st, Ptr('SM', self.qoff + 16), 8, Ptr(self.chunk, 0))
            ex.store(st, Ptr('SM', self.qoff + 48), 8, Ptr(self.chunk, 0, ((self.qs, LQ),)))
            st.wobj(self.chunk).cells = {}
        self.base.mem['SM'] = st.mem['SM']
        return st
    def verify(self, fn, ev):
        ex = self.ex
        self.seen = set(); self.fn = fn; self.ev = ev
        hooks = dict(ex.hooks)
        ex.hooks['vp_guard'] = lambda ex, st, n, a, i: self.env(st, 'guard', a)
        ex.hooks['vp_action'] = lambda ex, st, n, a, i: self.env(st, 'action', a)
        ex.hooks['vp_handler'] = lambda ex, st, n, a, i: self.env(st, 'handler', a)
        ex.hooks['vp_create'] = lambda ex, st, n, a, i: self.env(st, 'create', a)
        ex.hookcache.clear()
        ex.join = self.join
        st = self.start(fn, ev)
        ex.gmut_read.clear(); ex.gmut_write.clear()
        try:
            ex.start(st, fn, [Ptr('SM'), self.evp])
            ex.run(st, self.end)
        finally:
            ex.join = None; ex.regions = {}; ex.hooks = hooks; ex.hookcache.clear()
        nm = '%s: ' % self.title()
        self.ob.add(nm + 'writes no global object', ('C17',), not ex.gmut_write, dict(info=sorted(ex.gmut_write)[:5]))
        self.ob.add(nm + 'depends on no global object', ('C17',), not ex.gmut_read, dict(info=sorted(ex.gmut_read)[:5]))
    def title(self): return 'process_event(%s%s) [%s]' % (self.ev, ' rvalue' if 'per' in self.fn else '', self.v.n)
    def fail(self, st, what, cls, info=None):
        self.ex.fail(st, '%s: %s' % (self.title(), what), cls, info)
        raise PathEnd()
    def ok(self, what, cls): self.ob.add('%s: %s' % (self.title(), what), cls, True)
    def env(self, st, kind, a):
        ex = self.ex
        if st.spec.exc is not None: self.fail(st, 'nothing is executed after an exception', ('C14',), '%s %s' % (kind, a[0]))
        sp = st.spec.copy()
        o = sp.run(ex, st, True)       # may split the cases
        stage = sp.stage
        cls = STAGE_CLS[stage]
        k0 = {'guard': 'guard', 'action': 'act', 'create': 'act', 'handler': 'handler'}[kind]
        want = None
        if o[0] == 'guard': want = o[1].guard
        elif o[0] == 'act': want = o[1][1]
        elif o[0] == 'handler': want = HANDLER_ID
        w = o[1] if o[0] == 'guard' else sp.cand
        good = o[0] == k0 and a[0] == want
        if good and kind in ('action', 'create'): good = (o[1][0] == 'create') == (kind == 'create')
        st.trace = st.trace + [(kind, a[0])]
        if not good:
            c = cls
            if o[0] == 'act' or (kind == 'action' and o[0] != 'guard'): c = c + ('C09', 'C02')
            if kind == 'handler' or o[0] == 'handler': c = c + ('C03',)
            if st.spec.popped or sp.popped: c = c + ('C05',)
            if self.usehist: c = c + ('C06',)
            if o[0] == 'done' and stage == 'done': c = c + ('C03', 'C04', 'C05')
            self.fail(st, '%s is what is due' % kind, c, 'calls %s %s where %s %s is due (stage %s, region %s, configuration %s)' %
                      (kind, a[0], o[0], want if want is not None else o[1], stage, sp.r, [self.nm(st, x) for x in sp.cur]))
        self.ok('the %s called is the one that is due' % kind, cls)
        self.args(st, sp, kind, a, w, o)
        if kind == 'guard':
            no = sp; no.k += 1; no.rejected = True; no.ver += 1
            yes = sp.copy(); yes.k -= 1; yes.take(ex, st, w)
            thr = sp.copy(); thr.exc = 'guard'
            s2 = st.clone(); s2.spec = no
            s3 = st.clone(); s3.spec = thr; s3.trace = st.trace + ['throws']
            st.spec = yes; st.trace = st.trace + ['true']; s2.trace = s2.trace + ['false']
            return [(st, 'ret', 1), (s2, 'ret', 0)] + ex.env_throws(s3)
        thr = sp.copy(); thr.exc = kind
        s3 = st.clone(); s3.spec = thr; s3.trace = st.trace + ['throws']
        if kind == 'handler': sp.done(False)
        else: sp.acted()
        val = None
        if kind == 'create':
            oid = stdmodel.newheap(ex, st, 'made')
            val = ex.alloc(st, oid, 4, 'heap', tag='state'); st.mem[oid].cells[0] = (4, z3.Int('made'))
        st.spec = sp
        return [(st, 'ret', val)] + ex.env_throws(s3)
    def args(self, st, sp, kind, a, w, o):
        """the arguments of a call into the environment"""
        ref = self.ref; v = self.v; ex = self.ex; m = self.m
        evn, evv, mode = sp.ev
        same = lambda x, y: isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and x.off == y.off and not x.terms
        extra = ('C05',) if sp.stage in ('retry', 'ranon') else ()
        ty = 1 if evn == '' else ref.E[evn]
        if a[1] != ty: self.fail(st, 'the event passed has the type of the event processed', ('C09', 'C02') + extra, '%s, expected %s' % (a[1], ty))
        if evn:
            if mode == 'own' and kind != 'create' and o[1] is not None and not (o[0] == 'act' and o[1][0] == 'reuse'):
                if not same(a[2], self.evp): self.fail(st, 'the event is passed by reference', ('C09', 'C03'), a[2])
            elif mode == 'own' and kind == 'handler':
                if not same(a[2], self.evp): self.fail(st, 'the event is passed by reference', ('C09', 'C03'), a[2])
            x = ex.load(st, a[2], 4)
            if not (is_sym(x) and ex.check(st, x == evv) is True): self.fail(st, 'the event passed has the value it was sent with', ('C09',) + extra, '%s, expected %s' % (x, evv))
        self.ok('event passed', ('C09',) + extra)
        if kind == 'create':
            return
        if kind == 'handler':
            s, t = self.cell[ex.tok(st, sp.cur[0])][1], None
        else:
            s, t = w.src, w.tgt
            if w.internal: t = s
        S = ref.S
        reuse = o[0] == 'act' and o[1][0] == 'reuse'
        def statearg(tag, p, name, holder, what):
            if holder:
                if tag != 1000 + S[name]: self.fail(st, what + ' has its type', ('C09', 'C11'), tag)
                return
            if tag != S[name]: self.fail(st, what + ' has its type', ('C09', 'C03') if kind == 'handler' else ('C09', 'C07'), '%s, expected %s' % (tag, S[name]))
            if name in m['nodefault']:
                q = ex.load(st, v.dyn[name], 8)
                if not same(q, p): self.fail(st, what + ' is the stored object', ('C11',))
            elif name in v.inst and not same(v.inst[name], p): self.fail(st, what + ' is the instance of the machine', ('C11', 'C09'), '%s %s' % (p, v.inst[name]))
        if not reuse: statearg(a[3], a[4], s, False, 'source state')
        if t is not None:
            statearg(a[5], a[6], t, kind == 'action' and not reuse and t in m['nodefault'] and not w.internal, 'target state')
        if not reuse:
            deps = a[5:7] if kind == 'handler' else a[7:9]
            wd = v.deps(st, 0) + [NULL, NULL]
            if not all(isinstance(x, Ptr) and x.obj == y.obj for x, y in zip(deps, wd)): self.fail(st, 'the dependencies are passed', ('C10', 'C09'), deps)
        self.ok('states and dependencies passed', ('C09', 'C10', 'C11'))
    # -- joins
    def advance(self, st):
        sp = st.spec
        if sp.exc is not None or st.exc is not None: return None
        n = sp.copy()
        n.run(self.ex, st, False)
        st.spec = n
        return n
    def canon(self, st, x):
        if isinstance(x, Tok):
            x = self.ex.tokpeek(st, x)
            if isinstance(x, Tok): return ('tok', x.name)
        if isinstance(x, Ptr): return ('P', x.obj if not isinstance(x.obj, tuple) else str(x.obj), x.off, str(x.terms) if x.terms else '')
        if isinstance(x, Agg): return ('A',) + tuple(self.canon(st, y) for y in x.v)
        if isinstance(x, PI): return ('PI', self.canon(st, x.p))
        if is_sym(x): return ('z', x.sexpr())
        if isinstance(x, int): return int(x)
        return repr(x)
    def join(self, ex, st, fr):
        if st.spec is None or st.caught or st.pending is not None: return
        sp = self.advance(st)
        if sp is None: return
        if sp.acts or sp.looked: return
        if sp.fresh: sp.fresh = False
        if sp.stage not in ('main', 'retry', 'manon', 'ranon', 'retry?', 'done') or sp.k: return
        bad = self.insync(st)
        if bad: return
        key = self.key(st, sp)
        if key is None: return
        if key in self.seen: raise PathEnd()
        self.seen.add(key); self.joins += 1
        sp = sp.copy(); st.spec = sp
        sp.ver += 1
        # what is known of the old machine and still in use is now a plain value
        for f in st.frames:
            for r, x in list(f.regs.items()):
                if isinstance(x, Tok): f.regs[r] = ex.tokpeek(st, x)
        for oid, o in list(st.mem.items()):
            if o is self.base.mem.get(oid) or oid == 'SM': continue
            for k, x in list(o.cells.items()):
                if isinstance(x[1], Tok): st.wobj(oid).cells[k] = (x[0], ex.tokpeek(st, x[1]))
        defd = sp.count
        if sp.stage == 'retry?' or sp.stage == 'done' or defd is None:
            defd = None
        self.fresh_config(st, sp, defd, sp.count if sp.r == 0 and sp.stage in ('main', 'retry', 'manon', 'ranon') else None)
        # only what is known about the queue is kept
        st.pc = []; st.pcids = set()
        if self.qs:
            ex.assume(st, LQ >= 0); ex.assume(st, LQ <= QMAX)
            if st.ghost['lq'] is True: ex.assume(st, LQ > 0)
            elif st.ghost['lq'] is False: ex.assume(st, LQ == 0)
        fr.cutret = True
        for f in st.frames:
            for b in f.visits: f.visits[b] = sp.ver
    def key(self, st, sp):
        ex = self.ex; c = lambda x: self.canon(st, x)
        out = [sp.phase(), len(st.caught)]
        if self.qs:
            out.append((c(ex.load(st, Ptr('SM', self.qoff + 16), 8)), c(ex.load(st, Ptr('SM', self.qoff + 48), 8)),
                        tuple((k, x[0], c(x[1])) for k, x in sorted(st.ghost['qo'].items())),
                        tuple((j, k, x[0], c(x[1])) for j, e in sorted(self.qlive(st).items()) for k, x in sorted(e.items()))))
            st.ghost['lq'] = ex.check(st, LQ > 0)
            out.append((st.ghost['lq'], tuple((e[0], str(e[1])) for e in sp.pushed), tuple(sorted((k, x) for k, x in st.ghost['val'].items() if k[0] == 'q')))) 
        top = len(st.frames) - 1
        for i, f in enumerate(st.frames):
            ip = f.ip if i == top else f.ip + 1
            rs = tuple((r, c(f.regs[r])) for r in live_at(f.fn, f.blk, ip) if r in f.regs)
            out.append((f.fn.name, f.blk, f.ip, rs))
            for r in rs:
                if isinstance(r[1], tuple) and r[1][0] == 'tok': return None
        cfg = set((o, off) for o, off in self.hcell.values())
        for oid, o in st.mem.items():
            b = self.base.mem.get(oid)
            if o is b: continue
            if oid == 'SM' or oid in (getattr(self, 'chunk', None),):
                if oid == 'SM':
                    skip = self.cfgcells()
                    d = tuple((k, x[0], c(x[1])) for k, x in o.cells.items() if k not in skip and b.cells.get(k) != x)
                    if d: out.append((oid, tuple(sorted(d))))
                continue
            if not o.alive and b is None: continue
            if b is not None and o.cells == b.cells and o.alive == b.alive: continue
            cs = tuple(sorted((k, x[0], c(x[1])) for k, x in o.cells.items() if (oid, k) not in cfg and x[1] is not UNDEF))
            if b is not None and not any((oid, k) not in cfg and b.cells.get(k) != x for k, x in o.cells.items()) and o.alive == b.alive: continue
            if o.kind == 'stack' and not cs: continue
            if any(isinstance(x[2], tuple) and x[2][0] == 'tok' for x in cs): return None
            out.append((str(oid), o.alive, cs))
        return tuple(out)
    def cfgcells(self):
        r = getattr(self, '_cfg', None)
        if r is None:
            L = self.L
            r = {L['cur'] + 8 * i for i in range(self.maxreg)} | {L['reg']}
            if self.qs: r |= {self.qoff + k for k in range(16, 80, 8)}
            self._cfg = r
        return r
    # -- end of a path
    def end(self, st):
        work = [st]
        while work:
            st = work.pop()
            try: self.end1(st)
            except PathEnd: pass
            except Fork as f:
                for c, e in f.alts:
                    s2 = st.clone()
                    if callable(c): c(s2); work.append(s2); continue
                    if self.ex.check(s2, c) is False: continue
                    try: self.ex.assume(s2, c)
                    except PathEnd: continue
                    work.append(s2)
    def end1(self, st):
        ex = self.ex; self.paths += 1
        if ex.solve(st, []) == z3.unsat: return
        sp = st.spec.copy()
        k, x = st.result
        if sp.exc is not None:
            if k != 'throw' or x.type != 'VpThrow': self.fail(st, 'an exception of a %s reaches the caller' % sp.exc, ('C14',), st.result)
            self.ok('an exception reaches the caller', ('C14',))
            cls = ('C14', 'C06')
        else:
            o = sp.run(ex, st, True)
            if o[0] != 'done':
                c = STAGE_CLS[sp.stage]
                if o[0] == 'act': c = c + ('C09', 'C02')
                if sp.popped or st.spec.popped: c = c + ('C05',)
                if k == 'throw': c = c + ('C13', 'C14')
                if self.usehist: c = c + ('C06',)
                self.fail(st, 'everything due is executed', c, 'ends (%s) where %s is due (stage %s, region %s, configuration %s)' % (st.result, o[0], sp.stage, sp.r, [self.nm(st, y) for y in sp.cur]))
            self.ok('everything due is executed', STAGE_CLS[sp.stage])
            if k != 'ret': self.fail(st, 'no exception of its own', ('C14', 'C13', 'C02', 'C03', 'C05'), st.result)
            want = int(sp.result)
            x = x if isinstance(x, int) else ex.check(st, i2b(x))
            if x is None or int(x) != want: self.fail(st, 'returns whether a transition was executed', ('C03',), 'returns %s, expected %s' % (st.result[1], want))
            self.ok('returns whether a transition was executed', ('C03',))
            cls = ('C02',)
        st.spec = sp
        if sp.hit: self.hits += 1
        bad = self.insync(st)
        if bad:
            c = cls + ('C06',) if 'history' in bad else cls + ('C04', 'C05', 'C06', 'C13') if 'region' in bad else cls
            if 'history' in bad: c = ('C06', 'C14') if sp.exc else ('C06',)
            self.fail(st, 'final configuration', c, bad)
        self.ok('final configuration and history', cls + ('C06', 'C13', 'C08'))
        if self.qs:
            s = ex.load(st, Ptr('SM', self.qoff + 16), 8); f = ex.load(st, Ptr('SM', self.qoff + 48), 8)
            good = isinstance(s, Ptr) and not s.terms and s.obj == self.chunk and s.off == self.qs * sp.popped and f.obj == self.chunk and len(f.terms) == 1
            good = good and f.off == self.qs * len(sp.pushed)
            if good:
                for j, (n, val, mode) in enumerate(sp.pushed):
                    n = ex.tok(st, n)
                    t = self.qtemplate.get(n)
                    if t is None: good = False; break
                    for o, (z, y) in t.items():
                        got = st.ghost['qo'].get(j * self.qs + o)
                        y = val if is_sym(y) else y
                        good = good and got is not None and got[0] == z and ((is_sym(got[1]) and is_sym(y) and ex.check(st, got[1] == y) is True) or (isinstance(y, int) and got[1] == y))
            for j, e in self.qlive(st).items():
                n, val, _ = self.qevent(st, j)
                for o, (z, y) in self.qtemplate[ex.tok(st, n)].items():
                    got = e.get(j * self.qs + o); y = val if is_sym(y) else y
                    good = good and got is not None and got[0] == z and (got[1] is y or isinstance(y, int) and got[1] == y or is_sym(got[1]) and is_sym(y) and ex.check(st, got[1] == y) is True)
            if not good: self.fail(st, 'deferred events', ('C05', 'C14') if sp.exc else ('C05',), 'popped %s pushed %s: start %s finish %s' % (sp.popped, sp.pushed, s, f))
            self.ok('deferred events', ('C05',))
        self.frame(st)
        self.ok('nothing else changes', ('C17',))
    def qlive(self, st):
        """elements written in place that are still in the queue"""
        if not st.ghost['qw']: return {}
        a = self.ex.load(st, Ptr('SM', self.qoff + 16), 8)
        if a.terms: return st.ghost['qw']
        return {j: e for j, e in st.ghost['qw'].items() if j * self.qs >= a.off}
    def frame(self, st, cls=()):
        # frame
        cfg = self.cfgcells(); hc = set(self.hcell.values())
        for oid, o in st.mem.items():
            b = self.base.mem.get(oid)
            if o is b or b is None or o.kind == 'stack' or oid == getattr(self, 'chunk', None): continue
            if isinstance(oid, tuple) and oid[0] == 'g': continue
            if oid == 'SM':
                d = [k2 for k2, y in o.cells.items() if k2 not in cfg and b.cells.get(k2) != y]
            elif o.cells == b.cells and o.alive == b.alive: d = []
            else: d = [k2 for k2, y in o.cells.items() if (oid, k2) not in hc and b.cells.get(k2) != y] + ([] if o.alive == b.alive else ['destroyed'])
            if d and self.m['nodefault']: continue
            if d: self.fail(st, 'nothing else of the machine changes', ('C17', 'C02', 'C15') + cls, '%s %s' % (oid, d[:5]))
        leak = [oid for oid, o in st.mem.items() if o.kind == 'heap' and o.alive and oid not in self.base.mem]
        if leak and not self.m['nodefault']: self.fail(st, 'nothing leaks', ('C15', 'C13'), str(leak[:3]))
