"""Reference semantics of a machine description.

Written from the documentation and the property statements, independent of the implementation's
data structures: configurations are (parent, state) pairs, never indices.
"""
from family import states_of, events_of, nregions
from gen_cpp import stag, etag, gid, igid, entry_id, exit_id, HANDLER_ID, pairs

class Cand:
    """one candidate transition of a cell"""
    def __init__(s, **k): s.__dict__.update(k)
    def __repr__(s): return repr(s.__dict__)

def parse(x):
    init = x.startswith('*'); x = x.lstrip('*')
    if ':' in x:
        p = x.split(':')
        return (p[0],) + tuple(p[1:])
    return ('initial' if init else 'state', x)

class Ref:
    def __init__(self, m):
        self.m = m
        self.parents = list(m['tables'])
        self.parents_reach = []
        self.states = states_of(m)
        self.events = events_of(m)
        self.S, self.E = stag(m), etag(m)
        self.inits = {p: self._inits(p) for p in self.parents}
        self.maxreg = max(len(v) for v in self.inits.values())
        self.cells = {}
        self._build()
        self.has_anon = any(c.event == '' for _, c in self.rows)
        self.has_defer = any(c.defer for _, c in self.rows)
    def is_sub(self, n): return n in self.m['tables']
    def _inits(self, p):
        out = []
        for r in self.m['tables'][p]:
            if r[0].startswith('*') and r[0][1:] not in out: out.append(r[0][1:])
        return out
    def flatten(self, p):
        """rows of p, each followed by the rows of the sub machine it targets"""
        out = []
        for i, r in enumerate(self.m['tables'][p]):
            out.append((p, i, r))
            t = parse(r[4])
            sub = t[1] if t[0] in ('state', 'entry', 'direct', 'hist') else None
            if sub and self.is_sub(sub): out += self.flatten(sub)
        return out
    def children(self, p):
        """(kind...) of everything named in the table of p, an initial source counting as its state"""
        out = []
        for r in self.m['tables'][p]:
            for x in (r[0], r[4]):
                t = parse(x)
                if t[0] == 'initial': t = ('state', t[1])
                if t not in out: out.append(t)
        return out
    def children_raw(self, p):
        out = []
        for r in self.m['tables'][p]:
            for x in (r[0], r[4]):
                t = parse(x)
                if t not in out: out.append(t)
        return out
    def src(self, p, t):
        """(parent, state) a row with source t in the table of p leaves"""
        if t[0] in ('exit', 'direct'): return (t[1], t[2])
        return (p, t[1])
    def dst(self, p, t):
        """(parent, state, history) a row with target t in the table of p enters"""
        if t[0] in ('entry', 'direct'): return (t[1], t[2], False)
        if t[0] == 'hist': return (t[1], self.inits[t[1]][0], True)
        if self.is_sub(t[1]): return (t[1], self.inits[t[1]][0], False)
        return (p, t[1], False)
    def actions(self, p, i, r, internal=False, igroup=None):
        m = self.m
        out = []
        if internal:
            ids = igid(m, p, i); k = r[2]
        else:
            ids = gid(m, p, i); k = r[3]
            s, t = parse(r[0]), parse(r[4])
            if s[0] in ('state', 'initial') and s[1] in m['exit']: out.append(('action', exit_id(m, s[1])))
            elif s[0] == 'exit' and s[1] in m['exit']: out.append(('action', exit_id(m, s[1])))
        if k in ('a', 'v'): out.append(('action', ids))
        elif k and k[0] == 'c': out += [('action', ids + j) for j in range(int(k[1:]))]
        elif k == 'new': out.append(('create', ids))
        elif k == 'reuse': out.append(('reuse', ids))
        if not internal and t[0] == 'state':
            if t[1] in m['entry']: out.append(('action', entry_id(m, t[1])))
            if self.is_sub(t[1]) and self.inits[t[1]][0] in m['entry']:
                out.append(('action', entry_id(m, self.inits[t[1]][0])))
        return out
    def _build(self):
        m = self.m
        self.rows = []      # (cell, Cand) in declaration order: internal, external, deferred
        flat = self.flatten(m['root'])
        for p, i, r in flat:
            if p not in self.parents_reach: self.parents_reach.append(p)
        # internal transitions of every (parent, state) named anywhere
        prs = [(m['root'], ('state', m['root']))]
        for p, i, r in flat:
            for x in (r[0], r[4]):
                t = parse(x)
                if t[0] == 'initial': t = ('state', t[1])
                if (p, t) not in prs: prs.append((p, t))
        seen = set()
        for p, t in prs:
            n = t[1]
            if t[0] != 'state' or n not in m['internal']: continue
            for i, r in enumerate(m['internal'][n]):
                where = [(n, c) for c in self.children_raw(n)] if self.is_sub(n) else [(p, t)]
                for wp, wt in where:
                    if wt[0] in ('hist', 'entry'): continue      # names a target, not a state that can be active
                    key = (wp, wt, n, i)
                    if key in seen: continue
                    seen.add(key)
                    cell = self.src(wp, wt)
                    self._add(cell, r[0], Cand(event=r[0], to=cell, history=False, internal=True, defer=False,
                        guard=igid(m, n, i) if r[1] else None, acts=self.actions(n, i, r, True),
                        src=cell[1], tgt=cell[1], label='%s internal #%d' % (n, i)))
        for p, i, r in flat:
            s, t = parse(r[0]), parse(r[4])
            d = self.dst(p, t)
            c = dict(event=r[1], to=d[:2], history=d[2], internal=False, defer=False,
                     guard=gid(m, p, i) if r[2] else None, acts=self.actions(p, i, r), tgt=d[1], label='%s #%d' % (p, i))
            self._add(self.src(p, s), r[1], Cand(src=self.src(p, s)[1], **c))
            if s[0] == 'state' and self.is_sub(s[1]):
                # leaving a sub machine: possible from each of its own states
                for ch in self.children(s[1]):
                    if ch[0] == 'state': self._add((s[1], ch[1]), r[1], Cand(src=s[1], **c))
        for p, i, r in flat:
            s = parse(r[0])
            if s[0] in ('state', 'initial') and s[1] in m['defer']:
                for e in m['defer'][s[1]]:
                    self._add((p, s[1]), e, Cand(event=e, defer=True, label='%s defers' % s[1]))
        for p, i, r in flat:
            # a state that is only ever a target
            d = self.dst(p, parse(r[4]))[:2]
            for e in m['defer'].get(d[1], ()):
                cs = self.cells.get((d, e))
                if not cs or not cs[0].defer: self._add(d, e, Cand(event=e, defer=True, label='%s defers' % d[1]))
    def _add(self, cell, ev, c):
        self.rows.append((cell, c))
        self.cells.setdefault((cell, ev), []).insert(0, c)
    def cell(self, cfg, ev): return self.cells.get((cfg, ev), [])

class Env:
    """environment oracle, the twin of vp_main.h"""
    def __init__(self): self.seed, self.step, self.rate, self.maxpass = 1, 0, 0, 4
    def mix(self, *a):
        h = 2166136261
        for x in a:
            h ^= x & 0xffffffff; h = h * 16777619 & 0xffffffff; h ^= h >> 15
            h = h * 2246822519 & 0xffffffff; h ^= h >> 13
        return h

class Precondition(Exception):
    """the script uses a state that the user was obliged to create first"""

class Thrown(Exception):
    def __init__(self, i): self.id = i

class Machine:
    def __init__(self, ref, dep):
        self.ref = ref; m = ref.m
        self.cur = [(m['root'], s) for s in ref.inits[m['root']]]
        self.hist = {p: [(p, (ref.inits[p][j:] or ref.inits[p][:1] or [None])[0]) for j in range(ref.maxreg)] for p in ref.parents}
        self.queue = []
        self.dep = dep
        self.slots = list(self.cur) + [None] * (ref.maxreg - len(self.cur))
        self.dyn = {s: None for s in m['nodefault']}

class Out(list):
    """the expected lines, with the stage of processing they belong to"""
    def __init__(s, interp): s.i = interp; s.meta = []
    def append(s, x):
        list.append(s, x); del s.meta[len(s) - 1:]; s.meta.append(s.i.stage)

class Interp:
    """executes scripts; finding_anon selects the recorded known finding's behaviour"""
    def __init__(self, ref, finding_anon=True):
        self.ref, self.finding_anon = ref, finding_anon
        self.env = Env(); self.sms = [None] * 4; self.c = 0; self.stage = 'main'; self.out = Out(self); self.count = {}
        self.anon_finding_hit = False
    def obj(self, name):
        t = self.ref.S[name]; m = self.sm
        if name in m.dyn:
            v = m.dyn[name]
            if v is None: raise Precondition()
            return 'st%d=%d' % (t, v)
        return 'st%d#0' % t
    def sobj(self, name, action):
        t = self.ref.S[name]; m = self.sm
        if name in m.dyn and action:
            return ('null%d' % (t + 1000)) if m.dyn[name] is None else 'st%d=%d' % (t + 1000, m.dyn[name])
        return self.obj(name)
    def ev(self, e):
        return 'ev1' if e[0] == '' else 'ev%d:%d' % (self.ref.E[e[0]], e[1])
    def deps(self):
        n = self.ref.m['ndeps']
        return (' A%d' % self.sm.dep if n > 0 else '') + (' B%d' % self.sm.dep if n > 1 else '')
    def maybe_throw(self, i, n):
        E = self.env
        if E.rate and E.mix(E.seed ^ 0x5555, E.step, i, n) % 100 < E.rate:
            self.out.append('  throw %d' % i); raise Thrown(i)
    def tick(self, k):
        n = self.count.get(k, 0); self.count[k] = n + 1; return n
    def guard(self, c, e):
        if c.guard is None: return True
        n = self.tick(c.guard)
        E = self.env
        r = n < E.maxpass and E.mix(E.seed, E.step, c.guard, n) % 100 < 55
        self.out.append('  guard %d %s %s %s%s -> %d' % (c.guard, self.ev(e), self.obj(c.src), self.obj(c.tgt), self.deps(), r))
        self.maybe_throw(c.guard, n)
        return r
    def act(self, c, e):
        for k, i in c.acts:
            if k == 'create':
                self.out.append('  create %d %s %s' % (i, self.ev(e), 'null%d' % self.ref.S[c.src]))
                self.obj(c.src)
                self.sm.dyn[c.tgt] = i
                continue
            n = self.tick(100000 + i)
            t = self.obj(c.tgt) if k == 'reuse' else self.sobj(c.tgt, True)
            self.out.append('  action %d %s %s %s%s' % (i, self.ev(e), 'null%d' % self.ref.S[c.src] if k == 'reuse' else self.obj(c.src), t, self.deps()))
            self.maybe_throw(100000 + i, n)
    def enter(self, r, c):
        m, ref = self.sm, self.ref
        if c.internal: return
        m.hist[m.slots[r][0]][r] = m.slots[r]
        m.slots[r] = m.hist[c.to[0]][r] if c.history else c.to
        self.resize()
    def resize(self):
        m, ref = self.sm, self.ref
        ini = ref.inits[m.slots[0][0]]
        for j in range(m.n, len(ini)): m.slots[j] = (m.slots[0][0], ini[j])
        m.n = len(ini) or 1     # a sub state without initial state has one region
    def scan(self, r, e):
        """one region: 'empty' | 'defer' | 'failed' | 'taken'"""
        cand = self.ref.cell(self.sm.slots[r], e[0])
        if not cand: return 'empty'
        for c in cand:
            if c.defer: return 'defer'
            if self.guard(c, e):
                self.enter(r, c); self.act(c, e); return 'taken'
        return 'failed'
    def pei(self, e):
        m = self.sm; res = []
        for r in range(m.n):
            x = self.scan(r, e)
            if x == 'defer': m.queue.append(e); return 'deferred'
            res.append(x)
        if 'taken' in res: self.anon(); return 'processed'
        return 'failed' if 'failed' in res else 'invalid'
    def anon(self):
        m = self.sm
        if not self.ref.has_anon: return
        self.stage += ' anon'
        while True:
            taken = False
            for r in range(m.n):
                x = self.scan(r, ('', 0))
                if x == 'empty' and self.finding_anon:
                    self.anon_finding_hit = True
                    return
                taken |= x == 'taken'
            if not taken: return
    def event(self, e):
        m, ref = self.sm, self.ref
        self.stage = 'main'
        x = self.pei(e)
        if x == 'invalid' and ref.m['handler']:
            self.stage = 'handler'
            i = HANDLER_ID; n = self.tick(100000 + i)
            self.out.append('  handler %d %s %s%s' % (i, self.ev(e), self.obj(m.slots[0][1]), self.deps()))
            self.maybe_throw(100000 + i, n)
        if x != 'processed': return 0
        if m.queue: self.stage = 'retry'; self.pei(m.queue.pop(0))
        return 1
    def observe(self, n):
        m, ref = self.sm, self.ref
        P = pairs(ref.m); par = m.slots[0][0]
        s = 'O'
        for r in range(n):
            s += ' |%d' % r + ''.join(' %d' % i for i, (p, q) in enumerate(P) if p == par and m.slots[r][1] == q)
        s += ' |is2' + ''.join(' %d' % i for i, (p, q) in enumerate(P) if p == par and m.slots[0][1] == q)
        sts = [x for x in ref.states if x not in ref.m['tables']]
        s += ' |is1' + ''.join(' %d' % i for i, q in enumerate(sts) if m.slots[0][1] == q)
        s += ' |p' + ''.join(' %d' % i for i, p in enumerate(ref.parents) if p == par)
        return s
    def run(self, cmds):
        """cmds: list of tuples; 'O' gets its count filled in. returns (script, expected lines)"""
        script = []
        ref = self.ref; sts = [x for x in ref.states if x not in ref.m['tables']]
        for c in cmds:
            self.count = {}; self.env.step += 1; self.stage = c[0]
            op = c[0]
            if op == 'N':
                self.sms[self.c] = Machine(ref, c[1]); self.sms[self.c].n = len(self.sms[self.c].cur)
                self.out.append('N %d' % c[1]); script.append('N %d' % c[1])
            elif op == 'I':
                self.c = c[1]; self.out.append('I %d' % c[1]); script.append('I %d' % c[1])
            elif op == 'R':
                self.env.seed, self.env.rate, self.env.maxpass = c[1:]; self.env.step = 0
                self.out.append('R'); script.append('R %d %d %d' % c[1:])
            elif op == 'D':
                self.sm.dep = c[1]; self.out.append('D %d' % c[1]); script.append('D %d' % c[1])
            elif op == 'O':
                self.out.append(self.observe(self.sm.n)); script.append('O %d' % self.sm.n)
            elif op == 'S':
                r, i = c[1:]
                script.append('S %d %d' % (r, i)); self.out.append('S %d %d' % (r, i))
                if r >= ref.maxreg: self.out.append('  exception')
                else:
                    self.sm.slots[r] = pairs(ref.m)[i]; self.resize()
            elif op == 'S1':
                script.append('S1 %d' % c[1]); self.out.append('S1 %d' % c[1])
                self.sm.slots[0] = (ref.m['root'], sts[c[1]]); self.resize()
            elif op == 'E':
                e = (ref.events[c[1]], c[2])
                mark = len(self.out)
                script.append('E %d %d' % c[1:]); self.out.append('E %d %d' % c[1:])
                try: self.out.append('  ret %d' % self.event(e))
                except Thrown as t: self.out.append('  ret throw %d' % t.id)
                except Precondition:
                    script.pop(); del self.out[mark:]
                    return script, self.out
        return script, self.out
    @property
    def sm(self): return self.sms[self.c]
