"""Symbolic execution of LLVM IR and generation of verification conditions.

Integers are mathematical (unsigned canonical) with the wrap of each operation made explicit unless
the solver shows that the operation cannot wrap.  Memory is a set of objects; addresses are
(object, constant offset, [(stride, symbolic index)]).
"""
import z3, time, re, itertools
from ir import Unsupported, PTR, VOID

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('obj', 'off', 'terms')
    def __init__(s, obj, off=0, terms=()): s.obj = obj; s.off = off; s.terms = terms
    def __repr__(s): return '&%s+%d%s' % (s.obj, s.off, ''.join('+%d*[%s]' % t for t in s.terms))
    def add(s, n): return Ptr(s.obj, s.off + n, s.terms) if n else s
    def addt(s, stride, term):
        if isinstance(term, int): return s.add(stride * term)
        ts = dict(s.terms); off = s.off
        if stride in ts: term = z3.simplify(ts[stride] + term)
        else: term = z3.simplify(term)
        c, rest = split_const(term)
        off += c * stride
        if rest is None: ts.pop(stride, None)
        else: ts[stride] = rest
        return Ptr(s.obj, off, tuple(sorted(ts.items(), key=lambda x: x[0])))

def split_const(t):
    """t == c + rest, rest None when constant"""
    if isinstance(t, int): return t, None
    if z3.is_int_value(t): return t.as_long(), None
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        ch = t.children(); c = 0; r = []
        for x in ch:
            if z3.is_int_value(x): c += x.as_long()
            else: r.append(x)
        if c: return c, (r[0] if len(r) == 1 else z3.Sum(r))
    return 0, t

class Fn:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return 'fn ' + s.name[:80]
    def __eq__(s, o): return isinstance(o, Fn) and s.name == o.name
    def __hash__(s): return hash(s.name)

class VFn:
    """a virtual function of an abstract object"""
    __slots__ = ('obj', 'slot')
    def __init__(s, o, k): s.obj = o; s.slot = k
    def __repr__(s): return 'vfn %s %d' % (s.obj, s.slot)

class PI:
    """pointer converted to an integer"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p

class Tok:
    """an unknown value of a finite domain; reading it splits the cases"""
    __slots__ = ('name', 'dom')
    def __init__(s, name, dom): s.name = name; s.dom = dom
    def __repr__(s): return '?%s' % s.name
class DTok(Tok):
    """a value that is a function of another unknown value"""
    __slots__ = ('of', 'f')
    def __init__(s, name, of, f): s.name = name; s.dom = None; s.of = of; s.f = f

class Agg:
    __slots__ = ('v',)
    def __init__(s, v): s.v = list(v)
    def __repr__(s): return 'agg%r' % s.v

class Parts:
    """an integer known only piecewise: [(offset, size, value)] in bytes"""
    __slots__ = ('v', 'size')
    def __init__(s, v, size): s.v = tuple(v); s.size = size
    def __repr__(s): return 'parts%r' % (s.v,)
    def sub(s, off, size):
        out = [(o - off, z, x) for o, z, x in s.v if off <= o and o + z <= off + size]
        cut = [1 for o, z, x in s.v if o < off + size and off < o + z and not (off <= o and o + z <= off + size)]
        if cut: raise Unsupported('part of a piecewise value')
        if not out: return UNDEF
        if len(out) == 1 and out[0][0] == 0 and out[0][1] == size: return out[0][2]
        return Parts(out, size)

NULL = Ptr(None)

def is_sym(v): return isinstance(v, z3.ExprRef)

def b2i(b):
    """Bool -> 0/1 Int"""
    if isinstance(b, bool): return int(b)
    if isinstance(b, int): return b
    if z3.is_bool(b):
        if z3.is_true(b): return 1
        if z3.is_false(b): return 0
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))
    return b

def i2b(v):
    """integer known to be 0/1 -> bool"""
    if isinstance(v, bool): return v
    if isinstance(v, int): return v != 0
    if z3.is_bool(v): return v
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            if a.as_long() and not b.as_long(): return c
            if b.as_long() and not a.as_long(): return z3.Not(c)
    return v != 0

def simp(t):
    if not is_sym(t): return t
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t

class Obj:
    __slots__ = ('cells', 'size', 'kind', 'owner', 'alive', 'tag')
    def __init__(s, size, kind, owner=None, tag=None):
        s.cells = {}; s.size = size; s.kind = kind; s.owner = owner; s.alive = True; s.tag = tag
    def copy(s, owner):
        o = Obj(s.size, s.kind, owner, s.tag); o.cells = dict(s.cells); o.alive = s.alive
        return o

class Frame:
    __slots__ = ('fn', 'blk', 'ins', 'ip', 'regs', 'path', 'prev', 'visits', 'na', 'cutret', 'loopd')
    def clone(s):
        f = Frame(); f.fn = s.fn; f.blk = s.blk; f.ins = s.ins; f.ip = s.ip; f.regs = dict(s.regs); f.path = s.path
        f.prev = s.prev; f.visits = dict(s.visits); f.na = s.na; f.cutret = s.cutret; f.loopd = s.loopd
        return f

class State:
    _n = itertools.count(1)
    def __init__(s):
        s.id = next(State._n); s.mem = {}; s.frames = []; s.pc = []; s.pcids = set(); s.eqs = {}; s.exc = None
        s.trace = []; s.arrays = {}; s.ovl = {}; s.heapn = {}; s.spec = None; s.ghost = {}; s.result = None; s.caught = []
        s.pending = None
    def clone(s):
        t = State.__new__(State); t.id = next(State._n); t.mem = dict(s.mem); t.frames = [f.clone() for f in s.frames]
        s.id = next(State._n)   # neither may write shared objects in place
        t.pc = list(s.pc); t.pcids = set(s.pcids); t.eqs = dict(s.eqs); t.exc = s.exc; t.trace = list(s.trace)
        t.arrays = dict(s.arrays); t.ovl = dict(s.ovl); t.heapn = dict(s.heapn)
        t.spec = s.spec.copy() if s.spec is not None else None
        t.ghost = {k: (v.copy() if isinstance(v, (dict, list, set)) else v) for k, v in s.ghost.items()}
        t.result = s.result; t.caught = list(s.caught); t.pending = s.pending
        return t
    def wobj(s, oid):
        o = s.mem.get(oid)
        if o is None: return None
        if o.owner != s.id:
            o = o.copy(s.id); s.mem[oid] = o
        return o

class Fork(Exception):
    def __init__(s, alts): s.alts = alts      # list of (cond, eq (termid,int) or None)
class NewCut(Exception):
    def __init__(s, key): s.key = key
class PathEnd(Exception):
    """this path needs no further exploration"""
class Timeout(Exception):
    pass

class Exc:
    __slots__ = ('type', 'obj', 'env', 'isa')
    def __init__(s, type, obj=None, env=False, isa=None): s.type = type; s.obj = obj; s.env = env; s.isa = isa
    def __repr__(s): return 'exc %s' % s.type

class Obligations:
    """everything the verifier was asked to prove"""
    def __init__(s): s.items = {}; s.cls = {}; s.failed = []; s.queries = 0; s.solver_s = 0.0; s.unknown = 0
    def add(s, name, classes, ok, info=None):
        k = name
        c = s.cls.get(k)
        if c is None: s.cls[k] = set(classes)
        else: c.update(classes)
        if ok:
            s.items[k] = s.items.get(k, 0) + 1
        else:
            s.items.setdefault(k, 0)
            s.failed.append((name, classes, info))

class Exec:
    def __init__(self, mod, obls=None, unroll=None, deadline=None):
        self.catches = None
        self.mod = mod; self.ob = obls or Obligations()
        self.hooks = {}; self.rhooks = []; self.paths = {}; self.cuts = set(); self.unroll = unroll
        self.regions = {}            # oid -> list of region handlers
        self.families = {}           # kind of tuple object ids -> handler
        self.steps = 0; self.fresh_n = itertools.count(1)
        self.deadline = deadline; self.hookcache = {}
        self.on_frame_return = None; self.on_loop_cut = None; self.fnseen = {}
        self.gmut_read = set(); self.gmut_write = set(); self.unrollcount = 0
        self.writable = lambda st, oid, o: True
        self.tmcache = {}
        self.maxsteps = None; self.join = None
    # -- solver ---------------------------------------------------------------------------
    def fresh(self, name, sort='i'):
        n = '%s!%d' % (name, next(self.fresh_n))
        return z3.Int(n) if sort == 'i' else z3.Bool(n) if sort == 'b' else z3.Const(n, sort)
    def solve(self, st, extra):
        if self.deadline and time.time() > self.deadline: raise Timeout()
        t = time.time()
        s = z3.Solver(); s.set('timeout', 20000)
        s.add(*st.pc); s.add(*extra)
        r = s.check()
        self.ob.queries += 1; self.ob.solver_s += time.time() - t
        if r == z3.unknown: self.ob.unknown += 1
        self.last = s
        return r
    def check(self, st, c):
        """True: holds, False: its negation holds, None: neither is implied"""
        if isinstance(c, (bool, int)): return bool(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = c.get_id()
        if i in st.pcids: return True
        if z3.is_not(c) and ('n', c.arg(0).get_id()) in st.pcids: return True
        if ('n', i) in st.pcids: return False
        if z3.is_not(c) and c.arg(0).get_id() in st.pcids: return False
        if self.solve(st, [z3.Not(c)]) == z3.unsat: 
            st.pcids.add(i); st.ghost.setdefault('keep', []).append(c)
            return True
        if self.solve(st, [c]) == z3.unsat:
            st.pcids.add(('n', i)); st.ghost.setdefault('keep', []).append(c)
            return False
        return None
    def assume(self, st, c):
        if isinstance(c, (bool, int)):
            if not c: raise PathEnd()
            return
        i = c.get_id()
        if i in st.pcids: return
        st.pc.append(c); st.pcids.add(i)
        if z3.is_not(c): st.pcids.add(('n', c.arg(0).get_id()))
    def prove(self, st, c, name, classes, info=None):
        r = self.check(st, c)
        if r is True:
            self.ob.add(name, classes, True); return True
        m = None
        if r is None:
            if self.solve(st, [z3.Not(c)]) == z3.sat: m = str(self.last.model())[:1500]
            else: m = 'solver: unknown'
        self.ob.add(name, classes, False, dict(info=info, model=m, where=self.where(st), trace=list(st.trace)))
        if r is False: raise PathEnd()
        self.assume(st, c)
        return False
    def fail(self, st, name, classes, info=None):
        # an unreachable failure is no failure
        if self.solve(st, []) == z3.unsat: raise PathEnd()
        self.ob.add(name, classes, False, dict(info=info, where=self.where(st), trace=list(st.trace)))
    def where(self, st):
        return [f.fn.name for f in st.frames[-4:]]
    def concretize(self, st, t, lo, hi):
        t = simp(t)
        if isinstance(t, int): return t
        i = t.get_id()
        if i in st.eqs: return st.eqs[i]
        ok = [v for v in range(lo, hi + 1) if self.check(st, t == v) is not False]
        if not ok: raise PathEnd()
        if len(ok) == 1 and self.check(st, t == ok[0]) is True:
            st.eqs[i] = ok[0]; st.ghost.setdefault('keep', []).append(t); return ok[0]
        raise Fork([(t == v, (i, v, t)) for v in ok])
    # -- paths ----------------------------------------------------------------------------
    def path(self, *k):
        r = self.paths.get(k)
        if r is None: r = self.paths[k] = len(self.paths) + 1
        return r
    # -- memory ---------------------------------------------------------------------------
    def alloc(self, st, oid, size, kind, tag=None):
        o = Obj(size, kind, st.id, tag); st.mem[oid] = o
        return Ptr(oid)
    def gobj(self, st, name):
        oid = ('g', name)
        o = st.mem.get(oid)
        if o is None:
            g = self.mod.glob(name)
            if g[0] == 'alias': raise Unsupported('alias')
            t, init, const = g
            o = Obj(self.mod.size(t), 'const' if const else 'global', st.id); st.mem[oid] = o
            if init is None:
                if name == '__libc_single_threaded': o.cells[0] = (1, 1)
                o.tag = 'ext'
            else: self.init(st, o, 0, t, init)
        return o
    def init(self, st, o, off, t, v):
        k = v[0]; rt = self.mod.resolve(t)
        if k == 'undef': return
        if k == 'zero':
            for j in range(self.mod.size(t)): o.cells[off + j] = (1, 0)
            return
        if k == 'agg':
            if rt[0] == 'arr':
                es = self.mod.size(rt[2])
                for j, (et, e) in enumerate(v[1]): self.init(st, o, off + j * es, et, e)
            else:
                offs, _, _ = self.mod.layout(rt)
                for fo, (et, e) in zip(offs, v[1]): self.init(st, o, off + fo, et, e)
            return
        if k == 'str':
            for j, c in enumerate(v[1]): o.cells[off + j] = (1, c)
            return
        o.cells[off] = (self.mod.size(t), self.ev(st, None, v, t))
    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None and isinstance(oid, tuple) and oid[0] == 'g': o = self.gobj(st, oid[1])
        return o
    def tokdom(self, st, t):
        return st.ghost.get('val', {}).get(t.name, t.dom)
    def tok(self, st, t):
        """the value of an unknown: split the cases if it is not known on this path"""
        while isinstance(t, Tok):
            x = self.tokpeek(st, t)
            if not isinstance(x, Tok): return x
            if x is not t and not isinstance(x, DTok): t = x; continue
            t = x
            if isinstance(t, DTok):
                b = t.of
                while isinstance(b, DTok): raise Unsupported('nested unknown')
                cl = {}
                for c in self.tokdom(st, b):
                    y = t.f(c)
                    cl.setdefault(y.name if isinstance(y, Tok) else repr(y) if not isinstance(y, int) else y, []).append(c)
                raise Fork([(tokset(b.name, tuple(d)), None) for d in cl.values()])
            raise Fork([(tokset(t.name, (v,)), None) for v in self.tokdom(st, t)])
        return t
    def tokpeek(self, st, t):
        while isinstance(t, Tok):
            if isinstance(t, DTok):
                it = iter(self.tokdom(st, t.of)); y = t.f(next(it))
                for c in it:
                    z = t.f(c)
                    if z is y: continue
                    if isinstance(z, Tok) != isinstance(y, Tok) or (isinstance(z, Tok) and z.name != y.name) or (not isinstance(z, Tok) and z != y): return t
                t = y; continue
            d = self.tokdom(st, t)
            if len(d) > 1: return t
            return d[0]
        return t
    def tokmap(self, t, f):
        if isinstance(t, DTok): return DTok(t.name + '^', t.of, (lambda g: lambda c: (lambda y: f(y) if isinstance(y, int) else y)(g(c)))(t.f))
        return DTok(t.name + '^', t, f)
    def region(self, oid, off):
        for r in self.regions.get(oid, ()):
            if r.lo <= off < r.hi: return r
        return None
    def load(self, st, p, size, ty=None):
        if isinstance(p, PI): p = p.p
        if not isinstance(p, Ptr):
            if p is UNDEF: self.fail(st, 'memory: load through an uninitialised pointer', ('C13',)); raise PathEnd()
            raise Unsupported('load through %r' % (p,))
        if p.obj is None:
            self.fail(st, 'memory: null pointer dereference (load)', ('C13',)); raise PathEnd()
        oid = p.obj
        if isinstance(oid, tuple):
            h = self.families.get(oid[0])
            if h is not None:
                r = h.load(self, st, p, size)
                if r is not NotImplemented: return r
        rg = self.region(oid, p.off) if oid in self.regions else None
        if rg is not None:
            r = rg.load(self, st, p, size)
            if r is not NotImplemented: return r
        o = self.getobj(st, oid)
        if o is None: raise Unsupported('load from unknown object %r' % (oid,))
        if not o.alive:
            self.fail(st, 'memory: load from a destroyed object', ('C13', 'C15'), info=str(oid)[:200]); raise PathEnd()
        if o.kind == 'global' and oid[1] != '__libc_single_threaded': self.gmut_read.add(oid[1])
        off = p.off
        if p.terms:
            off = self.resolve_index(st, p, o)
        if o.size is not None and (off < 0 or off + size > o.size):
            self.fail(st, 'memory: load out of bounds', ('C13',), info='%s size %s' % (str(p)[:200], o.size)); raise PathEnd()
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            return v
        return self.load_odd(o, off, size)
    def resolve_index(self, st, p, o):
        """symbolic offset into an object with concrete cells: case split"""
        if len(p.terms) != 1: raise Unsupported('symbolic address %r' % p)
        stride, t = p.terms[0]
        i = t.get_id()
        if i in st.eqs: return p.off + stride * st.eqs[i]
        n = (o.size or 0) // stride
        v = self.concretize(st, t, -(p.off // stride) , n)
        return p.off + stride * v
    def load_odd(self, o, off, size):
        """compose from smaller cells, or take part of a bigger one"""
        parts = []; conc = True
        for k in range(off - 15, off + size):
            c = o.cells.get(k)
            if c is None or k + c[0] <= off or c[1] is UNDEF: continue
            v = c[1]
            lo = max(k, off); hi = min(k + c[0], off + size)
            if lo == k and hi == k + c[0]: pass
            elif isinstance(v, int): v = (v >> 8 * (lo - k)) & ((1 << 8 * (hi - lo)) - 1)
            elif isinstance(v, Parts):
                v = v.sub(lo - k, hi - lo)
                if v is UNDEF: continue
            elif is_sym(v) and not z3.is_bool(v):
                if lo == k and hi - lo == 1 and bitb(v) is not None: pass
                else: v = (v / (1 << 8 * (lo - k))) % (1 << 8 * (hi - lo)); v = simp(v)
            else: raise Unsupported('partial load of %r' % (v,))
            parts.append((lo - off, hi - lo, v))
        if not parts: return UNDEF
        flat = []
        for po, pz, v in parts:
            if isinstance(v, Parts): flat += [(po + o2, z2, v2) for o2, z2, v2 in v.v]
            else: flat.append((po, pz, v))
        parts = flat
        if len(parts) == 1 and parts[0][0] == 0 and parts[0][1] == size: return parts[0][2]
        if all(isinstance(v, int) for _, _, v in parts) and sum(z for _, z, _ in parts) == size:
            return sum(v << 8 * po for po, z, v in parts)
        return Parts(parts, size)
    def _unsup(self, m): raise Unsupported(m)
    def store(self, st, p, size, v):
        if isinstance(p, PI): p = p.p
        if not isinstance(p, Ptr):
            if p is UNDEF: self.fail(st, 'memory: store through an uninitialised pointer', ('C13',)); raise PathEnd()
            raise Unsupported('store through %r' % (p,))
        if p.obj is None:
            self.fail(st, 'memory: null pointer dereference (store)', ('C13',)); raise PathEnd()
        oid = p.obj
        if isinstance(oid, tuple):
            h = self.families.get(oid[0])
            if h is not None:
                r = h.store(self, st, p, size, v)
                if r is not NotImplemented: return
        rg = self.region(oid, p.off) if oid in self.regions else None
        if rg is not None:
            r = rg.store(self, st, p, size, v)
            if r is not NotImplemented: return
        if isinstance(oid, tuple) and oid[0] == 'g': self.gobj(st, oid[1])
        o = st.wobj(oid)
        if o is None: raise Unsupported('store to unknown object %r' % (oid,))
        if not o.alive:
            self.fail(st, 'memory: store to a destroyed object', ('C13', 'C15'), info=str(oid)[:200]); raise PathEnd()
        if o.kind == 'const': self.fail(st, 'memory: store to a constant', ('C13',)); raise PathEnd()
        if o.kind == 'global': self.gmut_write.add(oid[1])
        off = p.off
        if p.terms: off = self.resolve_index(st, p, o)
        if o.size is not None and (off < 0 or off + size > o.size):
            self.fail(st, 'memory: store out of bounds', ('C13',), info='%s size %s' % (str(p)[:200], o.size)); raise PathEnd()
        self.setcell(o, off, size, v)
    def setcell(self, o, off, size, v):
        cells = o.cells
        if isinstance(v, Parts):
            self.setcell(o, off, size, UNDEF)
            del cells[off]
            for po, pz, pv in v.v: cells[off + po] = (pz, pv)
            return
        c = cells.get(off)
        if c is None or c[0] != size:
            # remove what is overlapped
            for b in range(1, 16):
                d = cells.get(off - b)
                if d is not None and d[0] > b:
                    if isinstance(d[1], int):
                        x = cells.pop(off - b)
                        for j in range(x[0]): cells[off - b + j] = (1, (x[1] >> 8 * j) & 255)
                    else: cells.pop(off - b)
                    break
            j = 0
            while j < size:
                d = cells.get(off + j)
                if d is not None:
                    if j + d[0] > size:
                        if isinstance(d[1], int):
                            x = cells.pop(off + j)
                            for k in range(x[0]): cells[off + j + k] = (1, (x[1] >> 8 * k) & 255)
                            cells.pop(off + j)
                        else: cells.pop(off + j)
                    else: cells.pop(off + j)
                j += 1
        cells[off] = (size, v)
    def memcpy(self, st, d, s, n):
        if not isinstance(n, int): raise Unsupported('memcpy of symbolic length')
        if n == 0: return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Unsupported('memcpy %r %r' % (d, s))
        cells = self.cells_in(st, s, n)
        self.wipe(st, d, n)
        for o, sz, v in cells:
            if v is UNDEF: continue
            self.store(st, d.add(o), sz, v)
    def cells_in(self, st, s, n):
        """[(relative offset, size, value)] of what is initialised in [s, s+n)"""
        if s.obj is None: self.fail(st, 'memory: copy from null', ('C13',)); raise PathEnd()
        h = self.families.get(s.obj[0]) if isinstance(s.obj, tuple) else None
        if h is not None and hasattr(h, 'fields_in'):
            r = h.fields_in(self, st, s, n)
            if r is not NotImplemented: return [(o, sz, self.load(st, s.add(o), sz)) for o, sz in r]
        for r in self.regions.get(s.obj, ()):
            if hasattr(r, 'fields_in'):
                x = r.fields_in(self, st, s, n)
                if x is not NotImplemented: return x
        if s.terms: raise Unsupported('copy from a symbolic address')
        o = self.getobj(st, s.obj)
        if o is None: raise Unsupported('copy from unknown object %r' % (s.obj,))
        if not o.alive: self.fail(st, 'memory: copy from a destroyed object', ('C13', 'C15')); raise PathEnd()
        if o.kind == 'global': self.gmut_read.add(s.obj[1])
        if o.size is not None and (s.off < 0 or s.off + n > o.size):
            self.fail(st, 'memory: copy out of bounds', ('C13',), info=str(s)); raise PathEnd()
        out = []
        if n > len(o.cells):
            it = sorted((k, c) for k, c in o.cells.items() if s.off - 16 < k < s.off + n)
        else:
            it = [(k, o.cells[k]) for k in range(s.off - 15, s.off + n) if k in o.cells]
        for k, c in it:
            if k < s.off:
                if k + c[0] > s.off:
                    if c[1] is UNDEF: continue
                    if not isinstance(c[1], int): raise Unsupported('copy splits a cell')
                    m = min(k + c[0], s.off + n) - s.off
                    out.append((0, m, (c[1] >> 8 * (s.off - k)) & ((1 << 8 * m) - 1)))
                continue
            if k + c[0] > s.off + n:
                if isinstance(c[1], int): out.append((k - s.off, s.off + n - k, c[1] & ((1 << 8 * (s.off + n - k)) - 1))); continue
                if c[1] is UNDEF: continue
                raise Unsupported('copy splits a cell')
            out.append((k - s.off, c[0], c[1]))
        if s.obj in self.regions:
            for r in self.regions[s.obj]:
                if not getattr(r, 'transparent', False) and r.lo < s.off + n and s.off < r.hi: raise Unsupported('copy of a modelled region')
        return out
    def wipe(self, st, d, n):
        if d.obj is None: self.fail(st, 'memory: copy to null', ('C13',)); raise PathEnd()
        h = self.families.get(d.obj[0]) if isinstance(d.obj, tuple) else None
        if h is not None and d.obj not in st.mem: return
        for r in self.regions.get(d.obj, ()):
            if hasattr(r, 'wipe') and r.wipe(self, st, d, n): return
        if d.terms: raise Unsupported('copy to a symbolic address')
        if isinstance(d.obj, tuple) and d.obj[0] == 'g': self.gobj(st, d.obj[1])
        o = st.wobj(d.obj)
        if o is None: raise Unsupported('copy to unknown object %r' % (d.obj,))
        if o.size is not None and (d.off < 0 or d.off + n > o.size):
            self.fail(st, 'memory: copy out of bounds', ('C13',), info=str(d)); raise PathEnd()
        if len(o.cells) < n:
            for k in [k for k, c in o.cells.items() if d.off <= k and k + c[0] <= d.off + n]: del o.cells[k]
        else:
            for k in range(d.off, d.off + n):
                c = o.cells.get(k)
                if c is not None and k + c[0] <= d.off + n: del o.cells[k]
    def memset(self, st, d, v, n):
        if not isinstance(n, int) or not isinstance(v, int): raise Unsupported('memset')
        if n == 0: return
        self.wipe(st, d, n)
        if d.off % 8 == 0:
            for j in range(0, n - n % 8, 8): self.store(st, d.add(j), 8, int.from_bytes(bytes([v & 255]) * 8, 'little'))
            for j in range(n - n % 8, n): self.store(st, d.add(j), 1, v & 255)
        else:
            for j in range(n): self.store(st, d.add(j), 1, v & 255)
    def load_ty(self, st, p, t):
        rt = self.mod.resolve(t)
        if rt[0] in ('st', 'arr'):
            if rt[0] == 'st':
                offs, _, _ = self.mod.layout(rt)
                return Agg([self.load_ty(st, p.add(o), f) for o, f in zip(offs, rt[1])])
            es = self.mod.size(rt[2])
            return Agg([self.load_ty(st, p.add(i * es), rt[2]) for i in range(rt[1])])
        v = self.load(st, p, self.mod.size(t))
        if rt[0] == 'ptr':
            if isinstance(v, int):
                if v == 0: return NULL
                return PI2P(v)
            if isinstance(v, PI): return v.p
        elif rt[0] == 'i':
            if isinstance(v, (Ptr, Fn)): return PI(v)
            if rt[1] < 8 and isinstance(v, int): v &= (1 << rt[1]) - 1
        return v
    def store_ty(self, st, p, t, v):
        rt = self.mod.resolve(t)
        if rt[0] in ('st', 'arr'):
            if v is UNDEF: return
            if rt[0] == 'st':
                offs, _, _ = self.mod.layout(rt)
                for o, f, x in zip(offs, rt[1], v.v): self.store_ty(st, p.add(o), f, x)
                return
            es = self.mod.size(rt[2])
            for i in range(rt[1]): self.store_ty(st, p.add(i * es), rt[2], v.v[i])
            return
        if is_sym(v) and z3.is_bool(v): v = b2i(v)
        self.store(st, p, self.mod.size(t), v)
    # -- operands -------------------------------------------------------------------------
    def ev(self, st, fr, op, ty):
        k = op[0]
        if k == 'r':
            try: v = fr.regs[op[1]]
            except KeyError: raise Unsupported('register %s of %s' % (op[1], fr.fn.name[:80]))
            return v if not isinstance(v, Tok) else self.tok(st, v)
        if k == 'c': return op[1]
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'g':
            n = op[1]
            if n in self.mod.fn_src or n in self.mod.decls: return Fn(n)
            g = self.mod.glob(n)
            if g[0] == 'alias': return self.ev(st, fr, g[1], PTR)
            return Ptr(('g', n))
        if k == 'zero':
            rt = self.mod.resolve(ty)
            if rt[0] == 'ptr': return NULL
            if rt[0] == 'i': return 0
            if rt[0] == 'st': return Agg([self.ev(st, fr, op, f) for f in rt[1]])
            if rt[0] == 'arr': return Agg([self.ev(st, fr, op, rt[2]) for _ in range(rt[1])])
        if k == 'agg': return Agg([self.ev(st, fr, e, t) for t, e in op[1]])
        if k == 'gep':
            b = self.ev(st, fr, op[2][1], PTR)
            return self.gep(st, fr, op[1], b, op[3])
        if k == 'cast':
            v = self.ev(st, fr, op[2][1], op[2][0])
            return self.cast(st, op[1], op[2][0], v, op[3])
        if k == 'bin':
            a = self.ev(st, fr, op[3], op[2]); b = self.ev(st, fr, op[4], op[2])
            return self.binop(st, op[1], op[2], a, b)
        raise Unsupported('operand %r' % (op,))
    def evt(self, st, fr, op, ty):
        """an operand that may stay unknown"""
        if op[0] == 'r':
            try: v = fr.regs[op[1]]
            except KeyError: raise Unsupported('register %s of %s' % (op[1], fr.fn.name[:80]))
            return v if not isinstance(v, Tok) else self.tokpeek(st, v)
        return self.ev(st, fr, op, ty)
    def gep(self, st, fr, t, b, idx):
        if isinstance(b, PI): b = b.p
        if not isinstance(b, Ptr):
            if b is UNDEF: return UNDEF
            raise Unsupported('gep on %r' % (b,))
        mod = self.mod
        first = True
        for it, io in idx:
            i = self.ev(st, fr, io, it)
            if isinstance(i, int) and it[0] == 'i':
                w = it[1]
                if i >> (w - 1): i -= 1 << w
            if i is UNDEF: return UNDEF
            if first:
                first = False
                b = b.addt(mod.size(t), i)
                continue
            t = mod.resolve(t)
            if t[0] == 'st':
                offs, _, _ = mod.layout(t); b = b.add(offs[i]); t = t[1][i]
            else:
                t = t[2]; b = b.addt(mod.size(t), i)
        return b
    def cast(self, st, op, ft, v, tt):
        if v is UNDEF: return UNDEF
        if isinstance(v, Parts):
            if op in ('bitcast', 'freeze'): return v
            if op == 'trunc' and tt[1] % 8 == 0: return v.sub(0, tt[1] // 8)
            if op == 'zext': return Parts(v.v, self.mod.size(tt))
            raise Unsupported('%s of a piecewise value' % op)
        if op in ('bitcast', 'freeze', 'addrspacecast'): return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj is None: return v.off
            return PI(v)
        if op == 'inttoptr':
            if isinstance(v, PI): return v.p
            if v == 0 and isinstance(v, int): return NULL
            return PI2P(v)
        if op == 'zext':
            if isinstance(v, int): return v
            if is_sym(v) and z3.is_bool(v): return b2i(v)
            return v
        if op == 'trunc':
            w = tt[1]
            if isinstance(v, int): return v & ((1 << w) - 1)
            if w == 1:
                return i2b(v)
            if isinstance(v, PI): return v
            if self.check(st, z3.And(v >= 0, v < (1 << w))) is True: return v
            return v % (1 << w)
        if op == 'sext':
            w = ft[1]
            if isinstance(v, int):
                if v >> (w - 1): v = (v - (1 << w)) & ((1 << tt[1]) - 1)
                return v
            if z3.is_bool(v): return z3.If(v, z3.IntVal((1 << tt[1]) - 1), z3.IntVal(0))
            if self.check(st, v < (1 << (w - 1))) is True: return v
            raise Unsupported('sext of symbolic')
        raise Unsupported('cast %s' % op)
    def sdiff(self, a, b):
        """a-b for pointers into the same object, as a list of (coef, term) and a constant"""
        c = a.off - b.off; ts = {}
        for s, t in a.terms: ts[s] = t
        for s, t in b.terms: ts[s] = simp(ts.get(s, z3.IntVal(0)) - t)
        out = [(s, t) for s, t in ts.items() if not (isinstance(t, int) and t == 0)]
        return c, out
    def binop(self, st, op, t, a, b):
        w = t[1]
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(st, op, w, a, b)
        if isinstance(a, Parts) or isinstance(b, Parts):
            if op == 'lshr' and isinstance(b, int) and b % 8 == 0:
                r = a.sub(b // 8, w // 8 - b // 8)
                return r if not isinstance(r, Parts) else Parts(r.v, w // 8)
            raise Unsupported('%s of a piecewise value' % op)
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                pa, pb = a.p, b.p
                if isinstance(pa, Ptr) and isinstance(pb, Ptr) and same_obj(pa.obj, pb.obj):
                    c, ts = self.sdiff(pa, pb)
                    if not ts: return c & ((1 << w) - 1)
                    r = z3.IntVal(c)
                    for s, x in ts: r = r + s * x
                    r = z3.simplify(r)
                    self.note_lin(r, c, ts)
                    return r
                raise Unsupported('difference of pointers into different objects')
            if op == 'sub' and isinstance(a, PI) and isinstance(b, int): return PI(a.p.add(-b))
            if op == 'add':
                p, n = (a, b) if isinstance(a, PI) else (b, a)
                if isinstance(n, int): return PI(p.p.add(n if n < 1 << (w-1) else n - (1 << w)))
            if op == 'sub' and isinstance(b, PI) and isinstance(b.p, Ptr) and b.p.obj is None: return self.binop(st, op, t, a, b.p.off)
            raise Unsupported('pointer arithmetic %s' % op)
        if w == 1:
            a = i2b(a); b = i2b(b)
            if op == 'xor': return simp(z3.Xor(z3b(a), z3b(b)))
            if op == 'and': return simp(z3.And(z3b(a), z3b(b)))
            if op == 'or': return simp(z3.Or(z3b(a), z3b(b)))
            raise Unsupported('i1 %s' % op)
        if is_sym(a) and z3.is_bool(a): a = b2i(a)
        if is_sym(b) and z3.is_bool(b): b = b2i(b)
        M = 1 << w
        if op in ('add', 'sub', 'mul'):
            if op == 'add' and isinstance(b, int) and b >= M // 2: op = 'sub'; b = M - b
            elif op == 'add' and isinstance(a, int) and a >= M // 2: op = 'sub'; a, b = b, M - a
            r = simp(a + b if op == 'add' else a - b if op == 'sub' else a * b)
            if isinstance(r, int): return r % M
            if self.check(st, z3.And(r >= 0, r < M)) is True: return r
            return r % M
        if op in ('sdiv', 'udiv') and isinstance(b, int) and b > 0:
            l = self.lin_div(a, b)
            if l is not None: return l
            if op == 'sdiv' and self.check(st, a < M // 2) is not True: raise Unsupported('sdiv')
            return simp(a / z3.IntVal(b))
        if op in ('srem', 'urem') and isinstance(b, int) and b > 0:
            if op == 'srem' and self.check(st, a < M // 2) is not True: raise Unsupported('srem')
            return simp(a % z3.IntVal(b))
        if op == 'shl' and isinstance(b, int): return self.binop(st, 'mul', t, a, 1 << b)
        if op == 'lshr' and isinstance(b, int): return simp(a / z3.IntVal(1 << b))
        if op == 'and' and isinstance(b, int) and (b & (b + 1)) == 0: return simp(a % z3.IntVal(b + 1))
        if op in ('and', 'or', 'xor'):
            ba, bb = bitb(a), bitb(b)
            if ba is not None and bb is not None:
                f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
                return b2i(simp(f(z3b(ba), z3b(bb))))
        if op in ('or', 'xor', 'add'):
            # fields packed into one word
            for x, y in ((a, b), (b, a)):
                for k in (32, 16, 8):
                    if k < w and self.check(st, z3.And(z3i(x) >= 0, z3i(x) < 1 << k, z3i(y) % (1 << k) == 0)) is True: return simp(z3i(x) + z3i(y))
        if op in ('udiv', 'urem') and is_sym(b):
            if self.check(st, b > 0) is True: return simp(a / b if op == 'udiv' else a % b) if is_sym(a) else simp(z3.IntVal(a) / b if op == 'udiv' else z3.IntVal(a) % b)
        raise Unsupported('symbolic %s' % op)
    def note_lin(self, r, c, ts):
        self.tmcache[r.get_id()] = (r, c, ts) if is_sym(r) else None
    def lin_div(self, a, b):
        if not is_sym(a): return None
        e = self.tmcache.get(a.get_id())
        if e is None: return None
        _, c, ts = e
        if c % b or any(s % b for s, _ in ts): return None
        r = z3.IntVal(c // b)
        for s, x in ts: r = r + (s // b) * x
        return simp(r)
    def cbin(self, st, op, w, a, b):
        M = 1 << w
        if op == 'add': return (a + b) % M
        if op == 'sub': return (a - b) % M
        if op == 'mul': return (a * b) % M
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) % M
        if op == 'lshr': return a >> b
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
            self.fail(st, 'arithmetic: division by zero', ('C13',)); raise PathEnd()
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        sa = a - M if a >= M // 2 else a; sb = b - M if b >= M // 2 else b
        if op == 'ashr': return (sa >> b) % M
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0): q = -q
        if op == 'sdiv': return q % M
        if op == 'srem': return (sa - q * sb) % M
        raise Unsupported(op)
    def ptr_eq(self, st, a, b):
        if isinstance(a, int) and a == 0: a = NULL
        if isinstance(b, int) and b == 0: b = NULL
        if isinstance(a, PI): a = a.p
        if isinstance(b, PI): b = b.p
        if isinstance(a, Fn) or isinstance(b, Fn):
            return isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is None and b.obj is None: return a.off == b.off
            if a.obj is None or b.obj is None:
                x = a if b.obj is None else b
                h = self.families.get(x.obj[0]) if isinstance(x.obj, tuple) else None
                if h is not None and hasattr(h, 'is_null'): return h.is_null(self, st, x)
                return False
            eq = obj_eq(a.obj, b.obj)
            if eq is False: return False
            c, ts = self.sdiff(a, b)
            if not ts: r = c == 0
            else:
                r = z3.IntVal(c)
                for s, x in ts: r = r + s * x
                r = simp(r == 0)
            if eq is True: return r
            return simp(z3.And(eq, z3b(r)))
        if isinstance(a, (Ptr, VFn)) and isinstance(b, (Ptr, VFn)): return a is b
        raise Unsupported('compare %r %r' % (a, b))
    def icmp(self, st, pr, t, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        rt = self.mod.resolve(t)
        if isinstance(a, int) and isinstance(b, int) and rt[0] == 'i':
            if pr == 'eq': return int(a == b)
            if pr == 'ne': return int(a != b)
            if pr[0] == 's':
                M = 1 << rt[1]; H = M >> 1
                if a >= H: a -= M
                if b >= H: b -= M
            k = pr[1:]
            return int(a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
        if rt[0] == 'ptr' or isinstance(a, (PI, Ptr, Fn)) or isinstance(b, (PI, Ptr, Fn)):
            if pr in ('eq', 'ne'):
                r = self.ptr_eq(st, a, b)
                if isinstance(r, bool): return int(r if pr == 'eq' else not r)
                return r if pr == 'eq' else z3.Not(r)
            if isinstance(a, PI): a = a.p
            if isinstance(b, PI): b = b.p
            if isinstance(a, Ptr) and isinstance(b, Ptr) and same_obj(a.obj, b.obj):
                c, ts = self.sdiff(a, b)
                r = z3.IntVal(c)
                for s, x in ts: r = r + s * x
                r = simp(r); k = pr[1:]
                x = r < 0 if k == 'lt' else r <= 0 if k == 'le' else r > 0 if k == 'gt' else r >= 0
                return int(x) if isinstance(x, bool) else simp(x)
            raise Unsupported('pointer order')
        if rt[1] == 1:
            a = z3b(i2b(a)); b = z3b(i2b(b))
            if pr == 'eq': return simp(a == b)
            if pr == 'ne': return simp(a != b)
            raise Unsupported('i1 order')
        # 0/1 integers compared with a constant
        for x, y in ((a, b), (b, a)):
            bx = bitb(x) if is_sym(x) else None
            if bx is not None and isinstance(y, int) and pr in ('eq', 'ne') and y in (0, 1):
                pos = (pr == 'eq') == (y == 1)
                return bx if pos else simp(z3.Not(bx))
        if pr == 'eq': return simpb(a == b)
        if pr == 'ne': return simpb(a != b)
        if pr[0] == 's':
            H = 1 << (rt[1] - 1); M = 2 * H
            def sg(x):
                if isinstance(x, int): return x - M if x >= H else x
                if self.check(st, x < H) is True: return x
                raise Unsupported('signed comparison')
            a = sg(a); b = sg(b)
        k = pr[1:]
        return simpb(a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
    # -- execution ------------------------------------------------------------------------
    def push(self, st, name, args, site):
        f = self.mod.fn(name)
        if f is None: raise Unsupported('no definition of %s' % name)
        self.fnseen[name] = self.fnseen.get(name, 0) + 1
        if len(st.frames) > 400: raise Unsupported('recursion')
        fr = Frame(); fr.fn = f; fr.blk = f.entry; fr.ins = f.blocks[f.entry].ins; fr.ip = 0; fr.prev = None
        fr.regs = {}; fr.visits = {}; fr.na = 0; fr.cutret = False; fr.loopd = st.spec.ver if st.spec is not None else 0
        fr.path = self.path(st.frames[-1].path if st.frames else 0, site, name)
        for j, (t, nm, a) in enumerate(f.params):
            v = args[j] if j < len(args) else UNDEF
            if 'byval' in a:
                oid = ('bv', fr.path, j)
                sz = self.mod.size(a['byval'])
                self.alloc(st, oid, sz, 'stack')
                self.memcpy(st, Ptr(oid), v, sz)
                v = Ptr(oid)
            fr.regs[nm] = v
        st.frames.append(fr)
    def start(self, st, name, args):
        self.push(st, name, args, 'entry')
    def run(self, st0, on_end):
        """explore every path from st0; on_end(st) is called at the end of each"""
        work = [st0]
        while work:
            st = work.pop()
            try:
                more = self.run_path(st, on_end)
            except PathEnd:
                continue
            if more: work.extend(more)
    def run_path(self, st, on_end):
        D = self.DISPATCH
        while True:
            if not st.frames:
                on_end(st); return None
            fr = st.frames[-1]
            ins = fr.ins[fr.ip]
            self.steps += 1
            if self.steps & 0xfff == 0:
                if self.deadline and time.time() > self.deadline: raise Timeout()
                if self.maxsteps and self.steps > self.maxsteps: raise Timeout()
            try:
                r = D[ins[0]](self, st, fr, ins)
            except Fork as f:
                out = []
                alts = [(c, e) for c, e in f.alts if callable(c) or self.check(st, c) is not False]
                for j, (c, e) in enumerate(alts):
                    s2 = st.clone() if j + 1 < len(alts) else st
                    if callable(c): c(s2); out.append(s2); continue
                    try: self.assume(s2, c)
                    except PathEnd: continue
                    if e is not None:
                        s2.eqs[e[0]] = e[1]; s2.ghost.setdefault('keep', []).append(e[2])
                    out.append(s2)
                return out
            if r is not None:
                if r == 'end': on_end(st); return None
                return r
    # instruction handlers: return None to go on with this state, or a list of states
    def i_alloca(self, st, fr, ins):
        n = 1
        if ins[3] is not None:
            n = self.ev(st, fr, ins[3], ('i', 64))
            if not isinstance(n, int): raise Unsupported('alloca of symbolic size')
        oid = ('a', fr.path, fr.na); fr.na += 1
        fr.regs[ins[1]] = self.alloc(st, oid, self.mod.size(ins[2]) * n, 'stack')
        fr.ip += 1
    def i_load(self, st, fr, ins):
        p = self.ev(st, fr, ins[3], PTR)
        fr.regs[ins[1]] = self.load_ty(st, p, ins[2]); fr.ip += 1
    def i_store(self, st, fr, ins):
        v = self.evt(st, fr, ins[2], ins[1]); p = self.ev(st, fr, ins[3], PTR)
        self.store_ty(st, p, ins[1], v); fr.ip += 1
    def i_gep(self, st, fr, ins):
        b = self.ev(st, fr, ins[3], PTR)
        fr.regs[ins[1]] = self.gep(st, fr, ins[2], b, ins[4]); fr.ip += 1
    def i_bin(self, st, fr, ins):
        t = ins[3]
        if t[0] != 'i': raise Unsupported('floating point')
        a = self.evt(st, fr, ins[4], t); b = self.evt(st, fr, ins[5], t)
        if isinstance(a, Tok) or isinstance(b, Tok):
            if isinstance(a, Tok) and isinstance(b, int): r = self.tokmap(a, lambda c: self.cbin(st, ins[2], t[1], c, b))
            elif isinstance(b, Tok) and isinstance(a, int) and ins[2] in ('add', 'sub', 'mul', 'and', 'or', 'xor'): r = self.tokmap(b, lambda c: self.cbin(st, ins[2], t[1], a, c))
            else: r = self.binop(st, ins[2], t, self.ev(st, fr, ins[4], t), self.ev(st, fr, ins[5], t))
        else: r = self.binop(st, ins[2], t, a, b)
        fr.regs[ins[1]] = r; fr.ip += 1
    def i_cast(self, st, fr, ins):
        v = self.evt(st, fr, ins[4], ins[3])
        if isinstance(v, Tok) and ins[2] in ('zext', 'trunc'): v = self.tokmap(v, lambda c: self.cast(st, ins[2], ins[3], c, ins[5]))
        elif isinstance(v, Tok): v = self.cast(st, ins[2], ins[3], self.tok(st, v), ins[5])
        else: v = self.cast(st, ins[2], ins[3], v, ins[5])
        fr.regs[ins[1]] = v; fr.ip += 1
    def i_icmp(self, st, fr, ins):
        a = self.evt(st, fr, ins[4], ins[3]); b = self.evt(st, fr, ins[5], ins[3])
        if isinstance(a, Tok) or isinstance(b, Tok):
            if isinstance(a, Tok) and isinstance(b, int): r = self.tok(st, self.tokmap(a, lambda c: self.icmp(st, ins[2], ins[3], c, b)))
            elif isinstance(b, Tok) and isinstance(a, int): r = self.tok(st, self.tokmap(b, lambda c: self.icmp(st, ins[2], ins[3], a, c)))
            else: r = self.icmp(st, ins[2], ins[3], self.ev(st, fr, ins[4], ins[3]), self.ev(st, fr, ins[5], ins[3]))
        else: r = self.icmp(st, ins[2], ins[3], a, b)
        fr.regs[ins[1]] = r; fr.ip += 1
    def jump(self, st, fr, to):
        f = fr.fn; src = fr.blk
        b = f.blocks[to]
        if b.phis:
            vals = [(p[1], self.evt(st, fr, p[3][src], p[2])) for p in b.phis]
            for d, v in vals: fr.regs[d] = v
        fr.prev = src; fr.blk = to; fr.ins = b.ins; fr.ip = 0
        if self.join is not None:
            bk = f.backs
            if bk is None: bk = f.backs = back_edges(f)
            if to in bk[1]:
                if (src, to) in bk[0]:
                    if fr.visits.get(to) != st.spec.ver:
                        self.join(self, st, fr); fr.visits[to] = st.spec.ver
                else: fr.visits[to] = st.spec.ver
        if self.unroll is not None:
            bk = f.backs
            if bk is None: bk = f.backs = back_edges(f)
            if to in bk[1]:
                if (f.name, to) in self.cuts:
                    return self.on_loop_cut(self, st, fr, to)
                if (src, to) in bk[0]:
                    n, k = fr.visits.get(to, (0, -1))
                    if len(st.pc) != k:
                        n += 1; fr.visits[to] = (n, len(st.pc))
                        if n > self.unroll: raise NewCut((f.name, to))
        return None
    def i_br(self, st, fr, ins): return self.jump(st, fr, ins[1])
    def i_cbr(self, st, fr, ins):
        c = self.ev(st, fr, ins[1], ('i', 1))
        if isinstance(c, int):
            return self.jump(st, fr, ins[2] if c else ins[3])
        if c is UNDEF:
            self.fail(st, 'memory: branch on an uninitialised value', ('C13',)); raise PathEnd()
        c = i2b(c)
        r = self.check(st, c)
        if r is True: return self.jump(st, fr, ins[2])
        if r is False: return self.jump(st, fr, ins[3])
        s2 = st.clone()
        self.assume(st, c); self.assume(s2, simp(z3.Not(c)))
        out = []
        for s, to in ((s2, ins[3]), (st, ins[2])):
            try: r = self.jump(s, s.frames[-1], to)
            except PathEnd: continue
            if r is None: out.append(s)
            else: out.extend(r)
        return out
    def i_switch(self, st, fr, ins):
        v = self.ev(st, fr, ins[2], ins[1])
        if isinstance(v, int):
            for k, b in ins[4]:
                if k == v: return self.jump(st, fr, b)
            return self.jump(st, fr, ins[3])
        if v is UNDEF: self.fail(st, 'memory: switch on an uninitialised value', ('C13',)); raise PathEnd()
        out = []
        alts = [(v == k, b) for k, b in ins[4]] + [(z3.And([v != k for k, _ in ins[4]]) if ins[4] else z3.BoolVal(True), ins[3])]
        alts = [(c, b) for c, b in alts if self.check(st, simp(c)) is not False]
        for j, (c, b) in enumerate(alts):
            s2 = st.clone() if j + 1 < len(alts) else st
            self.assume(s2, c)
            try: r = self.jump(s2, s2.frames[-1], b)
            except PathEnd: continue
            if r is None: out.append(s2)
            else: out.extend(r)
        return out
    def i_select(self, st, fr, ins):
        c = self.ev(st, fr, ins[2], ('i', 1))
        if isinstance(c, int): fr.regs[ins[1]] = self.evt(st, fr, ins[4] if c else ins[5], ins[3]); fr.ip += 1; return
        a = self.ev(st, fr, ins[4], ins[3]); b = self.ev(st, fr, ins[5], ins[3])
        if isinstance(c, int): r = a if c else b
        elif c is UNDEF: self.fail(st, 'memory: select on an uninitialised value', ('C13',)); raise PathEnd()
        else:
            c = i2b(c); k = self.check(st, c)
            if k is not None: r = a if k else b
            elif ins[3][0] == 'i' and not isinstance(a, (PI, Undef)) and not isinstance(b, (PI, Undef)):
                if ins[3][1] == 1: r = simp(z3.If(c, z3b(i2b(a)), z3b(i2b(b))))
                else: r = simp(z3.If(c, z3i(a), z3i(b)))
            else: raise Fork([(c, None), (z3.Not(c), None)])
        fr.regs[ins[1]] = r; fr.ip += 1
    def i_extractvalue(self, st, fr, ins):
        v = self.ev(st, fr, ins[3], ins[2])
        for i in ins[4]: v = UNDEF if v is UNDEF else v.v[i]
        fr.regs[ins[1]] = v; fr.ip += 1
    def i_insertvalue(self, st, fr, ins):
        v = self.ev(st, fr, ins[3], ins[2]); e = self.ev(st, fr, ins[5], ins[4])
        def put(v, t, path):
            rt = self.mod.resolve(t)
            n = len(rt[1]) if rt[0] == 'st' else rt[1]
            vs = [UNDEF] * n if v is UNDEF else list(v.v)
            sub = rt[1][path[0]] if rt[0] == 'st' else rt[2]
            vs[path[0]] = e if len(path) == 1 else put(vs[path[0]], sub, path[1:])
            return Agg(vs)
        fr.regs[ins[1]] = put(v, ins[2], ins[6]); fr.ip += 1
    def i_ret(self, st, fr, ins):
        v = None if ins[2] is None else self.evt(st, fr, ins[2], ins[1])
        st.frames.pop()
        # the frame's objects are gone
        self.drop_frame(st, fr)
        if not st.frames:
            st.result = ('ret', v); return 'end'
        return self.returned(st, v, fr)
    def drop_frame(self, st, fr):
        p = fr.path
        for k in range(fr.na): st.mem.pop(('a', p, k), None)
    def returned(self, st, v, callee=None):
        fr = st.frames[-1]; ins = fr.ins[fr.ip]
        if ins[1] is not None: fr.regs[ins[1]] = v
        if callee is not None and callee.cutret: fr.cutret = True
        r = None
        if ins[0] == 'call': fr.ip += 1
        else: r = self.jump(st, fr, ins[5])
        if r is not None: return r
        if self.join is not None and callee is not None and callee.cutret: self.join(self, st, fr)
        if self.on_frame_return is not None and callee is not None and callee.cutret and self.on_frame_return is not None:
            return self.on_frame_return(self, st, callee, v)
        return None
    def throw(self, st, exc):
        """unwind from the call the top frame is executing"""
        while st.frames:
            fr = st.frames[-1]; ins = fr.ins[fr.ip]
            if ins[0] == 'invoke':
                st.exc = exc
                # does the landing pad want it?
                lp = fr.fn.blocks[ins[6]].ins[0]
                sel = self.lp_select(st, lp, exc)
                if sel is not None:
                    st.pending = (exc, sel)
                    return self.jump(st, fr, ins[6])
            st.frames.pop(); self.drop_frame(st, fr)
        st.exc = exc
        st.result = ('throw', exc)
        return 'end'
    def env_throws(self, st):
        """the environment throws something of an arbitrary type"""
        if self.catches is None:
            self.catches = sorted({c for f in self.mod.fn_src.values() for c in re.findall(r'catch ptr @"?([\w$.]+)', f if isinstance(f, str) else '\n'.join(f))})
        return [(st.clone() if n else st, 'throw', Exc('VpThrow', env=True, isa=n)) for n in [None] + self.catches]
    def lp_select(self, st, lp, exc):
        for j, (k, v) in enumerate(lp[3]):
            if k == 'catch':
                if v[0] == 'null': return j + 1
                name = v[1] if v[0] == 'g' else None
                if name == exc.type: return self.typeid(name)
                if exc.env:          # the type of a user exception is arbitrary: env_throws explores both
                    if name == exc.isa: return self.typeid(name)
                    continue
                if self.is_base(name, exc.type): return self.typeid(name)
            else:
                raise Unsupported('exception specification')
        return 0 if lp[2] else None
    def is_base(self, a, b): return {'_ZTISt13runtime_error': ('_ZTISt9exception',), '_ZTISt12out_of_range': ('_ZTISt9exception', '_ZTISt11logic_error')}.get(b, ()).count(a) > 0
    def typeid(self, name): return 1000 + self.path('tid', name)
    def i_landingpad(self, st, fr, ins):
        exc, sel = st.pending; st.pending = None
        oid = exc.obj if exc.obj is not None else Ptr(('exc', exc.type))
        fr.regs[ins[1]] = Agg([oid, sel]); fr.ip += 1
        st.ghost['exc'] = exc
    def i_resume(self, st, fr, ins):
        exc = st.exc
        st.frames.pop(); self.drop_frame(st, fr)
        if not st.frames: st.result = ('throw', exc); return 'end'
        return self.throw(st, exc)
    def i_unreachable(self, st, fr, ins):
        self.fail(st, 'control: unreachable code reached', ('C13',)); raise PathEnd()
    def i_atomicrmw(self, st, fr, ins):
        p = self.ev(st, fr, ins[4], PTR); v = self.ev(st, fr, ins[5], ins[3])
        old = self.load_ty(st, p, ins[3])
        if ins[2] == 'add': new = self.binop(st, 'add', ins[3], old, v)
        elif ins[2] == 'sub': new = self.binop(st, 'sub', ins[3], old, v)
        else: raise Unsupported('atomicrmw ' + ins[2])
        self.store_ty(st, p, ins[3], new); fr.regs[ins[1]] = old; fr.ip += 1
    def i_unsup(self, st, fr, ins): raise Unsupported(ins[1][:100])
    def i_call(self, st, fr, ins):
        callee = ins[3]
        args = [self.evt(st, fr, v, t) for t, v, a in ins[4]]
        if callee[0] == 'g': name = callee[1]
        else:
            c = self.ev(st, fr, callee, PTR)
            if isinstance(c, VFn): return self.outcomes(st, self.vcall(st, c, args, ins))
            if isinstance(c, Ptr) and c.obj is None:
                self.fail(st, 'memory: call through null', ('C13',)); raise PathEnd()
            if not isinstance(c, Fn): raise Unsupported('call of %r' % (c,))
            name = c.name
        h = self.hookcache.get(name, 0)
        if h == 0:
            h = self.find_hook(name); self.hookcache[name] = h
        if h is not None:
            args = [self.tok(st, x) if isinstance(x, Tok) else x for x in args]
            r = h(self, st, name, args, ins)
            if r is not NotImplemented: return self.outcomes(st, r)
        self.push(st, name, args, (fr.blk, fr.ip))
        return None
    def outcomes(self, st, r):
        """r: Ret(value) | [ (state, 'ret'|'throw', value) ]"""
        if isinstance(r, list):
            out = []
            for s, k, v in r:
                try: q = self.returned(s, v) if k == 'ret' else self.throw(s, v)
                except PathEnd: continue
                if q is None: out.append(s)
                elif q == 'end': out.append(s)
                else: out.extend(q)
            return out
        if isinstance(r, tuple) and r and r[0] == 'throw': return self.throw(st, r[1])
        return self.returned(st, r)
    def vcall(self, st, c, args, ins): raise Unsupported('virtual call on %r' % (c,))
    def find_hook(self, name):
        h = self.hooks.get(name)
        if h: return h
        for rx, h in self.rhooks:
            if rx.match(name): return h
        return None
    DISPATCH = {'alloca': i_alloca, 'load': i_load, 'store': i_store, 'gep': i_gep, 'bin': i_bin, 'cast': i_cast, 'icmp': i_icmp,
                'br': i_br, 'cbr': i_cbr, 'switch': i_switch, 'select': i_select, 'extractvalue': i_extractvalue,
                'insertvalue': i_insertvalue, 'ret': i_ret, 'landingpad': i_landingpad, 'resume': i_resume,
                'unreachable': i_unreachable, 'atomicrmw': i_atomicrmw, 'unsup': i_unsup, 'call': i_call, 'invoke': i_call}

def z3i(x): return z3.IntVal(x) if isinstance(x, int) else x
def tokset(name, v):
    def f(st):
        d = dict(st.ghost.get('val', {})); d[name] = v; st.ghost['val'] = d
    return f
def regs_used(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'r' and isinstance(x[1], str): out.add(x[1]); return
        for y in x: regs_used(y, out)
    elif isinstance(x, list):
        for y in x: regs_used(y, out)
DEFS = {'alloca', 'load', 'gep', 'bin', 'cast', 'icmp', 'select', 'extractvalue', 'insertvalue', 'landingpad', 'atomicrmw', 'call', 'invoke'}
LIVE = {}
def succs(i):
    k = i[0]
    if k == 'br': return [i[1]]
    if k == 'cbr': return [i[2], i[3]]
    if k == 'switch': return [i[3]] + [x[1] for x in i[4]]
    if k == 'invoke': return [i[5], i[6]]
    return []
def liveness(f):
    """block -> registers live at its start (after its phis)"""
    r = LIVE.get(id(f))
    if r is not None: return r[1]
    use = {}; de = {}
    for n, b in f.blocks.items():
        u = set(); d = set()
        for i in b.ins:
            x = set(); regs_used(i[2:] if i[0] in DEFS else i[1:], x)
            u |= x - d
            if i[0] in DEFS and i[1]: d.add(i[1])
        use[n] = u; de[n] = d
    live = {n: set(use[n]) for n in f.blocks}
    ch = True
    while ch:
        ch = False
        for n, b in f.blocks.items():
            out = set()
            for s in succs(b.ins[-1]):
                sb = f.blocks[s]
                out |= live[s] - {p[1] for p in sb.phis}
                for p in sb.phis: regs_used(p[3].get(n, ()), out)
            new = use[n] | (out - de[n])
            if not new <= live[n]: live[n] |= new; ch = True
    LIVE[id(f)] = (f, live)
    return live
LIVEAT = {}
def live_at(f, blk, ip):
    k = (id(f), blk, ip)
    r = LIVEAT.get(k)
    if r is not None: return r
    b = f.blocks[blk]; live = liveness(f)
    out = set()
    for s in succs(b.ins[-1]):
        sb = f.blocks[s]
        out |= live[s] - {p[1] for p in sb.phis}
        for p in sb.phis: regs_used(p[3].get(blk, ()), out)
    for i in reversed(b.ins[ip:]):
        if i[0] in DEFS and i[1]: out.discard(i[1])
        regs_used(i[2:] if i[0] in DEFS else i[1:], out)
    LIVEAT[k] = sorted(out)
    return LIVEAT[k]

def PI2P(v): raise Unsupported('integer to pointer')
def z3b(b): return z3.BoolVal(b) if isinstance(b, (bool, int)) else b
def z3i(b): return z3.IntVal(b) if isinstance(b, int) else b2i(b)
def simpb(c):
    if isinstance(c, bool): return int(c)
    c = z3.simplify(c)
    if z3.is_true(c): return 1
    if z3.is_false(c): return 0
    return c
def bitb(x):
    """the Bool behind a 0/1 integer, or None"""
    if isinstance(x, int): return bool(x) if x in (0, 1) else None
    if z3.is_bool(x): return x
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        c, a, b = x.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            if (a.as_long(), b.as_long()) == (1, 0): return c
            if (a.as_long(), b.as_long()) == (0, 1): return z3.Not(c)
    return None
def same_obj(a, b): return obj_eq(a, b) is True
def obj_eq(a, b):
    """True / False / condition"""
    if a is b: return True
    if not isinstance(a, tuple) or not isinstance(b, tuple): return a == b
    if len(a) != len(b): return False
    conds = []
    for x, y in zip(a, b):
        if is_sym(x) or is_sym(y):
            c = simp((x if is_sym(x) else z3.IntVal(x)) == y)
            if c is False: return False
            if c is not True: conds.append(c)
        elif isinstance(x, tuple) and isinstance(y, tuple):
            c = obj_eq(x, y)
            if c is False: return False
            if c is not True: conds.append(c)
        elif x != y: return False
    if not conds: return True
    return conds[0] if len(conds) == 1 else z3.And(conds)

def back_edges(f):
    """(set of back edges, set of their targets)"""
    succ = {}
    for n, b in f.blocks.items():
        i = b.ins[-1]; k = i[0]
        if k == 'br': s = [i[1]]
        elif k == 'cbr': s = [i[2], i[3]]
        elif k == 'switch': s = [i[3]] + [x[1] for x in i[4]]
        elif k == 'invoke': s = [i[5], i[6]]
        else: s = []
        succ[n] = s
    color = {}; backs = set()
    stack = [(f.entry, iter(succ[f.entry]))]; color[f.entry] = 1
    while stack:
        n, it = stack[-1]
        for s in it:
            c = color.get(s, 0)
            if c == 0:
                color[s] = 1; stack.append((s, iter(succ[s]))); break
            if c == 1: backs.add((n, s))
        else:
            color[n] = 2; stack.pop()
    return backs, {t for _, t in backs}
