"""Contracts for what is not verified: the C++ runtime and the chunk map of std::deque.

std::vector, std::array, std::queue, std::variant, std::shared_ptr, std::unique_ptr, std::tuple and
boost::hana are executed as they are in the headers.  std::deque is executed too, but its map of
chunks is replaced by one chunk without end: _M_initialize_map, ~_Deque_base and iterator += are
contracts, everything else of it is the header's code.
"""
import re, z3
from ir import Unsupported, PTR
from sym import *

FAR = 1 << 30

def elem_size(ex, name):
    """size of the element type, from the code itself"""
    r = ex.hookcache.get(('S', name))
    if r: return r
    seen = set(); todo = [name]
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        f = ex.mod.fn(n)
        if f is None: continue
        for b in f.blocks.values():
            for i in b.ins:
                if i[0] in ('call', 'invoke') and i[3][0] == 'g':
                    if i[3][1] == '_ZSt16__deque_buf_sizem' and i[4][0][1][0] == 'c':
                        ex.hookcache[('S', name)] = i[4][0][1][1]; return i[4][0][1][1]
                    if 'Deque' in i[3][1]: todo.append(i[3][1])
    raise Unsupported('element size of %s' % name[:100])

def bufelems(S): return 512 // S if S < 512 else 1

def far_iter(ex, st, p, chunk, S, pos, terms=()):
    """write an iterator at p pointing at element pos of chunk"""
    B = bufelems(S)
    ex.store(st, p, 8, Ptr(chunk, S * pos, terms)); ex.store(st, p.add(8), 8, Ptr(chunk, -S * FAR))
    ex.store(st, p.add(16), 8, Ptr(chunk, -S * FAR + S * B)); ex.store(st, p.add(24), 8, Ptr(('node', chunk)))

def h_init_map(ex, st, name, args, ins):
    S = elem_size(ex, name)
    this, n = args
    if not isinstance(n, int): raise Unsupported('deque of symbolic size')
    oid = newheap(ex, st, 'chunk')
    ex.alloc(st, oid, None, 'heap', tag='deque')
    ex.store(st, this, 8, Ptr(('node', oid))); ex.store(st, this.add(8), 8, 8)
    far_iter(ex, st, this.add(16), oid, S, 0); far_iter(ex, st, this.add(48), oid, S, n)
    return None
def h_deque_base_dtor(ex, st, name, args, ins):
    m = ex.load(st, args[0], 8)
    if isinstance(m, Ptr) and m.obj is not None and m.obj[0] == 'node':
        ch = m.obj[1]
        o = st.wobj(ch)
        if o is not None:
            if not o.alive: ex.fail(st, 'memory: deque destroyed twice', ('C13', 'C15')); raise PathEnd()
            o.alive = False; o.cells = {}
    return None
def h_iter_add(ex, st, name, args, ins):
    this, n = args
    S = elem_size(ex, name)
    cur = ex.load(st, this, 8)
    if isinstance(n, int):
        if n >> 63: n -= 1 << 64
    ex.store(st, this, 8, cur.addt(S, n))
    return this

def newheap(ex, st, kind):
    k = st.frames[-1].path if st.frames else 0
    fr = st.frames[-1]
    key = (kind, k, fr.blk, fr.ip)
    n = st.heapn.get(key, 0); st.heapn[key] = n + 1
    return (kind, ex.path('heap', key), n)

def h_new(ex, st, name, args, ins):
    n = args[0]
    if not isinstance(n, int): raise Unsupported('allocation of symbolic size')
    oid = newheap(ex, st, 'h')
    return ex.alloc(st, oid, n, 'heap', tag='new')
def h_delete(ex, st, name, args, ins):
    p = args[0]
    if isinstance(p, Ptr) and p.obj is None: return None
    if not isinstance(p, Ptr): raise Unsupported('delete of %r' % (p,))
    if isinstance(p.obj, tuple) and p.obj[0] in ex.families and hasattr(ex.families[p.obj[0]], 'delete'):
        ex.families[p.obj[0]].delete(ex, st, p); return None
    o = st.wobj(p.obj)
    if o is None: raise Unsupported('delete of unknown object')
    if o.kind != 'heap' or p.off != 0: ex.fail(st, 'memory: delete of something not allocated', ('C13', 'C15')); raise PathEnd()
    if not o.alive: ex.fail(st, 'memory: object destroyed twice', ('C13', 'C15')); raise PathEnd()
    o.alive = False; o.cells = {}
    return None
def h_memcpy(ex, st, name, args, ins): ex.memcpy(st, args[0], args[1], args[2]); return None
def h_memset(ex, st, name, args, ins): ex.memset(st, args[0], args[1], args[2]); return None
def h_libmemcpy(ex, st, name, args, ins): ex.memcpy(st, args[0], args[1], args[2]); return args[0]
def h_expect(ex, st, name, args, ins): return args[0]
def h_nop(ex, st, name, args, ins): return None
def h_lifetime_end(ex, st, name, args, ins):
    p = args[1]
    if isinstance(p, Ptr) and p.obj in st.mem and p.off == 0:
        o = st.wobj(p.obj)
        if o.kind == 'stack': o.cells = {}
    return None
def h_assume(ex, st, name, args, ins): return None
def h_trap(ex, st, name, args, ins):
    ex.fail(st, 'control: trap reached', ('C13',)); raise PathEnd()
def h_minmax(ex, st, name, args, ins):
    a, b = args
    f = name.split('.')[1]
    if isinstance(a, int) and isinstance(b, int) and f[0] == 'u': return max(a, b) if f == 'umax' else min(a, b)
    if f[0] != 'u': raise Unsupported(name)
    return simp(z3.If((z3i(a) >= b) if f == 'umax' else (z3i(a) <= b), z3i(a), z3i(b)))
def h_isconst(ex, st, name, args, ins): return 0
def h_throw_std(ex, st, name, args, ins):
    t = {'_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range'}.get(name)
    if t is None: t = '_ZTI' + name
    return ('throw', Exc(t))
def h_alloc_exc(ex, st, name, args, ins):
    oid = newheap(ex, st, 'exc'); return ex.alloc(st, oid, args[0], 'exc')
def h_cxa_throw(ex, st, name, args, ins):
    t = args[1]
    return ('throw', Exc(t.obj[1] if isinstance(t, Ptr) and isinstance(t.obj, tuple) else '?', args[0]))
def h_begin_catch(ex, st, name, args, ins):
    st.caught.append(st.exc); st.exc = None
    return args[0]
def h_end_catch(ex, st, name, args, ins):
    if st.caught: st.caught.pop()
    return None
def h_rethrow(ex, st, name, args, ins):
    return ('throw', st.caught[-1])
def h_terminate(ex, st, name, args, ins):
    ex.fail(st, 'exception: std::terminate called', ('C14',)); raise PathEnd()
def h_typeid_for(ex, st, name, args, ins):
    t = args[0]
    return ex.typeid(t.obj[1])
def h_true(ex, st, name, args, ins): return 1
def h_vcall_pure(ex, st, name, args, ins):
    ex.fail(st, 'control: pure virtual call', ('C13',)); raise PathEnd()
def h_stacksave(ex, st, name, args, ins): return NULL

def h_bits(ex, st, name, args, ins):
    """bit intrinsics on values known to the executor (their operands here are sizes and indexes)"""
    m = re.match(r'llvm\.(ctlz|cttz|ctpop|abs|bswap)\.i(\d+)', name); k = m.group(1); w = int(m.group(2)); v = args[0]
    if not isinstance(v, int): raise Unsupported('%s of a symbolic value' % name)
    v &= (1 << w) - 1
    if k == 'ctlz': return w - v.bit_length()
    if k == 'cttz': return w if v == 0 else (v & -v).bit_length() - 1
    if k == 'ctpop': return bin(v).count('1')
    if k == 'abs': return v if v < 1 << (w - 1) else ((1 << w) - v) & ((1 << w) - 1)
    return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')

def h_list_hook(ex, st, name, args, ins):
    """std::list nodes are {next, prev}; the two link functions live in libstdc++.so"""
    n = args[0]; ld = lambda p: ex.load(st, p, 8)
    if name.endswith('_M_unhookEv'):
        nx, pv = ld(n), ld(n.add(8))
        ex.store(st, pv, 8, nx); ex.store(st, nx.add(8), 8, pv)
    else:
        pos = args[1]; pv = ld(pos.add(8))
        ex.store(st, n, 8, pos); ex.store(st, n.add(8), 8, pv); ex.store(st, pv, 8, n); ex.store(st, pos.add(8), 8, n)
    return None

def install(ex):
    H = ex.hooks
    for n in ('_Znwm', '_Znam'): H[n] = h_new
    for n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'): H[n] = h_delete
    H['_ZnwmSt11align_val_t'] = lambda ex, st, n, a, i: h_new(ex, st, n, a[:1], i)
    H['_ZdlPvSt11align_val_t'] = h_delete; H['_ZdlPvmSt11align_val_t'] = h_delete
    H['memcpy'] = H['memmove'] = h_libmemcpy
    H['__cxa_allocate_exception'] = h_alloc_exc; H['__cxa_free_exception'] = h_nop
    H['__cxa_throw'] = h_cxa_throw; H['__cxa_begin_catch'] = h_begin_catch; H['__cxa_end_catch'] = h_end_catch
    H['__cxa_rethrow'] = h_rethrow; H['_ZSt9terminatev'] = h_terminate; H['abort'] = h_trap
    H['__cxa_pure_virtual'] = h_vcall_pure
    for n in ('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorD1Ev', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeD1Ev', '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev'): H[n] = h_nop
    R = ex.rhooks
    for rx, h in [(r'llvm\.mem(cpy|move)\.', h_memcpy), (r'llvm\.memset\.', h_memset), (r'llvm\.expect\.', h_expect), (r'llvm\.lifetime\.start', h_nop), (r'llvm\.lifetime\.end', h_lifetime_end),
                  (r'llvm\.(dbg|experimental\.noalias|invariant|assume|stackrestore|prefetch)', h_nop), (r'llvm\.trap', h_trap), (r'llvm\.(umax|umin|smax|smin)\.', h_minmax),
                  (r'llvm\.is\.constant', h_isconst), (r'_ZNSt8__detail15_List_node_base(7_M_hookEPS0_|9_M_unhookEv)$', h_list_hook), (r'llvm\.(ctlz|cttz|ctpop|abs|bswap)\.i', h_bits), (r'llvm\.stacksave', h_stacksave),
                  (r'llvm\.eh\.typeid\.for', h_typeid_for), (r'_ZSt\d+__throw_', h_throw_std),
                  (r'_ZNSt11_Deque_baseI.*E17_M_initialize_mapEm$', h_init_map),
                  (r'_ZNSt11_Deque_baseI.*ED[012]Ev$', h_deque_base_dtor),
                  (r'_ZNSt15_Deque_iteratorI.*EpLEl$', h_iter_add)]:
        R.append((re.compile(rx), h))
