"""Contracts of the parts that do not need a machine: the notations (C12), chained actions (C16) and
the owner of transitions and handlers (C15)."""
import os, subprocess, z3
from ir import Module, Unsupported
from sym import *
import stdmodel, machine
from machine import compile_ir, BuildError, EnvLog

PRE = '''#include "vp_prelude.h"
#include <new>
#include <cstdio>
#include <cstdlib>
#include <utility>
struct A { }; struct B { }; struct P { }; struct E1 { int v; }; struct E2 { int v; };
template <> struct Tag<A> { static constexpr int value = 100; };
template <> struct Tag<B> { static constexpr int value = 101; };
template <> struct Tag<E1> { static constexpr int value = 10; };
template <> struct Tag<E2> { static constexpr int value = 11; };
'''
SRC = {'state': ('hsm::state<A>', 'A'), 'init': ('(* hsm::state<A>)', 'hsm::Initial<hsm::state_t<A>>'),
       'initial': ('hsm::initial<A>', 'hsm::Initial<hsm::state_t<A>>'),
       'exit': ('hsm::exit<P, A>', 'hsm::Exit<hsm::state_t<P>, hsm::state_t<A>>')}
TGT = {'state': ('hsm::state<B>', 'B'), 'self': ('hsm::state<A>', 'A'), 'entry': ('hsm::entry<P, B>', 'hsm::Entry<hsm::state_t<P>, hsm::state_t<B>>'),
       'direct': ('hsm::direct<P, B>', 'hsm::Direct<hsm::state_t<P>, hsm::state_t<B>>'), 'hist': ('hsm::history<P>', 'hsm::History<hsm::state_t<P>>')}
EV = 'hsm::event<E1>'

def dsl_forms():
    """(name, expression, source, event, guard?, action?, target, setup)"""
    out = []
    for sn, (s, sd) in SRC.items():
        for tn, (t, td) in TGT.items():
            for ev in (True, False):
                for g in (False, True):
                    for a in (False, True):
                        x = s + (' + ' + EV if ev else '')
                        if g: x += '[vg]'
                        if a: x += ' / va'
                        # the event binds the guard and the action; without one the source does
                        e = 'E1' if ev else 'hsm::noneEvent'
                        out.append(('postfix %s%s%s%s to %s' % (sn, ' event' if ev else '', ' guard' if g else '', ' action' if a else '', tn),
                                    '(%s = %s)' % (x, t), sd, e, g, a, td))
                        if (ev or not (g or a)):
                            if not ev and sn != 'state': continue
                            out.append(('prefix %s%s%s%s to %s' % (sn, ' event' if ev else '', ' guard' if g else '', ' action' if a else '', tn),
                                        '(%s <= %s)' % (t, x), sd, e, g, a, td))
    for g in (False, True):
        for a in (False, True):
            x = EV + ('[vg]' if g else '') + (' / va' if a else '')
            out.append(('internal event%s%s' % (' guard' if g else '', ' action' if a else ''), '(+ (%s))' % x, None, 'E1', g, a, None))
    out.append(('transition()', 'hsm::transition(hsm::state<A>, hsm::event<E1>, vg, va, hsm::state<B>)', 'A', 'E1', True, True, 'B'))
    out.append(('internal_transition()', 'hsm::internal_transition(hsm::event<E1>, vg, va)', None, 'E1', True, True, None))
    return out

def dsl_source():
    L = [PRE, 'template <class T> struct den { using type = typename T::type; };',
         'template <class T> using den_t = typename den<std::decay_t<T>>::type;']
    F = dsl_forms()
    for i, (n, x, s, e, g, a, t) in enumerate(F):
        L.append('extern "C" void vp_dsl_%d(int g, int a, int* og, int* oa) { VpGV vg { g }; VpAV va { a }; auto t = %s; vg.id = -1; va.id = -1; (void)t; *og = 0; *oa = 0; %s %s }' %
                 (i, x, '*og = t.guard().id;' if g else '', '*oa = t.action().id;' if a else ''))
        c = ['std::is_same_v<std::decay_t<decltype(t.event())>, hsm::event_t<%s>>' % e,
             'std::is_same_v<std::decay_t<decltype(t.guard())>, %s>' % ('VpGV' if g else 'hsm::noGuard'),
             'std::is_same_v<std::decay_t<decltype(t.action())>, %s>' % ('VpAV' if a else 'hsm::noAction')]
        if s: c += ['std::is_same_v<den_t<decltype(t.source())>, %s>' % s, 'std::is_same_v<den_t<decltype(t.target())>, %s>' % t]
        L.append('extern "C" int vp_dslt_%d() { VpGV vg { 0 }; VpAV va { 0 }; auto t = %s; (void)t; return %s; }' %
                 (i, x, ' | '.join('(%s ? %d : 0)' % (y, 1 << k) for k, y in enumerate(c))))
    # the same pieces used for two rows
    L.append('''extern "C" void vp_dsl_reuse(int g, int a, int h, int* o) {
  VpGV vg { g }; VpAV va { a }; auto eg = hsm::event<E1>[vg]; auto ega = eg / va;
  auto t1 = (hsm::state<A> + eg = hsm::state<B>); auto t2 = (hsm::state<B> + ega = hsm::state<A>); auto t3 = (hsm::state<A> + ega = hsm::state<A>);
  VpGV vh { h }; auto t4 = (hsm::state<A> + hsm::event<E1>[vh] / va = hsm::state<B>); auto t5 = (hsm::state<B> <= hsm::state<A> + ega);
  o[0] = t1.guard().id; o[1] = t2.guard().id; o[2] = t2.action().id; o[3] = t3.guard().id; o[4] = t3.action().id; o[5] = t4.guard().id; o[6] = t4.action().id; o[7] = t5.guard().id; o[8] = t5.action().id; }''')
    L.append('#ifdef VP_MAIN\nextern "C" { bool vp_guard(int, int, const void*, int, const void*, int, const void*, const void*, const void*) { return true; } void vp_action(int, int, const void*, int, const void*, int, const void*, const void*, const void*) {} void vp_handler(int, int, const void*, int, const void*, const void*, const void*) {} void* vp_create(int, int, const void*, int, const void*) { return nullptr; } }\nint main() { int bad = 0; for (int k = 0; k < 3; k++) { int g = 7 + 1000 * k, a = 11 + 77 * k, og, oa;')
    for i, (n, x, s, e, g, a, t) in enumerate(F):
        L.append('  vp_dsl_%d(g, a, &og, &oa); if (og != %s || oa != %s) { bad = 1; std::printf("MISMATCH %s: guard %%d (written %%d) action %%d (written %%d)\\n", og, %s, oa, %s); }' %
                 (i, 'g' if g else '0', 'a' if a else '0', n, 'g' if g else '0', 'a' if a else '0'))
        L.append('  if (!k && vp_dslt_%d() != %d) { bad = 1; std::printf("MISMATCH %s: parts %%d (expected %d; bits: event guard action source target)\\n", vp_dslt_%d()); }' %
                 (i, 31 if s else 7, n, 31 if s else 7, i))
    L.append('  int o[9]; vp_dsl_reuse(g, a, 5, o); const int w[9] = { g, g, a, g, a, 5, a, g, a }; for (int j = 0; j < 9; j++) if (o[j] != w[j]) { bad = 1; std::printf("MISMATCH reused pieces: value %d is %d, written %d\\n", j, o[j], w[j]); }')
    L.append('} return bad; }\n#endif')
    return '\n'.join(L) + '\n'

CHAINS = range(0, 9)
def chain_source():
    L = [PRE]
    for n in CHAINS:
        ids = ', '.join('int a%d' % i for i in range(n))
        loc = ' '.join('VpAV x%d { a%d };' % (i, i) for i in range(n))
        clob = ' '.join('x%d.id = -1;' % i for i in range(n))
        for fn in ('chain_actions', 'chain'):
            L.append('extern "C" void vp_%s_%d(E1& e, A& s, B& t, DepA& d, DepB& f%s) { %s auto c = hsm::%s(%s); %s c(e, s, t, d, f); }' %
                     (fn, n, ', ' + ids if ids else '', loc, fn, ', '.join('x%d' % i for i in range(n)), clob))
            L.append('extern "C" void vp_%s2_%d(E1& e, A& s, B& t%s) { %s const auto c = hsm::%s(%s); %s c(e, s, t); c(e, s, t); }' %
                     (fn, n, ', ' + ids if ids else '', loc, fn, ', '.join('x%d' % i for i in range(n)), clob))
    L.append('extern "C" void vp_nest(E1& e, A& s, B& t, int a0, int a1, int a2, int a3) { auto c = hsm::chain_actions(VpAV { a0 }, hsm::chain_actions(VpAV { a1 }, VpAV { a2 }), VpAV { a3 }); c(e, s, t); }')
    L.append('extern "C" void vp_mixed(E1& e, A& s, B& t, int a0) { auto c = hsm::chain_actions(VpA<501> {}, VpAV { a0 }, VpA<502> {}, VpA<501> {}); c(e, s, t); }')
    # arguments given as rvalues: every part sees the value, not what an earlier part left of it
    L.append('''extern "C" void vp_part(int id, int v, int w);
struct VpRv { int v; explicit VpRv(int x) : v(x) {} VpRv(const VpRv& o) : v(o.v) {} VpRv(VpRv&& o) noexcept : v(o.v) { o.v = -7; } VpRv& operator=(const VpRv&) = default; };
struct VpPart { int id; void operator()(VpRv a, VpRv b) const { vp_part(id, a.v, b.v); } };
struct VpPartR { int id; void operator()(const VpRv& a, VpRv b) const { vp_part(id, a.v, b.v); } };''')
    for n in (1, 2, 3, 5):
        for fn in ('chain_actions', 'chain'):
            for k in (0, 1):
                L.append('extern "C" void vp_%srv%d_%d(int v, int w%s) { auto c = hsm::%s(%s); VpRv b(w); c(%s); }' %
                         (fn, k, n, ''.join(', int a%d' % i for i in range(n)), fn, ', '.join('%s { a%d }' % (('VpPart', 'VpPartR')[(i + k) % 2], i) for i in range(n)), 'VpRv(v), std::move(b)' if k else 'VpRv(v), b'))
    L.append('''#ifdef VP_MAIN
#include <vector>
static std::vector<int> vp_log; static int vp_throw_at = -1; static const void* vp_p[5];
extern "C" { bool vp_guard(int, int, const void*, int, const void*, int, const void*, const void*, const void*) { return true; }
void vp_action(int id, int, const void* e, int, const void* s, int, const void* t, const void* d0, const void* d1) {
  bool ok = e == vp_p[0] && s == vp_p[1] && t == vp_p[2] && (!vp_p[3] || (d0 == vp_p[3] && d1 == vp_p[4]));
  vp_log.push_back(ok ? id : -id); if (int(vp_log.size()) - 1 == vp_throw_at) throw 42; }
void vp_handler(int, int, const void*, int, const void*, const void*, const void*) {} void* vp_create(int, int, const void*, int, const void*) { return nullptr; } }
template <class F> static int vp_try(const char* name, std::vector<int> want, F f) {
  int bad = 0;
  for (int k = -1; k < int(want.size()); k++) {
    vp_log.clear(); vp_throw_at = k; bool thrown = false;
    try { f(); } catch (int x) { thrown = x == 42; }
    std::vector<int> w = want; if (k >= 0) w.resize(k + 1);
    if (vp_log != w || thrown != (k >= 0)) { bad = 1; std::printf("MISMATCH %s (throw at %d): called", name, k); for (int x : vp_log) std::printf(" %d", x); std::printf(", written"); for (int x : w) std::printf(" %d", x); std::printf("\\n"); }
  }
  return bad; }
extern "C" void vp_part(int id, int v, int w) { vp_log.push_back(v == 41 && w == 42 ? id : -id); if (int(vp_log.size()) - 1 == vp_throw_at) throw 42; }
int main() { int bad = 0; E1 e { 1 }; A s; B t; DepA d { 1 }; DepB f { 2 }; vp_p[0] = &e; vp_p[1] = &s; vp_p[2] = &t;''')
    for n in CHAINS:
        v = ', '.join(str(10 + 3 * i) for i in range(n))
        for fn in ('chain_actions', 'chain'):
            L.append('  vp_p[3] = &d; vp_p[4] = &f; bad |= vp_try("%s of %d", {%s}, [&] { vp_%s_%d(e, s, t, d, f%s); });' % (fn, n, v, fn, n, ', ' + v if v else ''))
            L.append('  vp_p[3] = nullptr; vp_p[4] = nullptr; bad |= vp_try("%s of %d twice", {%s}, [&] { vp_%s2_%d(e, s, t%s); });' % (fn, n, ', '.join([v, v]) if v else '', fn, n, ', ' + v if v else ''))
    for n in (1, 2, 3, 5):
        for fn in ('chain_actions', 'chain'):
            for k in (0, 1):
                v = ', '.join(str(10 + 3 * i) for i in range(n))
                L.append('  bad |= vp_try("%s of %d with rvalues", {%s}, [&] { vp_%srv%d_%d(41, 42, %s); });' % (fn, n, v, fn, k, n, v))
    L.append('  bad |= vp_try("nested", {1, 2, 3, 4}, [&] { vp_nest(e, s, t, 1, 2, 3, 4); }); bad |= vp_try("mixed", {501, 9, 502, 501}, [&] { vp_mixed(e, s, t, 9); });\n return bad; }\n#endif')
    return '\n'.join(L) + '\n'

OWN = [
    # name, body, what is owned by a, b after it (of the objects 1, 2, 3), returned
    ('move construct', 'P c(std::move(a)); vp_own(c.get(), a.get(), nullptr); vp_end();', lambda x, y: (x, 0, 0)),
    ('move assign', 'a = std::move(b); vp_own(a.get(), nullptr, nullptr); vp_end();', lambda x, y: (y, 0, 0)),
    ('move assign to itself', 'P& r = a; a = std::move(r); vp_own(a.get(), b.get(), nullptr); vp_end();', lambda x, y: (x, y, 0)),
    ('swap', 'a.swap(b); vp_own(a.get(), b.get(), nullptr); vp_end();', lambda x, y: (y, x, 0)),
    ('swap function', 'swap(a, b); vp_own(a.get(), b.get(), nullptr); vp_end();', lambda x, y: (y, x, 0)),
    ('swap with itself', 'a.swap(a); vp_own(a.get(), b.get(), nullptr); vp_end();', lambda x, y: (x, y, 0)),
    ('reset', 'a.reset(); vp_own(a.get(), b.get(), nullptr); vp_end();', lambda x, y: (0, y, 0)),
    ('reset to another', 'a.reset(b.release()); vp_own(a.get(), b.get(), nullptr); vp_end();', lambda x, y: (y, 0, 0)),
    ('release', 'VpO* p = a.release(); vp_own(a.get(), b.get(), p); delete p; vp_end();', lambda x, y: (0, y, x)),
    ('release and adopt', 'P c(a.release()); vp_own(c.get(), a.get(), b.get()); vp_end();', lambda x, y: (x, 0, y)),
    ('default construct and move in', 'P c; c = std::move(a); vp_own(c.get(), b.get(), nullptr); vp_end();', lambda x, y: (x, y, 0)),
    ('observe', 'const P& k = a; vp_own(k ? &*k : nullptr, k.get(), k ? k.operator->() : nullptr); vp_end();', lambda x, y: (x, x, x)),
    ('compare', 'vp_own((a == b) ? a.get() : b.get(), (a != b) ? a.get() : b.get(), nullptr); vp_end();', None),
    ('exception', 'P c(std::move(a)); try { P d(std::move(b)); vp_throw(); } catch (...) { vp_end(); }', None),
    ('leave by exception', 'P c(std::move(a)); vp_throw(); c.reset();', None),
]
def own_source():
    L = [PRE, '#include "hsm/details/utils/dunique_ptr.h"',
         'extern "C" { void vp_destroyed(int id, void* p); void vp_own(const void*, const void*, const void*); void vp_end(); void vp_throw(); }',
         'struct VpO { int id; explicit VpO(int i) : id(i) {} virtual ~VpO() { vp_destroyed(id, this); } virtual void f() {} };',
         'struct VpD : VpO { int more = 1; using VpO::VpO; ~VpD() override {} };',
         'using P = hsm::details::utils::dunique_ptr<VpO>;'.replace('P', 'PP', 1).replace('using PP', 'using Own')]
    L = [x.replace('struct P { };', 'struct QQ { };') for x in L]
    L.append('using P = Own;')
    for i, (n, body, post) in enumerate(OWN):
        L.append('extern "C" void vp_own_%d(int x, int y) { P a(x ? new VpD(1) : nullptr); P b(y ? new VpO(2) : nullptr); %s }' % (i, body))
    L.append('''#ifdef VP_MAIN
#include <vector>
static int vp_n[4]; static int vp_bad; static const void* vp_seen[3]; static int vp_early;
extern "C" { bool vp_guard(int, int, const void*, int, const void*, int, const void*, const void*, const void*) { return true; } void vp_action(int, int, const void*, int, const void*, int, const void*, const void*, const void*) {} void vp_handler(int, int, const void*, int, const void*, const void*, const void*) {} void* vp_create(int, int, const void*, int, const void*) { return nullptr; }
void vp_destroyed(int id, void* p) { vp_n[id]++; }
void vp_own(const void* p, const void* q, const void* r) { vp_seen[0] = p; vp_seen[1] = q; vp_seen[2] = r; for (int i = 0; i < 3; i++) vp_early += vp_seen[i] && vp_n[static_cast<const VpO*>(vp_seen[i])->id]; }
void vp_end() {} void vp_throw() { throw 1; } }
int main() { int bad = 0; for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) {''')
    for i, (n, body, post) in enumerate(OWN):
        L.append('  vp_n[1] = vp_n[2] = 0; vp_early = 0; try { vp_own_%d(x, y); } catch (...) {} if (vp_n[1] != x || vp_n[2] != y || vp_early) { bad = 1; std::printf("MISMATCH %s (%%d owned, %%d owned): destroyed %%d and %%d times\\n", x, y, vp_n[1], vp_n[2]); }' % (i, n))
    L.append('} return bad; }\n#endif')
    return '\n'.join(L) + '\n'

class Unit:
    def __init__(self, name, src, wd, ob):
        self.n = name; self.ob = ob
        self.ll = compile_ir(src, os.path.join(wd, 'unit_' + name))
        self.mod = Module(self.ll); self.ex = Exec(self.mod, ob); stdmodel.install(self.ex)
        self.env = EnvLog(self.ex)
    def call(self, fn, args, st=None):
        s = (st or State()).clone(); s.frames = []; s.trace = []; s.result = None
        ends = []
        self.ex.start(s, fn, args); self.ex.run(s, ends.append)
        return ends
    def ok(self, name, cls, good, info=None): self.ob.add(name, cls, bool(good), None if good else dict(info=str(info)[:1500]))

def same(ex, st, a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return (is_sym(a) or isinstance(a, int)) and (is_sym(b) or isinstance(b, int)) and ex.check(st, a == b) is True

def check_dsl(wd, ob):
    u = Unit('dsl', dsl_source(), wd, ob); ex = u.ex; C = ('C12',)
    g, a, h = z3.Int('g'), z3.Int('a'), z3.Int('h')
    for i, (n, x, s, e, hg, ha, t) in enumerate(dsl_forms()):
        es = u.call('vp_dslt_%d' % i, [])
        r = es[0].result[1] if len(es) == 1 else None
        for k, what in enumerate(['event', 'guard', 'action'] + (['source', 'target'] if s else [])):
            u.ok('%s: the %s is the one written' % (n, what), C, isinstance(r, int) and r >> k & 1, r)
        st = State(); og, oa = ex.alloc(st, 'og', 4, 'param'), ex.alloc(st, 'oa', 4, 'param')
        for q in (g, a): ex.assume(st, q >= 0); ex.assume(st, q < 1 << 31)
        es = u.call('vp_dsl_%d' % i, [g, a, og, oa], st)
        good = len(es) == 1 and es[0].result[0] == 'ret'
        if good:
            y = es[0]
            v1, v2 = ex.load(y, og, 4), ex.load(y, oa, 4)
            u.ok('%s: the guard object is the very one written' % n, C, same(ex, y, v1, g if hg else 0), v1)
            u.ok('%s: the action object is the very one written' % n, C, same(ex, y, v2, a if ha else 0), v2)
        else: u.ok('%s: has a transition' % n, C, False, es)
    st = State(); o = ex.alloc(st, 'o', 36, 'param')
    for q in (g, a, h): ex.assume(st, q >= 0); ex.assume(st, q < 1 << 31)
    es = u.call('vp_dsl_reuse', [g, a, h, o], st)
    w = [g, g, a, g, a, h, a, g, a]
    for j in range(9):
        u.ok('pieces used for several rows: value %d' % j, C, len(es) == 1 and same(ex, es[0], ex.load(es[0], o.add(4 * j), 4), w[j]))
    return u

def check_chain(wd, ob):
    u = Unit('chain', chain_source(), wd, ob); ex = u.ex; C = ('C16',)
    def base(n):
        st = State()
        ps = [ex.alloc(st, k, z, 'param') for k, z in (('e', 4), ('s', 1), ('t', 1), ('d', 4), ('f', 4))]
        st.mem['e'].cells[0] = (4, z3.Int('evval'))
        ids = [z3.Int('a%d' % i) for i in range(n)]
        for q in ids: ex.assume(st, q >= 0); ex.assume(st, q < 1 << 31)
        return st, ps, ids
    def check(name, es, want, ps, deps):
        full = 0; lens = set()
        for y in es:
            calls = [c for c in y.trace if c[0] == 'action']
            thrown = any(c[0] == 'throws' for c in y.trace)
            good = len(calls) <= len(want) and (len(calls) == len(want) if not thrown else True)
            u.ok('%s: each action is called exactly once, up to the first that throws' % name, C, good, y.trace)
            u.ok('%s: an exception reaches the caller' % name, C, (y.result[0] == 'throw') == thrown and (not thrown or y.result[1].type == 'VpThrow'), y.result)
            for k, c in enumerate(calls[:len(want)]):
                u.ok('%s: called in the order written, with its own value' % name, C, same(ex, y, c[1], want[k]), '%s: %s, written %s' % (k, c[1], want[k]))
                al = [c[3], c[5], c[7]] + ([c[8], c[9]] if deps else [])
                u.ok('%s: called with the same objects' % name, C, all(isinstance(p, Ptr) and p.obj == q.obj and p.off == 0 for p, q in zip(al, ps)), al)
            if thrown: lens.add(len(calls))
            else: full += 1
        u.ok('%s: every action may be reached and throw' % name, C, full == 1 and lens == set(range(1, len(want) + 1)), (full, lens))
    for n in CHAINS:
        for fn in ('chain_actions', 'chain'):
            st, ps, ids = base(n)
            check('%s of %d' % (fn, n), u.call('vp_%s_%d' % (fn, n), ps + ids, st), ids, ps, True)
            check('%s of %d, called twice' % (fn, n), u.call('vp_%s2_%d' % (fn, n), ps[:3] + ids, st), ids + ids, ps, False)
    def part(ex, st, n, a, i):
        st.trace = st.trace + [('part', a[0], a[1], a[2])]
        o = st.clone(); o.trace = o.trace + [('throws', 0)]
        return [(st, 'ret', None)] + ex.env_throws(o)
    ex.hooks['vp_part'] = part; ex.hookcache.clear()
    v, w = z3.Int('v'), z3.Int('w')
    for n in (1, 2, 3, 5):
        for fn in ('chain_actions', 'chain'):
            for k in (0, 1):
                st, ps, ids = base(n)
                for q in (v, w): ex.assume(st, q >= 0); ex.assume(st, q < 1 << 31)
                nm = '%s of %d with rvalues (%d)' % (fn, n, k); full = 0
                for y in u.call('vp_%srv%d_%d' % (fn, k, n), [v, w] + ids, st):
                    c = [c for c in y.trace if c[0] == 'part']; t = any(c[0] == 'throws' for c in y.trace)
                    u.ok(nm + ': each action is called exactly once, up to the first that throws', C, len(c) == n or t and 0 < len(c) <= n, y.trace)
                    u.ok(nm + ': an exception reaches the caller', C, (y.result[0] == 'throw') == t, y.result)
                    full += not t
                    for j, (_, i, p, q) in enumerate(c[:n]):
                        u.ok(nm + ': called in the order written, with its own value', C, same(ex, y, i, ids[j]), (j, i))
                        u.ok(nm + ': every action sees the arguments unchanged', C, same(ex, y, p, v) and same(ex, y, q, w), (j, p, q))
                u.ok(nm + ': completes', C, full == 1, full)
    st, ps, ids = base(4)
    check('nested', u.call('vp_nest', ps[:3] + ids, st), ids, ps, False)
    check('mixed', u.call('vp_mixed', ps[:3] + ids[:1], st), [501, ids[0], 502, 501], ps, False)
    return u

def check_own(wd, ob):
    u = Unit('own', own_source(), wd, ob); ex = u.ex; C = ('C15',)
    ex.hooks['vp_destroyed'] = lambda ex, st, n, a, i: [(setattr(st, 'trace', st.trace + [('destroyed', a[0], a[1].obj)]), (st, 'ret', None))[1]]
    ex.hooks['vp_own'] = lambda ex, st, n, a, i: [(setattr(st, 'trace', st.trace + [('own', a, [k for k, o in st.mem.items() if o.kind == 'heap' and not o.alive])]), (st, 'ret', None))[1]]
    ex.hooks['vp_end'] = lambda ex, st, n, a, i: None
    ex.hooks['vp_throw'] = lambda ex, st, n, a, i: ex.env_throws(st)
    ex.hookcache.clear()
    for i, (n, body, post) in enumerate(OWN):
        for x in (0, 1):
            for y in (0, 1):
                nm = '%s (%s, %s)' % (n, 'owns' if x else 'empty', 'owns' if y else 'empty')
                es = u.call('vp_own_%d' % i, [x, y])
                u.ok(nm + ': one outcome', C, len(es) == 1, len(es))
                if len(es) != 1: continue
                z = es[0]
                d = [c[1] for c in z.trace if c[0] == 'destroyed']
                u.ok(nm + ': every object is destroyed exactly once', C, sorted(d) == [1] * x + [2] * y, d)
                live = [k for k, o in z.mem.items() if o.kind == 'heap' and o.alive]
                u.ok(nm + ': nothing leaks', C, not live, live)
                o = [c for c in z.trace if c[0] == 'own']
                if o and post:
                    d0 = [c[1] for c in z.trace[:z.trace.index(o[0])] if c[0] == 'destroyed']
                    heap = {}
                    for p in o[0][1]:
                        if p.obj is not None: heap[p.obj] = 1
                    objs = {c[2]: c[1] for c in z.trace if c[0] == 'destroyed'}
                    got = tuple(objs.get(p.obj, 0) if p.obj is not None else 0 for p in o[0][1])
                    want = post(1 if x else 0, 2 if y else 0)
                    u.ok(nm + ': who owns what', C, got == want, '%s, expected %s' % (got, want))
                    u.ok(nm + ': what is owned is alive', C, not (set(d0) & set(got)), (d0, got))
    return u

UNITS = {'dsl': (check_dsl, dsl_source, 'C12'), 'chain': (check_chain, chain_source, 'C16'), 'own': (check_own, own_source, 'C15')}

def run_main(name, wd):
    """the same functions, executed: exit code and mismatches"""
    src = os.path.join(wd, 'main_%s.cpp' % name); exe = os.path.join(wd, 'main_' + name)
    open(src, 'w').write(UNITS[name][1]())
    import replay
    r = subprocess.run(replay.CXX + ['-DVP_MAIN', src, '-o', exe], capture_output=True, text=True)
    if r.returncode: return 'build', r.stderr[:3000]
    try: r = subprocess.run([exe], capture_output=True, text=True, timeout=60, errors='replace', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=1'))
    except subprocess.TimeoutExpired: return 'timeout', ''
    return r.returncode, r.stdout + r.stderr
