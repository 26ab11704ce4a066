"""The translation unit whose IR is verified: a machine of the family over the headers of /repo, with
one entry point per public operation and probes that tell where the members are."""
import re
from replay import REPO
from family import children_of, states_of, events_of
from gen_cpp import header, pairs, stag, etag

ROB = '''
template <class Tag, auto M> struct VpRob { friend constexpr auto vp_rob(Tag) { return M; } };
#define VP_ROB(tag, member) struct tag { friend constexpr auto vp_rob(tag); }; template struct VpRob<tag, &SM::member>; \\
extern "C" void* vp_addr_##tag(SM& s) { return &(s.*vp_rob(tag {})); }
VP_ROB(cur, m_currentCombinedState)
VP_ROB(ini, m_initial_states)
VP_ROB(his, m_history)
VP_ROB(que, m_defer_queue)
VP_ROB(reg, m_currentRegions)
VP_ROB(tab, m_dispatchTables)
VP_ROB(han, m_unexpectedEventHandlerTables)
VP_ROB(stm, m_statesMap)
// the representation the contracts of lock step are written for
template <class T> struct VpIdxArray { static constexpr bool value = false; };
template <class T, std::size_t N> struct VpIdxArray<std::array<T, N>> { static constexpr bool value = std::is_unsigned_v<T> && sizeof(T) == 8; };
template <class T> struct VpVecArray { static constexpr bool value = false; };
template <std::size_t N> struct VpVecArray<std::array<std::vector<std::size_t>, N>> { static constexpr bool value = true; };
template <class T> T VpMemberOf(T SM::*);
template <class T> using VpType = decltype(VpMemberOf(vp_rob(T {})));
extern "C" bool vp_repr() {
    return VpIdxArray<VpType<cur>>::value && VpVecArray<VpType<ini>>::value && VpVecArray<VpType<his>>::value
        && std::is_unsigned_v<VpType<reg>> && sizeof(VpType<reg>) == 8;
}
'''

MEMBERS = [('cur', 'm_currentCombinedState', r'std::array<\s*StateIdx\s*,'), ('ini', 'm_initial_states', r'std::array<\s*std::vector<'), ('his', 'm_history', r'std::array<\s*std::vector<'),
           ('que', 'm_defer_queue', r'variant_queue<'), ('reg', 'm_currentRegions', r'std::size_t\b'), ('tab', 'm_dispatchTables', r'DispatchTables\b'),
           ('han', 'm_unexpectedEventHandlerTables', r'UnexpectedEventHandlerTables\b'), ('stm', 'm_statesMap', r'StatesMap\b')]
def rob(repo):
    """the probes, with the members found by their declared type where they have been renamed"""
    txt = ROB
    try: src = open(repo + '/include/hsm/details/sm.h').read()
    except OSError: return txt
    decl = re.findall(r'^    (?!using|static|return|friend|typedef)([A-Za-z_][\w:<>, ()]*?[\w>])\s+(\w+)\s*(?:\{[^;{}]*\})?;', src, re.M)
    names = {n for t, n in decl}; known = {n for k, n, t in MEMBERS}
    for k, n, ty in MEMBERS:
        if n in names: continue
        c = [x for t, x in decl if re.match(ty, t) and x not in known]
        if k in ('ini', 'his') and len(c) > 1: c = [x for x in c if ('hist' in x.lower()) == (k == 'his')]
        if len(c) == 1: txt = txt.replace('VP_ROB(%s, %s)' % (k, n), 'VP_ROB(%s, %s)' % (k, c[0]))
    return txt

def has_anon(m): return any(not r[1] for p in m['tables'] for r in m['tables'][p])

def allpairs(m):
    if m.get('own'): return [(p, s) for p in m['tables'] for s in children_of(m, p)]
    return [(p, s) for p in m['tables'] for s in states_of(m)]

def source(m, queries=True, layout=True, sets='all', rvalue=False):
    L = ['#include <cstddef>\n#include <memory>\n#include <type_traits>', header(m)]
    if m.get('evown'):
        L[1] = 'extern "C" void vp_evdead(void*) noexcept;\n' + header(m, 'struct %s { int v; %s(int x) : v(x) {} %s(const %s& o) : v(o.v) {} %s& operator=(const %s& o) { v = o.v; return *this; } ~%s() { vp_evdead(&v); } };')
    nd = m['ndeps']
    ps = ''.join(', %s& d%d' % (d, i) for i, d in enumerate(['DepA', 'DepB'][:nd]))
    av = ', '.join('d%d' % i for i in range(nd))
    ev = events_of(m)
    for i, e in enumerate(ev):
        L.append('extern "C" bool vp_pe%d(SM& sm, %s& ev) { return sm.process_event(ev); }' % (i, e))
        if rvalue:
            L.append('extern "C" bool vp_per%d(SM& sm, %s& ev) { return sm.process_event(static_cast<%s&&>(ev)); }' % (i, e, e))
    L.append('extern "C" void vp_ctor(void* p%s) { new (p) SM(%s); }' % (ps, av))
    L.append('extern "C" void vp_dtor(SM& sm) { sm.~SM(); }')
    L.append('extern "C" void vp_setdep(SM& sm%s) { sm.set_dependency(%s); }' % (ps, av))
    L.append('extern "C" std::size_t vp_sizeof() { return sizeof(SM); }')
    P = allpairs(m)
    for i, (p, s) in enumerate(P):
        if sets == 'all' or i in sets:
            L.append('extern "C" void vp_set3_%d(SM& sm, std::uint8_t r) { sm.set(r, hsm::state<%s>, hsm::state<%s>); }' % (i, p, s))
        if queries:
            L.append('extern "C" void vp_set2_%d(SM& sm) { sm.set(hsm::state<%s>, hsm::state<%s>); }' % (i, p, s))
            L.append('extern "C" bool vp_is3_%d(SM& sm, std::uint8_t r) { return sm.is(r, hsm::state<%s>, hsm::state<%s>); }' % (i, p, s))
            L.append('extern "C" bool vp_is2_%d(SM& sm) { return sm.is(hsm::state<%s>, hsm::state<%s>); }' % (i, p, s))
    if queries:
        for i, s in enumerate(states_of(m)):
            L.append('extern "C" void vp_set1_%d(SM& sm) { sm.set(hsm::state<%s>); }' % (i, s))
            L.append('extern "C" bool vp_is1_%d(SM& sm) { return sm.is(hsm::state<%s>); }' % (i, s))
        for i, p in enumerate(m['tables']):
            L.append('extern "C" bool vp_parent_%d(SM& sm) { return sm.parent_is(hsm::state<%s>); }' % (i, p))
    if layout:
        L.append(rob(REPO))
        for i, e in enumerate(ev + (['hsm::noneEvent'] if has_anon(m) else [])):
            L.append('extern "C" void* vp_tab%d(SM& s) { return &(s.*vp_rob(tab {}))[boost::hana::type_c<%s>]; }' % (i, e))
            L.append('extern "C" std::size_t vp_tabn%d(SM& s) { return (s.*vp_rob(tab {}))[boost::hana::type_c<%s>].size(); }' % (i, e))
            L.append('extern "C" std::size_t vp_tabs%d(SM& s) { return sizeof((s.*vp_rob(tab {}))[boost::hana::type_c<%s>][0]); }' % (i, e))
            L.append('extern "C" std::size_t vp_tcn%d(SM& s, std::size_t c) { return (s.*vp_rob(tab {}))[boost::hana::type_c<%s>][c].size(); }' % (i, e))
            L.append('extern "C" void* vp_tce%d(SM& s, std::size_t c, std::size_t j) { auto b = (s.*vp_rob(tab {}))[boost::hana::type_c<%s>][c].begin(); for (; j; --j) ++b; return &*b; }' % (i, e))
            if m['handler']:
                L.append('extern "C" void* vp_han%d(SM& s) { return &(s.*vp_rob(han {}))[boost::hana::type_c<%s>]; }' % (i, e))
                L.append('extern "C" std::size_t vp_hans%d(SM& s) { return sizeof((s.*vp_rob(han {}))[boost::hana::type_c<%s>][0]); }' % (i, e))
                L.append('extern "C" void* vp_hane%d(SM& s, std::size_t c) { return std::to_address((s.*vp_rob(han {}))[boost::hana::type_c<%s>][c]); }' % (i, e))
            L.append('using NS%d = hsm::NextState<%s>;' % (i, e))
            for f in ('combinedState', 'history', 'defer', 'internal'):
                L.append('extern "C" std::size_t vp_ns%d_%s(NS%d& n) { return static_cast<std::size_t>(n.%s); }' % (i, f, i, f))
            L.append('extern "C" void* vp_ns%d_transition(NS%d& n) { return std::to_address(n.transition); }' % (i, i))
        L.append('extern "C" std::size_t vp_maxreg(SM& s) { return (s.*vp_rob(cur {})).size(); }')
        L.append('extern "C" std::size_t vp_nparents(SM& s) { return (s.*vp_rob(ini {})).size(); }')
    return '\n'.join(L) + '\n'
