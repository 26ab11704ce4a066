"""Render a machine description as C++ over the real headers of /repo."""
from family import children_of, states_of, events_of, nregions

def stag(m):
    return {s: 100 + i for i, s in enumerate(states_of(m))}

def etag(m):
    d = {e: 10 + i for i, e in enumerate(events_of(m))}
    d[''] = 1
    return d

def gid(m, p, i): return (1 + list(m['tables']).index(p)) * 1000 + i * 10
def igid(m, p, i): return 20000 + (1 + sorted(m['internal']).index(p)) * 1000 + i * 10
def entry_id(m, s): return 40000 + stag(m)[s]
def exit_id(m, s): return 50000 + stag(m)[s]
HANDLER_ID = 60000

def st(x):
    init = x.startswith('*')
    x = x.lstrip('*')
    if ':' in x:
        k, *r = x.split(':')
        if k == 'hist': return 'hsm::history<%s>' % r[0]
        return 'hsm::%s<%s, %s>' % (k, r[0], r[1])
    return ('* ' if init else '') + 'hsm::state<%s>' % x

def guard_src(k, g): return {'g': 'VpG<%d>{}' % g, 'v': 'VpGV{%d}' % g}[k]

def action_src(m, k, a, tgt):
    if k == 'a': return 'VpA<%d>{}' % a
    if k == 'v': return 'VpAV{%d}' % a
    if k[0] == 'c':
        n = int(k[1:])
        return 'hsm::chain_actions(%s)' % ', '.join(('VpA<%d>{}' if i % 2 else 'VpAV{%d}') % (a + i) for i in range(n))
    if k == 'new': return 'hsm::create_state(VpF<%d, %s>{})' % (a, tgt)
    if k == 'reuse': return 'hsm::reuse_state(VpR<%d>{})' % a
    raise KeyError(k)

def row_src(m, p, i, r):
    src, ev, g, a, tgt = r
    base = gid(m, p, i)
    if m['dsl'] == 'prefix':
        s = st(src)
        if ev:
            s += ' + hsm::event<%s>' % ev
            if g: s += ' [%s]' % guard_src(g, base)
            if a: s += ' / ' + action_src(m, a, base, tgt)
        else:
            assert not g and not a
        return '%s <= %s' % (st(tgt), s)
    s = st(src)
    if not ev and s[0] == '*': s = '(%s)' % s
    if ev: s += ' + hsm::event<%s>' % ev
    if g: s += ' [%s]' % guard_src(g, base)
    if a: s += ' / ' + action_src(m, a, base, tgt)
    return s + ' = ' + st(tgt)

def irow_src(m, p, i, r):
    ev, g, a = r
    base = igid(m, p, i)
    s = 'hsm::event<%s>' % ev
    if g: s += ' [%s]' % guard_src(g, base)
    if a: s += ' / ' + action_src(m, a, base, '')
    return '+ (%s)' % s

def decls(m, event='struct %s { int v; };'):
    L = []
    S, E = stag(m), etag(m)
    for e in events_of(m): L.append(event.replace('%s', e))
    subs = set(m['tables'])
    sts = states_of(m)
    for s in sts: L.append('struct %s;' % s)
    for s in sts: L.append('template <> struct Tag<%s> { static constexpr int value = %d; };' % (s, S[s]))
    for e in events_of(m): L.append('template <> struct Tag<%s> { static constexpr int value = %d; };' % (e, E[e]))
    def body(s):
        B = []
        if s in m['nodefault']: B.append('%s(int v) : v(v) {} ' % s)
        B.append('int v%s;' % ('' if s in m['nodefault'] else ' = 0'))
        if s in m['entry']: B.append('static constexpr auto on_entry() { return VpA<%d>{}; }' % entry_id(m, s))
        if s in m['exit']: B.append('static constexpr auto on_exit() { return VpA<%d>{}; }' % exit_id(m, s))
        if s in m['defer']: B.append('static constexpr auto defer_events() { return hsm::events<%s>; }' % ', '.join(m['defer'][s]))
        if s in m['internal']:
            B.append('static constexpr auto make_internal_transition_table() { return hsm::transition_table(\n        %s); }'
                     % ',\n        '.join(irow_src(m, s, i, r) for i, r in enumerate(m['internal'][s])))
        if s in subs:
            B.append('static constexpr auto make_transition_table() { return hsm::transition_table(\n        %s); }'
                     % ',\n        '.join(row_src(m, s, i, r) for i, r in enumerate(m['tables'][s])))
        if s == m['root'] and m['handler']:
            B.append('static constexpr auto on_unexpected_event() { return VpH<%d>{}; }' % HANDLER_ID)
        return '\n    '.join(B)
    # sub machines last, the deepest first, the root at the end
    order = [s for s in sts if s not in subs] + [s for s in reversed(list(m['tables']))]
    for s in order: L.append('struct %s {\n    %s\n};' % (s, body(s)))
    deps = ['DepA', 'DepB'][:m['ndeps']]
    L.append('using SM = hsm::sm<%s>;' % ', '.join(['M'] + deps))
    return '\n'.join(L)

def header(m, *a):
    return '#include "vp_prelude.h"\nnamespace mm_%s {\n}\n%s\n' % (m['name'], decls(m, *a))

def pairs(m):
    """(parent, state) pairs that may be observed or set: parents own a table, states any state"""
    par = list(m['tables'])
    if m.get('own'): return [(p, s) for p in par for s in children_of(m, p) if s not in m['tables']]
    return [(p, s) for p in par for s in states_of(m) if s not in m['tables']]

def driver(m):
    """replay driver: reads a script, drives the real machine, prints what is observable"""
    ev = events_of(m)
    nd = m['ndeps']
    decl = ''.join(', %s[k]' % d for d in ['depA', 'depB'][:nd])
    L = ['#include "vp_event.h"\n' + header(m, 'struct %s : VpEv { using VpEv::VpEv; };'), '#define VP_NDEPS %d' % nd, '#include "vp_driver.h"']
    L.append('static bool vp_event(SM& sm, int e, int v) { switch (e) {')
    for i, e in enumerate(ev): L.append('  case %d: return sm.process_event(%s(v));' % (i, e))
    L.append('  } abort(); }')
    P = pairs(m)
    L.append('static bool vp_is(SM& sm, int r, int i) { switch (i) {')
    for i, (p, s) in enumerate(P): L.append('  case %d: return sm.is(r, hsm::state<%s>, hsm::state<%s>);' % (i, p, s))
    L.append('  } abort(); }')
    L.append('static bool vp_is2(SM& sm, int i) { switch (i) {')
    for i, (p, s) in enumerate(P): L.append('  case %d: return sm.is(hsm::state<%s>, hsm::state<%s>);' % (i, p, s))
    L.append('  } abort(); }')
    sts = [s for s in states_of(m) if s not in m['tables']]
    L.append('static bool vp_is1(SM& sm, int i) { switch (i) {')
    for i, s in enumerate(sts): L.append('  case %d: return sm.is(hsm::state<%s>);' % (i, s))
    L.append('  } abort(); }')
    L.append('static bool vp_parent(SM& sm, int i) { switch (i) {')
    for i, p in enumerate(m['tables']): L.append('  case %d: return sm.parent_is(hsm::state<%s>);' % (i, p))
    L.append('  } abort(); }')
    L.append('static void vp_set(SM& sm, int r, int i) { switch (i) {')
    for i, (p, s) in enumerate(P):
        L.append('  case %d: if (r) sm.set(r, hsm::state<%s>, hsm::state<%s>); else sm.set(hsm::state<%s>, hsm::state<%s>); return;' % (i, p, s, p, s))
    L.append('  } abort(); }')
    L.append('static void vp_set1(SM& sm, int i) { switch (i) {')
    for i, s in enumerate(sts): L.append('  case %d: sm.set(hsm::state<%s>); return;' % (i, s))
    L.append('  } abort(); }')
    L.append('static const int vp_npairs = %d, vp_nparents = %d, vp_nstates = %d;' % (len(P), len(m['tables']), len(sts)))
    args = ', '.join(['vp_depA[k]', 'vp_depB[k]'][:nd])
    L.append('static SM* vp_new(int k) { (void)k; return new SM(%s); }' % args)
    L.append('static void vp_setdep(SM& sm, int k) { (void)k; sm.set_dependency(%s); }' % args)
    nds = m['nodefault']
    L.append('extern "C" void* vp_make_state(int id) { switch (id) {')
    for p in m['tables']:
        for i, r in enumerate(m['tables'][p]):
            if r[3] == 'new': L.append('  case %d: return new %s(id);' % (gid(m, p, i), r[4]))
    L.append('  } abort(); }')
    # for targets that are not default constructible the harness is handed the owning pointer
    L.append('static const void* vp_deref(int tag, const void* p) { switch (tag) {')
    for s in nds:
        L.append('  case %d: return static_cast<const std::shared_ptr<std::unique_ptr<%s>>*>(p)->get()->get();' % (1000 + stag(m)[s], s))
    L.append('  } return p; }')
    L.append('static bool vp_dynamic(int tag) { switch (tag) {')
    for s in nds: L.append('  case %d: case %d: return true;' % (stag(m)[s], 1000 + stag(m)[s]))
    L.append('  } return false; }')
    L.append('#include "vp_main.h"')
    return '\n'.join(L)
