"""Machine descriptions: the input language of everything in /verif.

A machine is a plain dict.  It is rendered to C++ (gen_cpp) for the verifier and for the replay
harness, and interpreted by refsem, which knows nothing about the library's implementation.

rows: (source, event|'' , guard, action, target)
  source/target strings: "A"  "*A" (initial)  "exit:Sub:X"  "direct:Sub:X"  "entry:Sub:X"  "hist:Sub"
  guard : '' | 'g' (own type) | 'v' (shared type, identity is data)
  action: '' | 'a' | 'v' | 'cN' chain of N actions | 'new' create_state | 'reuse' reuse_state
internal rows: (event, guard, action)
"""
import random

def M(name, tables, internal=None, entry=(), exit=(), defer=None, handler=False, ndeps=0,
      nodefault=(), regions=None, tags=(), dsl='postfix', evown=False, own=False):
    return dict(name=name, root='M', tables=tables, internal=internal or {}, entry=list(entry),
                exit=list(exit), defer=defer or {}, handler=handler, ndeps=ndeps,
                nodefault=list(nodefault), tags=list(tags), dsl=dsl, evown=evown, own=own)

def states_of(m):
    """all plain state names and sub machine names in deterministic order"""
    out = []
    def add(x):
        if x not in out: out.append(x)
    for p in m['tables']:
        add(p)
        for r in m['tables'][p]:
            for s in (r[0], r[4]):
                for part in s.lstrip('*').split(':')[1 if ':' in s else 0:]:
                    add(part)
    return out

def children_of(m, p):
    """plain and sub machine states mentioned in the table of p"""
    return [s for s in states_of(dict(tables={p: m['tables'][p]})) if s != p]

def events_of(m):
    out = []
    for p in m['tables']:
        for r in m['tables'][p]:
            if r[1] and r[1] not in out: out.append(r[1])
    for p in m['internal']:
        for r in m['internal'][p]:
            if r[0] not in out: out.append(r[0])
    return out

def nregions(m, p):
    seen = []
    for r in m['tables'][p]:
        if r[0].startswith('*') and r[0] not in seen: seen.append(r[0])
    return len(seen)

FAMILY = []
def add(*a, **k): FAMILY.append(M(*a, **k))

# --- engine shapes -------------------------------------------------------------------------
add('plain', {'M': [('*A','e1','g','a','B'), ('B','e1','g','a','A'), ('A','e1','v','v','C'),
                    ('A','e2','','a','A'), ('C','e2','g','','A'), ('B','e2','','','C'), ('A','e1','v','v','B')]},
    entry=['B','C'], exit=['A','C'], ndeps=1)
add('handler', {'M': [('*A','e1','g','a','B'), ('B','e2','g','a','Sub'), ('Sub','e3','g','a','A')],
                'Sub': [('*X','e1','g','a','Y'), ('Y','e1','','a','X')]}, handler=True, ndeps=2,
    entry=['Sub','X'], exit=['Sub','Y'])
add('anon', {'M': [('*A','e1','g','a','B'), ('B','','g','a','C'), ('C','','g','a','A'), ('C','','v','v','B'),
                   ('A','e2','','','C'), ('B','e2','v','','B')]})
add('par', {'M': [('*A','e1','g','a','B'), ('B','e1','g','a','A'), ('B','e2','','a','A'),
                  ('*C','e1','g','a','D'), ('D','e1','g','a','C'), ('C','e2','g','a','D'), ('D','e3','g','a','D')]}, handler=True)
add('paranon', {'M': [('*A','e1','g','a','B'), ('B','','g','a','A'), ('A','','v','v','B'),
                      ('*C','e1','g','a','D'), ('D','','g','a','C'), ('C','','v','v','D'), ('D','','v','v','D'),
                      ('A','e2','g','a','A'), ('C','e2','g','a','C')]})
add('defer', {'M': [('*A','e1','','a','B'), ('B','e2','g','a','C'), ('B','e3','g','a','A'),
                    ('C','e2','g','a','A'), ('C','e1','','a','B'), ('A','e4','','a','A'), ('B','e4','g','','C')]},
    defer={'A': ['e2','e3'], 'C': ['e3']}, handler=True)
add('hist', {'M': [('*A','e1','','a','Sub'), ('A','e2','','a','hist:Sub'), ('Sub','e3','g','a','A'),
                   ('Sub','e2','','v','hist:Sub'), ('A','e3','','v','hist:Sub2'), ('Sub2','e1','','a','A'),
                   ('Sub','e4','g','a','Sub2')],
             'Sub': [('*X','e1','g','a','Y'), ('Y','e1','','a','Z'), ('Z','e1','','','X')],
             'Sub2': [('*X','e2','','a','Y'), ('Y','e2','','','Z')]}, handler=True)
add('full', {'M': [('*A','e1','g','a','Sub'), ('A','e2','','a','hist:Sub'), ('Sub','e3','g','a','B'),
                   ('B','','g','a','A'), ('B','e1','v','v','hist:Sub'), ('A','e4','g','a','B'),
                   ('*P','e1','g','a','Q'), ('Q','','v','v','P'), ('Q','e2','g','a','R'), ('R','e1','','a','P'), ('R','e3','','','P')],
             'Sub': [('*X','e1','g','a','Y'), ('Y','e2','','a','X'), ('Y','','g','a','Z'), ('Z','e4','','a','X'),
                     ('*U','e1','g','a','V'), ('V','e4','','','U')]},
    defer={'X': ['e4']}, handler=True, ndeps=1)
add('subpar', {'M': [('*A','e1','','a','Sub'), ('Sub','e2','g','a','A'), ('A','e2','','a','B'), ('B','e1','','a','Sub3'), ('Sub3','e3','','','A')],
               'Sub': [('*X','e1','g','a','Y'), ('Y','e3','g','a','X'), ('*U','e1','g','a','V'), ('V','e3','','a','U')],
               'Sub3': [('*X','e1','','a','Y'), ('*U','e1','','a','V'), ('*W','e1','','a','V'), ('Y','e1','','a','X'), ('V','e1','g','a','U')]})
# --- table construction shapes -------------------------------------------------------------
add('pseudo', {'M': [('*A','e1','g','a','entry:Sub:Y'), ('A','e2','v','v','direct:Sub:Z'), ('exit:Sub:O','e1','g','a','B'),
                     ('exit:Sub:O','e2','','v','A'), ('direct:Sub:Y','e3','g','a','direct:Sub2:V'), ('B','e1','','','Sub2'),
                     ('Sub2','e3','','a','B'), ('B','e2','','a','A'), ('A','e3','g','','Sub')],
               'Sub': [('*X','e1','','a','Y'), ('Y','e1','g','a','Z'), ('Z','e2','','a','O'), ('X','e4','v','v','O')],
               'Sub2': [('*U','e1','','','V'), ('V','e1','','','U')]}, exit=['Sub','Sub2','O'], entry=['Sub','Sub2','U','B'], handler=True)
add('nested', {'M': [('*A','e1','','a','Sub'), ('Sub','e2','g','a','A'), ('Sub','e4','','a','A')],
               'Sub': [('*X','e1','','a','Deep'), ('Deep','e2','g','a','X'), ('Deep','e3','','a','Y'), ('Y','e3','','v','Deep'), ('Y','e1','','v','X')],
               'Deep': [('*I','e1','g','a','J'), ('J','e1','v','v','I'), ('J','e2','v','v','I')]},
    entry=['Sub','Deep','X','I'], exit=['Sub','Deep','X','J'])
add('internal', {'M': [('*A','e1','g','a','Sub'), ('Sub','e3','','a','A'), ('A','e2','','v','B'), ('B','e3','','v','A')],
                 'Sub': [('*X','e1','g','a','Y'), ('Y','e2','g','a','X'), ('Y','e1','','a','Z'), ('Z','e2','','','X')]},
    internal={'M': [('e5','g','a'), ('e2','g','a')], 'Sub': [('e2','g','a'), ('e4','','a')], 'B': [('e1','g','a'), ('e5','g','a')], 'Y': [('e5','g','a')]},
    entry=['X','B','Sub'], exit=['Y','B','A'], handler=True)
add('chain', {'M': [('*A','e1','g','c2','B'), ('B','e1','','c3','C'), ('C','e1','v','c1','A'), ('C','e2','','c2','C')]},
    entry=['B','A'], exit=['B','A'], ndeps=2)
add('data', {'M': [('*A','e1','','new','N'), ('A','e2','','reuse','N'), ('N','e1','g','a','A'), ('N','e2','','v','B'),
                   ('B','e1','','a','A'), ('B','e2','','reuse','N'), ('A','e3','','','N')]}, nodefault=['N'], handler=True)
add('prefix', {'M': [('*A','e1','g','a','B'), ('B','e1','g','','C'), ('C','e1','','a','A'), ('A','e2','','','C'),
                     ('C','e2','v','v','hist:Sub'), ('B','e2','','','Sub'), ('Sub','e3','','v','A')],
               'Sub': [('*X','e1','g','a','Y'), ('Y','','','','X')]}, dsl='prefix')
add('anonforms', {'M': [('*A','e1','','','B'), ('B','','','','C'), ('C','','g','','D'), ('D','','','a','E'), ('E','','g','a','A'),
                        ('E','e1','','a','A'), ('D','e1','','a','A'), ('C','e1','','a','A')]})
add('deferpar', {'M': [('*A','e1','','a','B'), ('B','e2','g','a','A'), ('*P','e3','g','a','Q'), ('Q','e1','','a','P'), ('P','e2','','a','Q')]},
    defer={'A': ['e2'], 'Q': ['e2','e3']})
add('histanon', {'M': [('*A','e1','','a','Sub'), ('A','e2','','a','hist:Sub'), ('exit:Sub:O','','','a','A'), ('Sub','e3','','a','B'), ('B','','','a','hist:Sub')],
                 'Sub': [('*X','e1','g','a','Y'), ('Y','e1','','a','O'), ('Y','','g','a','Z'), ('Z','e2','','a','X')]}, exit=['Sub','Z'], entry=['Y'])
add('deferanon', {'M': [('*A','e1','','a','B'), ('B','','g','a','C'), ('C','e2','g','a','B'), ('B','e2','','a','A'), ('C','e3','','a','A'), ('A','e4','','','A')]},
    defer={'A': ['e2'], 'B': ['e3']}, ndeps=1)

# sub states without initial state, entered at one of their states only
add('noinit', {'M': [('*A','e1','','a','direct:Sub:X'), ('A','e2','g','a','entry:Sub:Y'), ('Sub','e3','g','a','A'), ('exit:Sub:Y','e2','','a','A'), ('A','e4','','v','hist:Sub2'), ('Sub2','e3','','a','A')],
               'Sub': [('X','e1','g','a','Y'), ('Y','e1','','a','X')], 'Sub2': [('*X','e1','','a','Y'), ('Y','e1','','v','X')]}, entry=['X','Y'], exit=['Sub','Y'], handler=True)
add('noinitpar', {'M': [('*A','e1','','a','direct:Sub:X'), ('A','e2','g','a','entry:Sub:Y'), ('Sub','e3','g','a','A'), ('*P','e1','g','a','Q'), ('Q','e2','','a','P')],
                  'Sub': [('X','e1','g','a','Y'), ('Y','e1','','a','X'), ('Y','','g','v','X')]}, handler=True)

# the same state names in several parents and regions
add('samenames', {'M': [('*A','e1','','a','Sub'), ('A','e2','g','a','X'), ('Sub','e2','','a','A'), ('*X','e1','g','a','A'), ('X','e3','','a','Y'), ('Y','e1','','a','X'), ('Y','e3','','v','hist:Sub')],
                  'Sub': [('*A','e1','g','a','Y'), ('Y','e3','','a','A'), ('*X','e1','','a','Y'), ('X','e3','','a','A')]})

# regions that become active or inactive while anonymous transitions run
add('anonsub', {'M': [('*A','e1','','a','B'), ('B','','','v','Sub'), ('Sub','e2','g','a','C'), ('C','','','v','A')],
                'Sub': [('*X','','','','Y'), ('Y','e1','g','a','X'), ('*U','','g','a','V'), ('V','e1','','a','U'), ('V','','v','v','W')]}, exit=['Sub'])

# states mentioned before they are marked initial, and regions in another order than their states
add('lateinit', {'M': [('C','e1','g','a','A'), ('*B','e1','g','a','C'), ('A','e2','','a','Sub'), ('*A','e1','g','v','C'), ('Sub','e3','','a','A'), ('B','e2','','v','C'), ('C','e2','','a','A')],
                 'Sub': [('Z','e1','','a','Y'), ('Y','e1','g','a','X'), ('*X','e1','','a','Z'), ('X','e2','g','v','Y'), ('*Y','e2','','a','Z')]}, entry=['X','Sub'], exit=['B'])
# exit points: the only action is the exit action of the machine that is left
add('exitpoint', {'M': [('*A','e1','','','Sub'), ('exit:Sub:O','e1','','','A'), ('exit:Sub:Y','e2','g','','A'), ('exit:Sub2:O','e1','','','A'), ('A','e2','','','Sub2'), ('Sub2','e3','','','A')],
                  'Sub': [('*X','e1','','','O'), ('X','e2','','','Y')], 'Sub2': [('*X','e1','','','O')]}, exit=['Sub'], entry=['Sub2'])
# events that notice the end of their lifetime
add('evown', {'M': [('*A','e1','','a','B'), ('B','e2','g','a','A'), ('B','e3','g','a','C'), ('C','e2','g','a','B'), ('C','e1','','a','A')]},
    defer={'A': ['e2','e3']}, handler=True, evown=True)
# states without rows of their own that defer
add('deadend', {'M': [('*A','e1','g','a','B'), ('*P','e1','g','a','Q'), ('Q','e3','g','a','P'), ('Q','e2','','a','P'), ('A','e3','','a','Sub'), ('Sub','e4','g','a','A'), ('A','e2','','a','entry:Sub:Z'), ('exit:Sub:Z','e2','','a','B')],
                'Sub': [('*X','e1','','a','Y'), ('X','e3','','','Z'), ('*U','e1','','a','V'), ('V','e2','g','a','V')]},
    defer={'B': ['e2'], 'Y': ['e2','e3'], 'Z': ['e2'], 'U': ['e2']}, handler=True)
# three regions
add('par3', {'M': [('*A','e1','g','a','B'), ('B','e1','','a','A'), ('*C','e1','g','a','D'), ('D','e2','g','a','C'), ('*P','e1','g','a','Q'), ('P','e2','','a','Q'), ('Q','e3','g','a','P'), ('Q','e2','g','v','Q')]},
    defer={'P': ['e3'], 'D': ['e3']}, handler=True, ndeps=1)
add('anon3', {'M': [('*A','e1','g','a','B'), ('B','','g','a','A'), ('A','','v','v','A'), ('*C','e1','','a','D'), ('D','','g','a','C'), ('C','','v','v','C'),
                    ('*P','e1','g','a','Q'), ('Q','','g','a','P'), ('P','','v','v','P')]})
# more configurations than a byte can number
_n = 9
add('big', dict([('M', [('*A','e1','','a','S0')] + [('S%d' % i,'e2','g' if i % 3 else '','a','S%d' % ((i + 1) % _n)) for i in range(_n)])] +
                [('S%d' % i, [('*X%d' % i,'e1','','a','Y%d' % i), ('Y%d' % i,'e1','g','a','X%d' % i)]) for i in range(_n)]), own=True)
# interactions of two and more of the features
add('histint', {'M': [('*A','e1','','a','Sub'), ('A','e2','','a','hist:Sub'), ('Sub','e3','g','a','A'), ('*P','e3','g','a','Q'), ('Q','e4','','a','P')],
                'Sub': [('*X','e1','g','a','Y'), ('Y','e1','','a','Z'), ('Z','e4','','a','X'), ('*U','e1','g','a','V'), ('V','e2','g','a','U')]},
    internal={'Sub': [('e4','g','a')], 'Y': [('e2','g','a'), ('e5','','a')], 'M': [('e5','g','a')]}, entry=['Y'], exit=['Sub'])
add('deferint', {'M': [('*A','e1','','a','B'), ('B','e1','g','a','Sub'), ('Sub','e3','','a','A'), ('B','e2','g','a','A')],
                 'Sub': [('*X','e1','','a','Y'), ('Y','e2','g','a','X'), ('Y','e4','','a','Y')]},
    internal={'M': [('e4','g','a')], 'Sub': [('e4','g','v')], 'B': [('e5','','a')]}, defer={'A': ['e2','e5'], 'X': ['e2','e4']}, ndeps=1, handler=True)
add('nesthist', {'M': [('*A','e1','','a','Sub'), ('A','e2','','a','hist:Sub'), ('A','e3','','v','hist:Deep'), ('Sub','e3','g','a','A'), ('Deep','e4','','a','A'), ('A','e4','','a','entry:Deep:J')],
                 'Sub': [('*X','e1','','a','Deep'), ('X','e2','','a','hist:Deep'), ('Deep','e2','g','a','X'), ('exit:Deep:J','e3','','a','Y'), ('Y','e1','','v','X')],
                 'Deep': [('*I','e1','g','a','J'), ('J','e1','','v','K'), ('K','','g','v','I')]}, entry=['Deep','I','J'], exit=['Deep','J','K'])
add('datasub', {'M': [('*A','e1','','a','Sub'), ('Sub','e3','g','a','A'), ('A','e2','','new','N'), ('N','e2','','a','A'), ('N','e1','','a','hist:Sub'), ('*P','e1','','a','Q'), ('Q','e2','g','a','P')],
                'Sub': [('*X','e1','','new','N'), ('N','e1','','reuse','N'), ('N','e2','g','a','X'), ('X','e4','','reuse','N')]}, nodefault=['N'], entry=['X'], exit=['Sub'])

def random_machine(seed):
    """a random, well formed machine"""
    R = random.Random(seed)
    evs = ['e%d' % (i+1) for i in range(R.randint(2, 4))]
    nsub = R.choice([0, 1, 1, 2])
    subs = ['Sub%d' % i for i in range(nsub)]
    names = {'M': ['A','B','C','D'][:R.randint(2, 4)]}
    for i, s in enumerate(subs):
        names[s] = R.choice([['X','Y','Z'], ['X','Y'], ['U','V','A']])
    gk = lambda: R.choice(['', 'g', 'v', 'g'])
    ak = lambda: R.choice(['a', 'v', '', 'a', 'c2'])
    tables = {}
    usehist = R.random() < .5
    useanon = R.random() < .5
    for p in ['M'] + subs:
        ns = names[p]
        ninit = 1 if len(ns) < 3 else R.choice([1, 1, 2])
        inits = ns[:ninit]
        rows = []
        # first one row for every initial state, so that it exists, then a random mixture
        for s in inits:
            rows.append(('*'+s, R.choice(evs), gk(), ak(), R.choice(ns)))
        for _ in range(R.randint(3, 6)):
            src = R.choice(ns)
            tgt = R.choice(ns)
            if p == 'M' and subs:
                k = R.randrange(6)
                sub = R.choice(subs)
                if k == 0: tgt = sub
                elif k == 1: src = sub
                elif k == 2: tgt = R.choice(['entry:', 'direct:']) + sub + ':' + R.choice(names[sub])
                elif k == 3 and usehist: tgt = 'hist:' + sub
                elif k == 4: src = R.choice(['direct:', 'exit:']) + sub + ':' + R.choice(names[sub])
            if useanon and R.random() < .25 and src in ns:
                rows.append((src, '', R.choice(['g', 'v']), ak(), tgt))
            else:
                rows.append((src, R.choice(evs), gk(), ak(), tgt))
        rows = [r for r in rows]
        tables[p] = rows
    for s in subs:   # every sub machine is reachable by a plain row and can be left
        tables['M'].append((R.choice(names['M']), R.choice(evs), gk(), 'a', s))
        tables['M'].append((s, R.choice(evs), gk(), 'a', R.choice(names['M'])))
    # names used only through pseudo states must exist in the table of the sub machine
    for s in subs:
        used = set()
        for r in tables[s]:
            for x in (r[0], r[4]): used.add(x.lstrip('*'))
        for n in names[s]:
            if n not in used: tables[s].append((n, R.choice(evs), gk(), ak(), R.choice(names[s])))
    m = M('rnd%d' % seed, tables)
    ev = events_of(m)
    allst = sorted({n for p in names for n in names[p]})
    m['entry'] = [s for s in allst + subs if R.random() < .3]
    m['exit'] = [s for s in allst + subs if R.random() < .3]
    m['handler'] = R.random() < .6
    m['ndeps'] = R.choice([0, 0, 1, 2])
    if R.random() < .35:
        m['defer'] = {R.choice(allst): [R.choice(ev)]}
    if R.random() < .4:
        own = R.choice(['M'] + subs + [R.choice([s for s in allst if '*' + s not in [r[0] for r in tables['M']]])])
        m['internal'] = {own: [(e, R.choice(['', 'g']), R.choice(['a', ''])) for e in R.sample(ev, 1)]}
        if m['internal'][own][0][2] == '' and m['internal'][own][0][1] == '':
            m['internal'][own] = [(m['internal'][own][0][0], 'g', 'a')]
    return m

def by_name(n):
    for m in FAMILY:
        if m['name'] == n: return m
    if n.startswith('rnd'): return random_machine(int(n[3:]))
    raise KeyError(n)
