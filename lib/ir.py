"""Reader for LLVM 18 textual IR: the verified text.

Functions are parsed when they are first executed.  Types are tuples:
 ('i',n) ('ptr',) ('void',) ('arr',n,t) ('st',(t..),packed) ('n',name) ('fp',size) ('lbl',) ('md',)
Operands are tuples:
 ('r',name) register  ('c',int) ('null',) ('undef',) ('zero',) ('g',name) global/function
 ('agg',[ops with types]) ('str',bytes) ('gep',type,(ty,op),[(ty,op)..]) ('cast',op,(ty,op),ty)
"""
import re

TOK = re.compile(r'''\s*(?:(;.*)|(c"(?:[^"\\]|\\.)*")|([%@$]"(?:[^"\\]|\\.)*"|[%@$][-\w.$]+)|("(?:[^"\\]|\\.)*")'''
                 r'''|(![-\w.]*)|(\.\.\.)|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+)|(-?\d+)|([A-Za-z_][\w.]*)|(#\d+)|([\[\]{}()<>,=*:|]))''')

class Unsupported(Exception):
    pass

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '': break
            raise Unsupported('token %r' % s[pos:pos+40])
        pos = m.end()
        if m.group(1): break
        out.append(m.group().strip())
    return out

ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly writeonly readnone returned inreg nest swiftself
 immarg nofree dso_local dso_preemptable tail musttail notail nounwind fastcc ccc coldcc inbounds nuw nsw exact unnamed_addr local_unnamed_addr
 nofpclass allocptr dead_on_unwind writable noreturn cold volatile fast nnan ninf nsz arcp contract afn reassoc disjoint nneg allocalign willreturn mustprogress'''.split())
PATTRS = set('align dereferenceable dereferenceable_or_null sret byval byref preallocated inalloca elementtype range nofpclass memory captures initializes'.split())

INT = {}
def ity(n):
    t = INT.get(n)
    if t is None: t = INT[n] = ('i', n)
    return t
PTR = ('ptr',); VOID = ('void',)

class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.mod = mod
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else ''
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def acc(s, x):
        if s.i < len(s.t) and s.t[s.i] == x: s.i += 1; return True
        return False
    def exp(s, x):
        if s.i >= len(s.t) or s.t[s.i] != x: raise Unsupported('expected %s at %s' % (x, ' '.join(s.t[max(0, s.i-6):s.i+8])[:300]))
        s.i += 1
    def attrs(s):
        res = {}
        while s.i < len(s.t):
            x = s.t[s.i]
            if x in ATTRS: s.i += 1
            elif x in PATTRS:
                s.i += 1
                if s.acc('('):
                    if x in ('byval', 'sret'):
                        res[x] = s.type(); s.exp(')')
                    else:
                        d = 1
                        while d:
                            y = s.next()
                            if y == '(': d += 1
                            elif y == ')': d -= 1
                elif x == 'align': s.next()
            elif x[0] == '"':
                s.i += 1
                if s.acc('='): s.next()
            elif x[0] == '#': s.i += 1
            else: break
        return res
    def type(s):
        x = s.next()
        if x == 'ptr':
            t = PTR
            if s.peek() == 'addrspace': s.next(); s.exp('('); s.next(); s.exp(')')
        elif x == 'void': t = VOID
        elif x[0] == 'i' and x[1:].isdigit(): t = ity(int(x[1:]))
        elif x == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']'); t = ('arr', n, e)
        elif x == '{':
            fs = []
            if not s.acc('}'):
                while True:
                    fs.append(s.type())
                    if s.acc('}'): break
                    s.exp(',')
            t = ('st', tuple(fs), False)
        elif x == '<':
            if s.acc('{'):
                fs = []
                if not s.acc('}'):
                    while True:
                        fs.append(s.type())
                        if s.acc('}'): break
                        s.exp(',')
                s.exp('>')
                t = ('st', tuple(fs), True)
            else:
                n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>'); t = ('vec', n, e)
        elif x[0] == '%': t = ('n', x)
        elif x in ('float',): t = ('fp', 4)
        elif x == 'double': t = ('fp', 8)
        elif x == 'x86_fp80': t = ('fp', 16)
        elif x == 'label': t = ('lbl',)
        elif x == 'metadata': t = ('md',)
        elif x == 'token': t = ('tok',)
        else: raise Unsupported('type %s' % x)
        # function type
        if s.peek() == '(' and s.fn_type_ahead():
            s.exp('(')
            d = 1
            while d:
                y = s.next()
                if y == '(': d += 1
                elif y == ')': d -= 1
            t = ('fn', t)
        return t
    def fn_type_ahead(s):
        # only used in "call ty (args...) @f(": a type list follows, then a callee
        j = s.i; d = 0
        while j < len(s.t):
            if s.t[j] == '(': d += 1
            elif s.t[j] == ')':
                d -= 1
                if d == 0: break
            j += 1
        return j+1 < len(s.t) and s.t[j+1][0] in '@%' and s.t[j+1] != '%'
    def value(s, ty):
        x = s.next()
        c = x[0]
        if c == '%': return ('r', x)
        if c == '@': return ('g', x[1:].strip('"'))
        if c == '-' or c.isdigit():
            if '.' in x or x.startswith('0x'): return ('fp', x)
            v = int(x)
            if ty[0] == 'i': v &= (1 << ty[1]) - 1
            return ('c', v)
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if c == 'c' and x[1:2] == '"': return ('str', unescape(x[2:-1]))
        if x in '{[<':
            close = {'{': '}', '[': ']', '<': '>'}[x]
            pk = False
            if x == '<' and s.peek() == '{': s.next(); pk = True; close = '}'
            out = []
            if not s.acc(close):
                while True:
                    t = s.type(); out.append((t, s.value(t)))
                    if s.acc(close): break
                    s.exp(',')
            if pk: s.exp('>')
            return ('agg', out)
        if x == 'getelementptr':
            s.attrs()
            if s.peek() == 'inrange': s.next(); s.skip_paren()
            s.exp('('); t = s.type(); ops = []
            while s.acc(','):
                s.acc('inrange')
                tt = s.type(); ops.append((tt, s.value(tt)))
            s.exp(')')
            return ('gep', t, ops[0], ops[1:])
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext'):
            s.exp('('); t = s.type(); v = s.value(t); s.exp('to'); t2 = s.type(); s.exp(')')
            return ('cast', x, (t, v), t2)
        if x in ('sub', 'add'):
            s.attrs(); s.exp('('); t = s.type(); a = s.value(t); s.exp(','); t2 = s.type(); b = s.value(t2); s.exp(')')
            return ('bin', x, t, a, b)
        if x == 'dso_local_equivalent' or x == 'no_cfi': return s.value(ty)
        if x == 'metadata' or c == '!': return ('undef',)
        raise Unsupported('value %s' % x)
    def skip_paren(s):
        s.exp('('); d = 1
        while d:
            y = s.next()
            if y == '(': d += 1
            elif y == ')': d -= 1
    def tv(s):
        t = s.type(); a = s.attrs(); return t, s.value(t), a

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

class Block:
    __slots__ = ('name', 'ins', 'phis')

class Function:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'lines', 'mod', 'parsed', 'variadic', 'backs', 'nins')

DEF = re.compile(r'^define .*?@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(')
LAB = re.compile(r'^([-\w.$]+|"(?:[^"\\]|\\.)*"):')
TYDEF = re.compile(r'^(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)$')
GLO = re.compile(r'^@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$')

class Module:
    def __init__(self, path):
        self.types_src = {}; self.types = {}; self.globals_src = {}; self.globals = {}
        self.fn_src = {}; self.fns = {}; self.decls = set(); self.aliases = {}
        with open(path) as f: lines = f.read().split('\n')
        self.nlines = len(lines)
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l:
                c = l[0]
                if c == 'd':
                    if l.startswith('define'):
                        name = DEF.match(l).group(1).strip('"')
                        j = i + 1
                        while lines[j] != '}': j += 1
                        self.fn_src[name] = lines[i:j]
                        i = j
                    elif l.startswith('declare'):
                        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                        self.decls.add(m.group(1).strip('"'))
                elif c == '%':
                    m = TYDEF.match(l)
                    if m: self.types_src[m.group(1)] = m.group(2)
                elif c == '@':
                    m = GLO.match(l); self.globals_src[m.group(1).strip('"')] = m.group(2)
            i += 1
        self.sz = {}; self.lay = {}
    # -- types
    def named(self, n):
        t = self.types.get(n)
        if t is None:
            src = self.types_src[n]
            if src == 'opaque': t = ('st', (), False)
            else: t = P(tokenize(src), self).type()
            self.types[n] = t
        return t
    def size_align(self, t):
        r = self.sz.get(t)
        if r: return r
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b: s *= 2
            r = (s, min(s, 16))
        elif k == 'ptr': r = (8, 8)
        elif k == 'fp': r = (t[1], t[1])
        elif k == 'n': r = self.size_align(self.named(t[1]))
        elif k in ('arr', 'vec'):
            s, a = self.size_align(t[2]); r = (s * t[1], a)
        elif k == 'st':
            offs, s, a = self.layout(t); r = (s, a)
        else: raise Unsupported('size of %r' % (t,))
        self.sz[t] = r
        return r
    def size(self, t): return self.size_align(t)[0]
    def layout(self, t):
        if t[0] == 'n': t = self.named(t[1])
        r = self.lay.get(t)
        if r: return r
        off = 0; al = 1; offs = []
        for f in t[1]:
            s, a = self.size_align(f)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            offs.append(off); off += s; al = max(al, a)
        off = (off + al - 1) // al * al
        r = (offs, off, al)
        self.lay[t] = r
        return r
    def resolve(self, t):
        while t[0] == 'n': t = self.named(t[1])
        return t
    # -- globals
    def glob(self, name):
        """(type, initialiser|None, constant?)"""
        g = self.globals.get(name)
        if g is None:
            src = self.globals_src[name]
            p = P(tokenize(src), self)
            ext = const = False
            tl = False
            while True:
                x = p.peek()
                if x in ('external', 'extern_weak'): ext = True; p.next()
                elif x in ('private', 'internal', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'available_externally', 'hidden', 'externally_initialized', 'protected', 'common', 'appending'): p.next()
                elif x == 'thread_local':
                    tl = True; p.next()
                    if p.peek() == '(': p.skip_paren()
                elif x == 'addrspace': p.next(); p.skip_paren()
                elif x == 'constant': const = True; p.next(); break
                elif x == 'global': p.next(); break
                elif x == 'alias':
                    p.next(); t = p.type(); p.exp(','); p.type(); v = p.value(PTR)
                    g = ('alias', v, True); self.globals[name] = g; return g
                else: raise Unsupported('global %s: %s' % (name[:60], x))
            t = p.type()
            init = None if ext else p.value(t)
            g = (t, init, const)
            self.globals[name] = g
        return g
    # -- functions
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            src = self.fn_src.get(name)
            if src is None: return None
            f = self.fns[name] = parse_fn(self, name, src)
        return f

BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv'.split())
CAST = set('zext sext trunc ptrtoint inttoptr bitcast freeze fptosi sitofp uitofp fptoui fpext fptrunc'.split())

def parse_fn(mod, name, src):
    f = Function(); f.name = name; f.mod = mod
    head = src[0]
    p = P(tokenize(head), mod)
    while p.peek() not in ('define',): p.next()
    p.next()
    while True:
        x = p.peek()
        if x in ('linkonce_odr', 'internal', 'dso_local', 'weak_odr', 'hidden', 'private', 'available_externally', 'linkonce', 'weak', 'protected'): p.next(); continue
        break
    p.attrs(); f.ret = p.type(); p.next(); p.exp('(')
    f.params = []; f.variadic = False
    nreg = 0
    if not p.acc(')'):
        while True:
            if p.acc('...'): f.variadic = True
            else:
                t = p.type(); a = p.attrs()
                if p.peek() and p.peek()[0] == '%': nm = p.next()
                else: nm = '%' + str(nreg)
                if nm == '%' + str(nreg): nreg += 1
                f.params.append((t, nm, a))
            if p.acc(')'): break
            p.exp(',')
    blocks = {}; cur = None; first = None
    # join continuation lines
    lines = []
    for l in src[1:]:
        if not l.strip(): continue
        s = l.strip()
        if s[0] == ';': continue
        if l[0] != ' ':
            m = LAB.match(l)
            lines.append(('L', m.group(1).strip('"')))
        else:
            if lines and lines[-1][0] == 'I':
                prev = lines[-1][1]
                if s.startswith(('to label', 'cleanup', 'catch ', 'filter ')) or (prev.lstrip().startswith('switch ') and not prev.rstrip().endswith(']')):
                    lines[-1] = ('I', prev + ' ' + s); continue
            lines.append(('I', s))
    f.nins = sum(1 for l in lines if l[0] == 'I')
    for kind, s in lines:
        if kind == 'L':
            cur = Block(); cur.name = s; cur.ins = []; cur.phis = []; blocks[s] = cur
            if first is None: first = s
            continue
        if cur is None:
            cur = Block(); cur.name = str(nreg); cur.ins = []; cur.phis = []; blocks[cur.name] = cur; first = cur.name
        ins = parse_ins(mod, s)
        if ins is None: continue
        if ins[0] == 'phi': cur.phis.append(ins)
        else: cur.ins.append(ins)
    f.blocks = blocks; f.entry = first
    f.backs = None
    return f

def lbl(p):
    p.exp('label'); x = p.next(); return x[1:].strip('"')

def parse_ins(mod, s):
    p = P(tokenize(s), mod)
    dst = None
    if p.peek()[0] == '%' and p.peek(1) == '=': dst = p.next(); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op == 'alloca':
        p.attrs(); t = p.type()
        n = None
        if p.acc(','):
            if p.peek() != 'align':
                tt = p.type(); n = p.value(tt)
        return ('alloca', dst, t, n)
    if op == 'load':
        p.attrs(); at = p.acc('atomic'); p.attrs(); t = p.type(); p.exp(','); p.type(); v = p.value(PTR)
        return ('load', dst, t, v)
    if op == 'store':
        p.attrs(); at = p.acc('atomic'); p.attrs(); t = p.type(); v = p.value(t); p.exp(','); p.type(); q = p.value(PTR)
        return ('store', t, v, q)
    if op == 'getelementptr':
        p.attrs(); t = p.type(); p.exp(','); bt = p.type(); b = p.value(bt); idx = []
        while p.acc(','):
            if p.peek()[0] == '!': break
            tt = p.type(); idx.append((tt, p.value(tt)))
        return ('gep', dst, t, b, idx)
    if op in ('call', 'invoke'):
        p.attrs()
        t = p.type(); p.attrs()
        if t[0] == 'fn': t = t[1]
        if p.peek() == 'asm': raise Unsupported('asm')
        callee = p.value(PTR); p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                tt = p.type(); a = p.attrs()
                if tt[0] == 'md':
                    # skip metadata operand
                    while p.peek() not in (',', ')'): p.next()
                    args.append((tt, ('undef',), a))
                else: args.append((tt, p.value(tt), a))
                if p.acc(')'): break
                p.exp(',')
        if op == 'invoke':
            p.attrs()
            while p.peek() != 'to': p.next()
            p.next(); n = lbl(p); p.exp('unwind'); u = lbl(p)
            return ('invoke', dst, t, callee, args, n, u)
        return ('call', dst, t, callee, args)
    if op == 'ret':
        t = p.type()
        return ('ret', t, None if t == VOID else p.value(t))
    if op == 'br':
        if p.peek() == 'label': return ('br', lbl(p))
        t = p.type(); c = p.value(t); p.exp(','); a = lbl(p); p.exp(','); b = lbl(p)
        return ('cbr', c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); d = lbl(p); p.exp('[')
        cs = []
        while not p.acc(']'):
            tt = p.type(); k = p.value(tt)[1]; p.exp(','); cs.append((k, lbl(p)))
        return ('switch', t, v, d, cs)
    if op in ('icmp', 'fcmp'):
        p.attrs(); pr = p.next(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return (op, dst, pr, t, a, b)
    if op in BIN:
        p.attrs(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return ('bin', dst, op, t, a, b)
    if op in CAST:
        p.attrs(); t = p.type(); a = p.value(t)
        if op == 'freeze': return ('cast', dst, op, t, a, t)
        p.exp('to'); t2 = p.type()
        return ('cast', dst, op, t, a, t2)
    if op == 'phi':
        p.attrs(); t = p.type(); inc = {}
        while True:
            p.exp('['); v = p.value(t); p.exp(','); b = p.next()[1:].strip('"'); p.exp(']'); inc[b] = v
            if not p.acc(','): break
            if p.peek()[0] == '!': break
        return ('phi', dst, t, inc)
    if op == 'select':
        p.attrs(); t = p.type(); c = p.value(t); p.exp(','); t1 = p.type(); a = p.value(t1); p.exp(','); t2 = p.type(); b = p.value(t2)
        return ('select', dst, c, t1, a, b)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return ('extractvalue', dst, t, v, idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); e = p.value(t2); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return ('insertvalue', dst, t, v, t2, e, idx)
    if op == 'landingpad':
        t = p.type(); cleanup = False; cl = []
        while p.i < len(p.t):
            x = p.next()
            if x == 'cleanup': cleanup = True
            elif x == 'catch': tt = p.type(); cl.append(('catch', p.value(tt)))
            elif x == 'filter': tt = p.type(); cl.append(('filter', p.value(tt)))
            elif x[0] == '!': break
        return ('landingpad', dst, cleanup, cl)
    if op == 'resume':
        t = p.type(); return ('resume', t, p.value(t))
    if op == 'unreachable': return ('unreachable',)
    if op == 'atomicrmw':
        p.attrs(); o = p.next(); p.type(); q = p.value(PTR); p.exp(','); t = p.type(); v = p.value(t)
        return ('atomicrmw', dst, o, t, q, v)
    if op == 'fneg':
        return ('unsup', s)
    if op == 'va_arg': return ('unsup', s)
    if op == 'cmpxchg' or op == 'fence': return ('unsup', s)
    return ('unsup', s)
