"""Linear-constraint abstract interpretation of buffer accesses.

Every integer is a linear form over atoms (parameters, text lengths, sizes of blocks, loop counters, unknown values);
a path carries linear constraints (form <= 0) collected from the conditions it passed.  A pointer is a block and an offset,
a block has a size.  Loops are summarised by the changes per round: a counter atom K and, for every variable changed by
[a, b] per round, an atom between v0 + a*K and v0 + b*K.  Every access gives an obligation  index - size + 1 <= 0:
  proved     it follows from the constraints
  violated   the constraints have a solution, over atoms that the caller of the library controls, with index >= size
  passed on  it speaks of parameters only: it is decided where the function is called
  undecided  anything else
"""
import re
from itertools import product
from collections import defaultdict
from .effects import Effects, is_write_op, write_target

MAXST = 8
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'wchar_t': 4, 'int': 4, 'unsigned int': 4, 'unsigned short': 2, 'short': 2,
         'long': 8, 'unsigned long': 8, 'uint16_t': 2, 'uint32_t': 4, 'size_t': 8, 'uint8_t': 1, 'double': 8}


TERM = 'a search for the terminator'
READS = ('a read', TERM, 'a read of several characters')
PURE = ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'length', 'c_str', 'data', 'find', 'operator[]', 'at', 'back', 'front', 'empty', 'operator*', 'operator->', 'count', 'str')
SEARCH = ('wmemchr', 'wcschr', 'memchr', 'strchr', 'wcsstr', 'strstr', 'wcspbrk', 'find', 'find_first_of', 'wcsncmp', 'wcscmp', 'strcmp', 'strncmp', 'count', 'count_if', 'any_of', 'find_if')


class Lin:
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t=None, c=0):
        self.t = t or {}
        self.c = c
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.t.items()), self.c)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def add(self, o, s=1):
        if not o.t:
            return Lin(self.t, self.c + s * o.c)
        t = dict(self.t)
        for a, k in o.t.items():
            n = t.get(a, 0) + s * k
            if n:
                t[a] = n
            else:
                t.pop(a, None)
        return Lin(t, self.c + s * o.c)

    def sub(self, o):
        return self.add(o, -1)

    def mul(self, k):
        return Lin({a: x * k for a, x in self.t.items()}, self.c * k) if k else Lin()

    def plus(self, k):
        return Lin(self.t, self.c + k)

    def isconst(self):
        return not self.t

    def subst(self, fn):
        """fn(atom) -> Lin or None (keep)"""
        r = Lin({}, self.c)
        for a, k in self.t.items():
            v = fn(a)
            r = r.add(v.mul(k) if v is not None else Lin({a: k}))
        return r

    def __repr__(self):
        s = ''
        for a, k in sorted(self.t.items(), key=str):
            s += ' %+d*%s' % (k, name(a)) if abs(k) != 1 else ' %s%s' % ('-' if k < 0 else '+', name(a))
        if self.c or not s:
            s += ' %+d' % self.c
        return s.strip().lstrip('+')


NAMES = {}


def name(a):
    return NAMES.get(a, str(a))


def C(k):
    return Lin({}, k)


def A(a):
    return Lin({a: 1})


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o):
        self.b, self.o = b, o

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.b == x.b and self.o == x.o

    def __hash__(self):
        return hash((self.b, self.o))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.b, self.o)


NULL = Ptr('null', C(0))


class St:
    __slots__ = ('env', 'cons', 'ne', 'dirty', 'choice', 'blk', 'taint')

    def __init__(self):
        self.env, self.cons, self.ne, self.dirty, self.choice, self.blk, self.taint = {}, frozenset(), frozenset(), frozenset(), {}, {}, frozenset()

    def copy(self):
        s = St()
        s.env, s.cons, s.ne, s.dirty, s.choice, s.blk, s.taint = dict(self.env), self.cons, self.ne, self.dirty, dict(self.choice), dict(self.blk), self.taint
        return s

    def sig(self):
        return (frozenset(self.env.items()), self.cons, self.ne)


def found(v):
    """result of a search, which may be null"""
    return any(a[0] == 'o' and isinstance(a[2], tuple) and a[2][0] == 'found' for a in v.o.t)


def nonneg(a):
    return a[0] in ('len', 'room', 'cnt', 'K', 'sz', 'u') or a[-1] == '+'


def relevant(T, cons, stop=()):
    """constraints that share atoms with T, transitively"""
    seen = set(T.t)
    out = []
    rest = list(cons)
    ch = True
    while ch:
        ch = False
        keep = []
        for c in rest:
            if any(a in seen for a in c.t):
                out.append(c)
                for a in c.t:
                    if a not in seen:
                        seen.add(a)
                        ch = True
            else:
                keep.append(c)
        rest = keep
    return out


def entails(cons, T, depth=6):
    """does T <= 0 follow from cons (all <= 0) and the atoms' own signs?"""
    cons = relevant(T, cons)
    for a in {a for c in cons for a in c.t} | set(T.t):
        if a[0] == 'pow':
            cons.append(Lin({a: -1}, 1))
    seen = set()
    budget = [400]

    def go(T, d):
        if not T.t:
            return T.c <= 0
        if T.c <= 0 and all(k < 0 and nonneg(a) for a, k in T.t.items()):
            return True
        k = T.key()
        if k in seen or d == 0 or budget[0] <= 0:
            return False
        seen.add(k)
        budget[0] -= 1
        for a, x in sorted(T.t.items(), key=lambda p: (p[1] < 0 and nonneg(p[0]), str(p[0]))):
            if x < 0 and nonneg(a):
                if go(T.add(Lin({a: -x})), d - 1):
                    return True
            for c in cons:
                y = c.t.get(a, 0)
                if y * x > 0:
                    if go(T.mul(abs(y)).add(c, -abs(x)), d - 1):
                        return True
        return False
    return go(T, depth)


def tsize(t):
    t = re.sub(r'\bconst\b', '', t).strip()
    if t.endswith('*'):
        return 8
    return SIZES.get(t)


def pointee(t):
    t = t.strip()
    t = re.sub(r'\bconst$', '', t).strip()
    if t.endswith('&'):
        t = t[:-1].strip()
    m = re.match(r'(.*)\[(\d+)\]$', t)
    if m:
        return m.group(1).strip()
    if t.endswith('*'):
        return t[:-1].strip()
    return None


def isint(t):
    t = re.sub(r'\bconst\b', '', t).replace('&', '').strip()
    return t in SIZES and t != 'double' or t.endswith('_t') and '*' not in t and ':' not in t


def ischar(t):
    return re.sub(r'\bconst\b', '', t).replace('&', '').strip() in ('char', 'wchar_t', 'unsigned char', 'signed char')


def unsigned(t):
    t = re.sub(r'\bconst\b', '', t).replace('&', '').strip()
    return t.startswith('unsigned') or t in ('size_t', 'uint16_t', 'uint32_t', 'uint8_t', 'bool')


def private(cs, other):
    """without the constraints on values that the other state does not know at all"""
    pure = [c for c in cs if all(q[0] in ('K', 'H', 'o') for q in c.t)]
    if not pure:
        return cs
    known = {q for c in other.cons | other.ne for q in c.t}
    for v in other.env.values():
        v = v.o if isinstance(v, Ptr) else v
        if isinstance(v, Lin):
            known |= set(v.t)
    mixed = {q for c in cs if c not in pure for q in c.t}
    return cs - {c for c in pure if not any(q in known or q in mixed for q in c.t)}


def lost(a, b):
    """atoms about which the union of two states knows less than either: their constraints differ, other than by c and not c"""
    A, B = a.cons - b.cons, b.cons - a.cons
    N = a.ne ^ b.ne
    if A and B:
        A, B = private(A, b), private(B, a)
    if not N:
        if not A or not B:
            return frozenset()
        if len(A) == 1 and len(B) == 1 and next(iter(A)).mul(-1).plus(1) == next(iter(B)):
            return frozenset()
    out = set()
    for c in A | B | N:
        out |= set(c.t)
        out.add(('G', frozenset(c.t)))
    return frozenset(out)


def tmap(ts, mp):
    """taint in other terms"""
    out = set()
    for q in ts:
        if q[0] == 'G':
            out.add(('G', frozenset(y for x in q[1] for y in (mp(x) or A(x)).t)))
        else:
            out |= set((mp(q) or A(q)).t)
    return frozenset(out)


class Req:
    __slots__ = ('T', 'cons', 'ne', 'site', 'what', 'chain', 'inp', 'taint')

    def __init__(self, T, cons, ne, site, what, chain=(), taint=frozenset()):
        self.T, self.cons, self.ne, self.site, self.what, self.chain, self.taint = T, cons, ne, site, what, chain, taint


class Zone:
    def __init__(self, m, eff=None, infile=None, reads=False):
        self.m = m
        self.eff = eff or Effects(m)
        self.sum = {}
        self.inprog = set()
        self.results = {}       # (fn key, node) -> worst verdict
        self.viol = []
        self.src = {}       # what an unknown value was computed from
        self.psrc = {}
        self.tests = {}
        self.complete = set()      # counters of loops that are only left by their condition
        self.acc = {}
        self.count = defaultdict(int)
        self.W = {}
        self.infile = infile or (lambda f: True)
        self.reads = reads
        self.exported = {f.key for f in m.fns.values() if f.d.get('exported')}
        self.fieldinfo = None
        self.order = []
        self.alts = {}          # group -> [{atom: form}]
        self.group = {}         # atom -> group

    # ---------------------------------------------------------------- class-wide facts
    def fields(self):
        """field -> list of (fn, value node or None) of every store"""
        if self.fieldinfo is None:
            w = defaultdict(list)
            for f in self.m.fns.values():
                for nd in f.nodes:
                    if is_write_op(nd):
                        t = f.nodes[f.strip(write_target(nd))]
                        if t['k'] == 'MemberExpr' and t.get('mk') == 'field':
                            w[t['m']].append((f, nd['rhs'] if nd.get('op') == '=' else None))
                    elif nd['k'] == 'UnaryOperator' and nd['op'] == '&':
                        t = f.nodes[f.strip(nd['sub'])]
                        if t['k'] == 'MemberExpr' and t.get('mk') == 'field':
                            w[t['m']].append((f, None))
                for ini in f.d.get('inits', []):
                    if 'm' in ini:
                        w[ini['m']].append((f, ini['e']))
            self.fieldinfo = w
        return self.fieldinfo

    def field_alloc(self, fld):
        """(constructor, size node) when the only block ever stored in the field is allocated in a constructor"""
        out = []
        for f, v in self.fields().get(fld, ()):
            if v is None:
                return None
            vs = [v]
            while vs:
                i = vs.pop()
                nd = f.nodes[f.strip(i)]
                if nd['k'] == 'ConditionalOperator':
                    vs += [nd['then'], nd['else']]
                elif f.isnull(i):
                    pass
                elif nd['k'] == 'CXXNewExpr' and nd.get('array') and f.d.get('ctor'):
                    out.append((f, nd['size']))
                else:
                    return None
        return out[0] if len(out) == 1 else None

    def ctor_field(self, f, v):
        """field that is initialised with constructor parameter v and never changed"""
        for ini in f.d.get('inits', []):
            if 'm' in ini and f.var(ini['e']) == v and len(self.fields().get(ini['m'], ())) == 1:
                return ini['m']
        return None

    def field_size(self, path):
        """size of the block a field points to, as a form over fields of the same object"""
        fa = self.field_alloc(path[2])
        if not fa:
            return None
        f, e = fa
        base = path[1]

        def form(i):
            i = f.strip(i)
            nd = f.nodes[i]
            if isinstance(nd.get('ev'), int):
                return C(nd['ev'])
            if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
                if nd['v'] in f.params:
                    fl = self.ctor_field(f, nd['v'])
                    if fl:
                        return self.field_atom(('f', base, fl))
                return None
            if nd['k'] == 'MemberExpr' and nd.get('mk') == 'field':
                return self.field_atom(('f', base, nd['m']))
            if nd['k'] == 'BinaryOperator' and nd['op'] in ('+', '-', '*', '<<'):
                a, b = form(nd['lhs']), form(nd['rhs'])
                if a is None or b is None:
                    return None
                if nd['op'] == '<<':
                    if a.isconst() and len(b.t) == 1:
                        return Lin({('pow', b.key(), '+'): a.c})
                    return None
                if nd['op'] == '*':
                    return b.mul(a.c) if a.isconst() else a.mul(b.c) if b.isconst() else None
                return a.add(b, 1 if nd['op'] == '+' else -1)
            return None
        return form(e)

    def field_atom(self, path):
        """form for a field's value at function entry: a constant where every construction of the object gives the same"""
        c = self.field_const(path)
        if c is not None:
            return C(c)
        t = self.ftype(path[2])
        a = ('fld', path, '+') if t and unsigned(t) else ('fld', path)
        return A(a)

    def ftype(self, fld):
        for ws in (self.fields().get(fld, ()),):
            for f, v in ws:
                for ini in f.d.get('inits', []):
                    if ini.get('m') == fld:
                        return ini.get('mt')
        return None

    def field_const(self, path, d=0):
        """value of a field that is set once, from a constructor parameter, where the object is created with a constant"""
        ws = self.fields().get(path[2], ())
        if len(ws) != 1:
            return None
        f, v = ws[0]
        if v is None or not f.d.get('ctor'):
            return None
        if isinstance(f.nodes[f.strip(v)].get('ev'), int):
            return f.nodes[f.strip(v)]['ev']
        pv = f.var(v)
        if pv is None or pv not in f.params:
            return None
        k = f.params.index(pv)
        # the object itself: a field that holds the only object created for it
        base = path[1]
        vals = set()
        if base[0] == 'f':
            sites = []
            for g, w in self.fields().get(base[2], ()):
                if w is None:
                    return None
                if g.isnull(w):
                    continue
                nd = g.nodes[g.strip(w)]
                if nd['k'] != 'CXXNewExpr':
                    return None
                sites.append((g, nd))
            for g, nd in sites:
                x = self.ctor_arg(g, nd, k)
                if x is None:
                    return None
                vals.add(x)
        return vals.pop() if len(vals) == 1 else None

    def ctor_arg(self, g, new, k):
        for c in new.get('c', ()):
            nd = g.nodes[c]
            if nd['k'] == 'CXXConstructExpr' and k < len(nd.get('args', ())):
                e = g.nodes[g.strip(nd['args'][k])].get('ev')
                return e if isinstance(e, int) else None
        return None

    def tested(self, g):
        """numbers of the parameters whose value (or whose text's length) the function compares with something"""
        if g.key in self.tests:
            return self.tests[g.key]
        r = self.tests[g.key] = set()
        for nd in g.nodes:
            if nd['k'] == 'BinaryOperator' and nd['op'] in ('<', '>', '<=', '>=', '==', '!='):
                for s in ('lhs', 'rhs'):
                    e = g.nodes[g.strip(nd[s])]
                    v = g.var(e['i'])
                    if v in g.params and '*' not in g.vars[v]['t']:
                        r.add(g.params.index(v))
                    elif e.get('cn') in ('wcslen', 'strlen') and e.get('args') and g.var(e['args'][0]) in g.params:
                        r.add(g.params.index(g.var(e['args'][0])))
            elif 'callee' in nd:
                for h in self.m.targets(nd):
                    if h.key in self.tests or h.key == g.key or len(h.nodes) > 60:
                        hs = self.tests.get(h.key, ())
                    else:
                        hs = self.tested(h)
                    for n in hs:
                        if n < len(nd.get('args', ())) and g.var(nd['args'][n]) in g.params:
                            r.add(g.params.index(g.var(nd['args'][n])))
        return r

    def accessor(self, g):
        """('get', path, name) for a function that only returns a field, ('set', path, parameter number) for one that only stores a parameter in a field"""
        if g.key in self.acc:
            return self.acc[g.key]
        r = None
        body = g.nodes[g.d['body']] if isinstance(g.d.get('body'), int) and g.d['body'] >= 0 else None
        c = [x for x in (body.get('c', ()) if body else ()) if x >= 0 and g.nodes[x]['k'] != 'NullStmt']

        def ok(p):
            return p[0] == 'f' and (p[1][0] in ('this', 'v') and (p[1][0] == 'this' or p[1][1] in g.params) or ok(p[1])) if p else False

        def clean(p):
            if not p:
                return p
            return clean(p[1]) if p[0] in ('d', 'a') else ('f', clean(p[1]), p[2]) if p[0] == 'f' else p
        if len(c) == 1:
            nd = g.nodes[c[0]]
            if nd['k'] == 'ReturnStmt' and nd.get('c') and '*' in g.d.get('ret', ''):
                j = g.strip(nd['c'][0])
                e = g.nodes[j]
                if e['k'] == 'MemberExpr' and e.get('mk') == 'field':
                    p = clean(g.path(j))
                    if ok(p):
                        r = ('get', p, e.get('mn', '?'))
            else:
                j = g.strip(c[0])
                e = g.nodes[j]
                if e['k'] == 'BinaryOperator' and e['op'] == '=' and g.var(e['rhs']) in g.params:
                    l = g.strip(e['lhs'])
                    if g.nodes[l]['k'] == 'MemberExpr' and g.nodes[l].get('mk') == 'field':
                        p = clean(g.path(l))
                        if ok(p):
                            r = ('set', p, g.params.index(g.var(e['rhs'])))
        self.acc[g.key] = r
        return r

    def writes_of(self, key):
        if key not in self.W:
            self.W[key] = frozenset(self.eff.transitive([key])[1])
        return self.W[key]

    # ---------------------------------------------------------------- functions
    def analyse(self, f):
        if f.key in self.sum:
            return self.sum[f.key]
        if f.key in self.inprog or 'body' not in f.d:
            return None
        self.inprog.add(f.key)
        a = FnRun(self, f)
        s = a.run()
        self.inprog.discard(f.key)
        self.sum[f.key] = s
        self.order.append(f.key)
        return s


class Summary:
    __slots__ = ('ret', 'reqs', 'fail', 'ctor')


class FnRun:
    def __init__(self, z, f):
        self.active = []      # counters of the loops being walked
        self.z, self.f, self.m = z, f, z.m
        self.rec = True
        self.rets = []
        self.reqs = {}
        self.rounds = 0
        self.steps = 0

    # ---- atoms
    def fresh(self, tag, t=None, kind='o'):
        a = (kind, self.f.key, tag) + (('+',) if t and unsigned(t) else ())
        return a

    def opaque(self, i, t=None):
        nd = self.f.nodes[i]
        t = t or nd.get('t', '')
        a = ('o', self.f.key, i) + (('+',) if unsigned(t) else ())
        NAMES.setdefault(a, 'value@%s' % nd.get('l'))
        return A(a)

    def run(self):
        f = self.f
        st = St()
        for v in f.params:
            t = f.vars[v]['t']
            if '*' in t:
                st.env['v', v] = Ptr(('par', v), C(0))
            elif isint(t):
                a = ('p', v, f.key) + (('+',) if unsigned(t) else ())
                NAMES.setdefault(a, f.vname(v))
                st.env['v', v] = A(a)
        s = Summary()
        s.fail = None
        try:
            out = []
            states = [st]
            for ini in f.d.get('inits', []):
                for x in states:
                    v = self.ev(ini['e'], x)
                    if 'm' in ini and v is not None:
                        x.env['f', ('this',), ini['m']] = v
            out = self.ex(f.d['body'], states)
            if out['n']:
                self.rets += [(None, x) for x in out['n']]
        except Budget:
            s.fail = 'too many paths'
        except (TypeError, KeyError, IndexError, AttributeError, ValueError) as e:
            s.fail = 'not understood: %s: %s' % (type(e).__name__, e)
        s.reqs = list(self.reqs.values())
        s.ret = self.summarise()
        s.ctor = None
        if f.d.get('ctor') and not s.fail:
            sts = [x for _, x in self.rets]
            if sts:
                s.ctor = {}
                for k, v in sts[0].env.items():
                    if k[0] == 'f' and f.root(k) == ('this',) and isinstance(v, Ptr) and v.b != 'null' and v.b[0] == 'new' and v.o == C(0) and \
                            all(x.env.get(k) == v and x.blk.get(v.b) == sts[0].blk.get(v.b) for x in sts) and v.b in sts[0].blk:
                        s.ctor[k] = (sts[0].blk[v.b], sts[0])
                    elif k[0] == 'f' and f.root(k) == ('this',) and isinstance(v, Lin) and all(x.env.get(k) == v for x in sts):
                        s.ctor[k] = (v, None)
        return s

    def summarise(self):
        vals = []
        for v, st in self.rets:
            if v is None:
                return None
            if isinstance(v, Ptr):
                if v.b == 'null':
                    continue
                sz = st.blk.get(v.b)
                ln = st.env.get(('len', v.b))
                if v.b[0] == 'par':
                    vals.append(('par', v.b[1], v.o, st))
                elif v.b[0] in ('new', 'call') and sz is not None and v.o == C(0):
                    vals.append(('blk', sz, ln, st))
                else:
                    return None
            else:
                vals.append(('int', v, None, st))
        return vals or None

    # ---- state helpers
    def add(self, st, c):
        """add c <= 0; None if that is impossible"""
        if not c.t:
            return st if c.c <= 0 else None
        if entails(st.cons, c.mul(-1).plus(1)):
            return None
        if c not in st.cons:
            if len(st.cons) < 60:
                st.cons = st.cons | {c}
        # disequalities that became one-sided
        for n in list(st.ne):
            if any(a in c.t for a in n.t):
                st.ne = st.ne - {n}
                st = self.addne(st, n)
                if st is None:
                    return None
        return st

    def addne(self, st, n):
        if not n.t:
            return st if n.c != 0 else None
        if entails(st.cons, n) :
            if entails(st.cons, n.mul(-1)):
                return None
            return self.add(st, n.plus(1))
        if entails(st.cons, n.mul(-1)):
            return self.add(st, n.mul(-1).plus(1))
        if len(st.ne) < 20:
            st.ne = st.ne | {n}
        return st

    def limit(self, sts):
        u = {}
        for s in sts:
            k = frozenset(s.env.items())
            if k in u:
                o = u[k]
                o.taint |= s.taint | lost(o, s)
                o.cons &= s.cons
                o.ne &= s.ne
                o.dirty |= s.dirty
            else:
                u[k] = s
        sts = list(u.values())
        while len(sts) > MAXST:
            # join the two with the fewest differences
            best = None
            for i in range(len(sts)):
                for j in range(i + 1, min(len(sts), i + 6)):
                    d = 0
                    for k, x in sts[i].env.items():
                        y = sts[j].env.get(k)
                        if x != y:
                            d += 3 if isinstance(x, Lin) and isinstance(y, Lin) and x.isconst() and y.isconst() else 1
                    if best is None or d < best[0]:
                        best = (d, i, j)
            _, i, j = best
            b = sts.pop(j)
            a = sts.pop(i)
            sts.append(self.join(a, b, ('lim', self.steps)))
        return sts

    def join(self, a, b, tag):
        r = St()
        r.cons = a.cons & b.cons
        r.ne = a.ne & b.ne
        r.dirty = a.dirty | b.dirty
        r.taint = a.taint | b.taint | lost(a, b)
        r.blk = {k: v for k, v in a.blk.items() if b.blk.get(k) == v}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            if v == w:
                r.env[k] = v
            elif isinstance(v, Ptr) and isinstance(w, Ptr):
                if v.b == w.b:
                    r.env[k] = Ptr(v.b, self.jatom(a, b, v.o, w.o, r, (tag, k)))
                elif v.b == 'null':
                    r.env[k] = w
                    if w.b in b.blk:
                        r.blk[w.b] = b.blk[w.b]
                elif w.b == 'null':
                    r.env[k] = v
                    if v.b in a.blk:
                        r.blk[v.b] = a.blk[v.b]
            elif isinstance(v, Lin) and isinstance(w, Lin):
                r.env[k] = self.jatom(a, b, v, w, r, (tag, k))
        return r

    def jatom(self, a, b, v, w, r, tag):
        j = ('J', self.f.key, tag)
        NAMES.setdefault(j, 'join')
        add = []
        if entails(b.cons, w.sub(v)):
            add.append(A(j).sub(v))
        if entails(a.cons, v.sub(w)):
            add.append(A(j).sub(w))
        if entails(b.cons, v.sub(w)):
            add.append(v.sub(A(j)))
        if entails(a.cons, w.sub(v)):
            add.append(w.sub(A(j)))
        r.cons = r.cons | frozenset(add)
        self.z.group[j] = j
        self.z.alts[j] = [{j: v}, {j: w}]
        return A(j)

    # ---- reading
    def look(self, i, st):
        """value of an lvalue"""
        f = self.f
        i = f.strip(i)
        nd = f.nodes[i]
        t = nd.get('t', '')
        if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var':
            v = nd['v']
            vt = f.vars[v]['t']
            m = re.match(r'(.*)\[(\d+)\]$', vt)
            if m:
                b = ('arr', v)
                st.blk.setdefault(b, C(int(m.group(2))))
                return Ptr(b, C(0))
            x = st.env.get(('v', v))
            if x is None and isint(vt):
                a = ('o', f.key, ('var', v, self.steps)) + (('+',) if unsigned(vt) else ())
                NAMES.setdefault(a, f.vname(v))
                x = st.env['v', v] = A(a)
            return x
        if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'global':
            m = re.match(r'(.*)\[(\d+)\]$', t)
            if m:
                b = ('garr', nd['g'])
                st.blk.setdefault(b, C(int(m.group(2))))
                return Ptr(b, C(0))
            return None
        if nd['k'] == 'MemberExpr' and nd.get('mk') == 'field':
            self.ev(nd['base'], st)
            p = self.path(i, st)
            if p is None:
                return self.opaque(i) if isint(t) else None
            m = re.match(r'(.*)\[(\d+)\]$', t)
            if m:
                b = ('arrf', p)
                st.blk.setdefault(b, C(int(m.group(2))))
                return Ptr(b, C(0))
            return self.field(p, t, nd['m'], nd.get('mn', '?'), i, st)
        return None

    def field(self, p, t, fld, nm, i, st):
        """value of the field at an access path"""
        x = st.env.get(p)
        if x is None:
            if isint(t):
                if fld in st.dirty:
                    x = self.opaque(i)
                else:
                    x = self.z.field_atom(p)
                    for a in x.t:
                        NAMES.setdefault(a, nm)
                        if unsigned(t) and a[-1] != '+':
                            na = a + ('+',)
                            NAMES.setdefault(na, nm)
                            x = A(na)
                st.env[p] = x
            elif '*' in t:
                sz = None if fld in st.dirty else self.z.field_size(p)
                b = ('fb', p)
                if sz is not None:
                    st.blk.setdefault(b, sz)
                if fld not in st.dirty and isint(pointee(t) or '') or '**' in t.replace(' ', ''):
                    x = st.env[p] = Ptr(b, C(0))
        return x

    def path(self, i, st):
        """access path of a field, with pointer variables that alias a path resolved"""
        f = self.f
        p = f.path(i)

        def norm(p):
            if p[0] == 'f':
                b = norm(p[1])
                return ('f', b, p[2]) if b else None
            if p[0] in ('v', 'this'):
                if p[0] == 'v':
                    al = st.env.get(('al', p[1]))
                    if al:
                        return al
                return p
            if p[0] == 'd' or p[0] == 'a':
                return norm(p[1])
            return None
        return norm(p)

    # ---- evaluation
    def ev(self, i, st):
        f = self.f
        self.steps += 1
        if self.steps > 60000:
            raise Budget()
        nd = f.nodes[i]
        k = nd['k']
        e = nd.get('ev')
        if isinstance(e, int) and not isinstance(e, bool):
            if nd.get('nul') or f.isnull(i):
                return NULL if '*' in nd.get('t', '') or nd.get('nul') else C(e)
            return C(e)
        if k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr', 'CXXDynamicCastExpr') and 'sub' in nd:
            v = self.ev(nd['sub'], st)
            if isinstance(v, Ptr) and v.b != 'null':
                a, b = pointee(nd.get('t', '')), pointee(f.nodes[nd['sub']].get('t', ''))
                if a and b and tsize(a) != tsize(b):
                    if b == 'void' and v.b[0] == 'new' and ('bytes', v.b) in st.env and v.o == C(0):
                        n = st.env['bytes', v.b]
                        z = tsize(a)
                        if z and all(x % z == 0 for x in n.t.values()) and n.c % z == 0:
                            st.blk[v.b] = Lin({q: x // z for q, x in n.t.items()}, n.c // z)
                            return v
                        if z:
                            st.blk[v.b] = n
                            st.env['scale', v.b] = z
                            return v
                    return None
            return v
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or nd.get('nul'):
            return NULL
        if k == 'CXXDefaultArgExpr' and nd.get('c'):
            return self.ev(nd['c'][0], st)
        if k in ('DeclRefExpr', 'MemberExpr'):
            return self.look(i, st)
        if k == 'StringLiteral':
            b = ('lit', f.key, i)
            n = len(nd.get('w', nd.get('s', '')) or '')
            m = re.search(r'\[(\d+)\]', nd.get('t', ''))
            if m:
                n = int(m.group(1)) - 1
            st.blk[b] = C(n + 1)
            st.env['len', b] = C(n)
            return Ptr(b, C(0))
        if k == 'ArraySubscriptExpr':
            b = self.ev(nd['base'], st)
            x = self.ev(nd['idx'], st)
            self.access(b, x, i, st, False)
            if '*' in nd.get('t', ''):
                return self.element(b, x, st)
            return self.opaque(i) if isint(nd.get('t', '')) and not ischar(nd.get('t', '')) else None
        if k == 'UnaryOperator':
            op = nd['op']
            if op in ('++', '--'):
                old = self.ev(nd['sub'], st)
                d = 1 if op == '++' else -1
                new = self.shift(old, C(d))
                self.assign(nd['sub'], new, st)
                return old if nd.get('post') else new
            if op == '*':
                b = self.ev(nd['sub'], st)
                self.access(b, C(0), i, st, False)
                if '*' in nd.get('t', ''):
                    return self.element(b, C(0), st)
                return self.opaque(i) if isint(nd.get('t', '')) and not ischar(nd.get('t', '')) else None
            if op == '&':
                s = f.nodes[f.strip(nd['sub'])]
                if s['k'] == 'ArraySubscriptExpr':
                    b = self.ev(s['base'], st)
                    x = self.ev(s['idx'], st)
                    return self.shift(b, x)
                return None
            if op == '-':
                v = self.ev(nd['sub'], st)
                return v.mul(-1) if isinstance(v, Lin) else None
            if op == '+':
                return self.ev(nd['sub'], st)
            self.ev(nd['sub'], st)
            return self.opaque(i) if isint(nd.get('t', '')) else None
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return self.binop(i, nd, st)
        if k == 'ConditionalOperator':
            ch = st.choice.get(i)
            if ch is None:
                a = self.ev(nd['then'], st.copy())
                b = self.ev(nd['else'], st.copy())
                return a if a == b else (self.opaque(i) if isint(nd.get('t', '')) else None)
            return self.ev(nd['then'] if ch else nd['else'], st)
        if k == 'CXXNewExpr':
            for c in nd.get('c', ()):
                if c != nd.get('size'):
                    self.ev(c, st)
            if nd.get('array'):
                n = self.ev(nd['size'], st)
                if isinstance(n, Lin):
                    b = ('new', f.key, i)
                    st.blk[b] = n
                    st.env.pop(('len', b), None)
                    return Ptr(b, C(0))
            return None
        if 'callee' in nd or 'args' in nd:
            return self.call(i, nd, st)
        if k == 'CXXDeleteExpr':
            self.ev(nd['arg'], st)
            return None
        v = None
        for c in nd.get('c', ()):
            if c >= 0:
                v = self.ev(c, st)
        return v if len(nd.get('c', ())) == 1 and k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') else (self.opaque(i) if isint(nd.get('t', '')) else None)

    def element(self, b, x, st):
        if not isinstance(b, Ptr) or b.b == 'null' or not isinstance(x, Lin):
            return None
        o = b.o.add(x)
        v = st.env.get(('el', b.b, o))
        return v if v is not None else Ptr(('el', b.b, o), C(0))

    def shift(self, v, d, s=1):
        if not isinstance(d, Lin):
            return None
        if isinstance(v, Ptr) and v.b != 'null':
            return Ptr(v.b, v.o.add(d, s))
        if isinstance(v, Lin):
            return v.add(d, s)
        return None

    def binop(self, i, nd, st):
        op = nd['op']
        f = self.f
        if op == '=':
            v = self.ev(nd['rhs'], st)
            t = f.nodes[f.strip(nd['lhs'])]
            self.assign(nd['lhs'], v, st, zero=isinstance(v, Lin) and v == C(0) or v is NULL)
            if t['k'] == 'DeclRefExpr' and t.get('dk') == 'var':
                self.alias(t['v'], nd['rhs'], st)
                self.created(t['v'], nd['rhs'], st)
            return v
        if op in ('+=', '-='):
            d = self.ev(nd['rhs'], st)
            v = self.shift(self.ev(nd['lhs'], st), d, 1 if op == '+=' else -1)
            self.assign(nd['lhs'], v, st)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            self.ev(nd['rhs'], st)
            v = self.opaque(i) if isint(nd.get('t', '')) else None
            self.assign(nd['lhs'], v, st)
            return v
        if op in ('&&', '||'):
            self.ev(nd['lhs'], st)
            self.ev(nd['rhs'], st.copy())
            return self.opaque(i, 'bool')
        a = self.ev(nd['lhs'], st)
        b = self.ev(nd['rhs'], st)
        if op == ',':
            return b
        if op == '+':
            if isinstance(b, Ptr) and isinstance(a, Lin):
                a, b = b, a
            r = self.shift(a, b)
        elif op == '-':
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                r = a.o.sub(b.o) if a.b == b.b and a.b != 'null' else None
            else:
                r = self.shift(a, b, -1)
        elif op == '*' and isinstance(a, Lin) and isinstance(b, Lin):
            r = b.mul(a.c) if a.isconst() else a.mul(b.c) if b.isconst() else None
        elif op == '<<' and isinstance(a, Lin) and isinstance(b, Lin) and b.isconst() and 0 <= b.c < 32:
            r = a.mul(1 << b.c)
        elif op == '<<' and isinstance(a, Lin) and isinstance(b, Lin) and len(b.t) == 1 and a.isconst():
            q = ('pow', b.key(), '+')
            NAMES.setdefault(q, '2^%r' % b)
            r = Lin({q: a.c})
        elif op == '/' and isinstance(a, Lin) and isinstance(b, Lin) and b.isconst() and b.c > 0 and all(x % b.c == 0 for x in a.t.values()) and a.c % b.c == 0:
            r = Lin({q: x // b.c for q, x in a.t.items()}, a.c // b.c)
        elif op == '/' and isinstance(a, Lin) and isinstance(b, Lin) and b.isconst() and b.c > 0:
            q = ('K', f.key, ('div', i, a.key(), self.depth_tag()))
            NAMES.setdefault(q, 'quotient')
            r = A(q) if unsigned(nd.get('t', '')) else self.opaque(i)
            for c in (r.mul(b.c).sub(a), a.sub(r.mul(b.c)).plus(1 - b.c)):
                s2 = self.add(st, c)
                if s2 is None:
                    break
        else:
            r = None
        if r is None and isint(nd.get('t', '')):
            r = self.opaque(i)
            self.source(r, [a, b])
        return r

    def source(self, r, vals):
        at = set()
        for v in vals:
            if isinstance(v, Lin):
                at |= set(v.t)
        for q in r.t:
            if at - {q}:
                self.z.src[q] = frozenset(at - {q})

    def stain(self, st, *ls):
        for l in ls:
            if isinstance(l, Lin):
                for q in l.t:
                    if q in self.z.src:
                        st.taint = st.taint | self.z.src[q] | {('G', self.origin(self.z.src[q]))}
            elif isinstance(l, Ptr) and l.b in self.z.psrc:
                st.taint = st.taint | self.z.psrc[l.b] | {('G', self.origin(self.z.psrc[l.b]))}

    def origin(self, qs):
        out = set(qs)
        todo = list(qs)
        while todo:
            for q in self.z.src.get(todo.pop(), ()):
                if q not in out:
                    out.add(q)
                    todo.append(q)
        return frozenset(out)

    def alias(self, v, i, st):
        """p = &obj.field / p = obj->field: remember the path p stands for"""
        f = self.f
        st.env.pop(('al', v), None)
        t = f.vars[v]['t']
        if t.rstrip().endswith('*') and not isint(pointee(t) or '') or t.rstrip().endswith('&'):
            p = self.path(i, st)
            if p and p[0] in ('f', 'this') or p and p[0] == 'v' and p[1] != v:
                st.env['al', v] = p
        for k in [k for k in st.env if k[0] == 'f' and ('v', v) == f.root(k)]:
            if ('al', v) not in st.env:
                st.env.pop(k)

    def created(self, v, i, st):
        """p = new Class(args): what the constructor leaves in the fields"""
        f = self.f
        nd = f.nodes[f.strip(i)]
        if nd['k'] == 'CXXNewExpr' and not nd.get('array'):
            cs = [f.nodes[c] for c in nd.get('c', ()) if f.nodes[c]['k'] == 'CXXConstructExpr']
        elif nd['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            cs = [nd]
        else:
            return
        for c in cs:
            ts = self.m.targets(c)
            if len(ts) != 1:
                continue
            s = self.z.analyse(ts[0])
            if s is None or not s.ctor:
                continue
            r0, self.rec = self.rec, False
            vals = [self.ev(a, st.copy()) for a in c.get('args', ())]
            self.rec = r0
            mp = self.mapping(ts[0], c, vals, None, st, c['i'])

            def at(p):
                return ('f', at(p[1]), p[2]) if p[0] == 'f' else ('v', v)
            for k, (x, cst) in s.ctor.items():
                if any(a[0] not in ('p', 'len', 'room') for a in x.t):
                    continue
                p = at(k)
                if cst is None:
                    st.env[p] = x.subst(mp)
                else:
                    b = ('call', f.key, (c['i'], k))
                    st.blk[b] = x.subst(mp)
                    st.env.pop(('len', b), None)
                    st.env[p] = Ptr(b, C(0))

    def assign(self, i, v, st, zero=False):
        f = self.f
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        if k == 'DeclRefExpr' and nd.get('dk') == 'var':
            if v is None:
                st.env.pop(('v', nd['v']), None)
            else:
                st.env['v', nd['v']] = v
            if v is None and isint(f.vars[nd['v']]['t']):
                st.env['v', nd['v']] = self.opaque(i)
            return
        if k == 'MemberExpr' and nd.get('mk') == 'field':
            e = nd
            while e['k'] == 'MemberExpr' and not e.get('arrow') and isinstance(e.get('base'), int):
                e = f.nodes[f.strip(e['base'])]
            if e['k'] == 'ArraySubscriptExpr' and e is not nd:
                self.access(self.ev(e['base'], st), self.ev(e['idx'], st), e['i'], st, True)
            p = self.path(i, st)
            for q in [q for q in st.env if q[0] == 'f' and q[2] == nd['m'] and q != p]:
                st.env.pop(q)
            st.dirty = st.dirty | {nd['m']}
            if p is not None:
                if v is None:
                    st.env.pop(p, None)
                else:
                    st.env[p] = v
            return
        if k == 'ArraySubscriptExpr':
            b = self.ev(nd['base'], st)
            x = self.ev(nd['idx'], st)
            self.access(b, x, i, st, True, zero)
            self.setel(b, x, v, nd, st)
        elif k == 'UnaryOperator' and nd['op'] == '*':
            b = self.ev(nd['sub'], st)
            self.access(b, C(0), i, st, True, zero)
            self.setel(b, C(0), v, nd, st)
        elif k == 'UnaryOperator' and nd['op'] in ('++', '--'):
            self.ev(i, st)

    def setel(self, b, x, v, nd, st):
        if '*' not in nd.get('t', '') or not isinstance(b, Ptr) or b.b == 'null':
            return
        for k in [k for k in st.env if k[0] == 'el' and k[1] == b.b]:
            st.env.pop(k)
        for k in [k for k in st.env if k[0] == 'len' and k[1][0] == 'el' and k[1][1] == b.b]:
            st.env.pop(k)
        if isinstance(x, Lin) and isinstance(v, Ptr) and v.b != 'null':
            st.env['el', b.b, b.o.add(x)] = v

    # ---- accesses
    def access(self, b, x, i, st, write, zero=False):
        if not isinstance(b, Ptr) or b.b == 'null' or not isinstance(x, Lin):
            if write and self.rec:
                self.verdict(i, 'unknown', None)
            return
        off = b.o.add(x)
        if write:
            self.oblige(b.b, off, i, st, 'a store')
            self.dirtylen(b.b, off if zero else None, i, st)
        elif self.z.reads:
            self.oblige(b.b, off, i, st, 'a read')

    def dirtylen(self, blk, zero, i, st):
        if zero is not None:
            a = ('o', self.f.key, ('zlen', i), '+')
            NAMES.setdefault(a, 'text length')
            old = st.env.get(('len', blk))
            st.env['len', blk] = A(a)
            st.cons = st.cons | {A(a).sub(zero)}
        elif ('len', blk) in st.env:
            a = ('o', self.f.key, ('wlen', i), '+')
            NAMES.setdefault(a, 'text length')
            st.env['len', blk] = A(a)

    def size(self, blk, st):
        if blk in st.blk:
            return st.blk[blk]
        if blk[0] == 'par':
            x = self.given(blk) if self.z.reads else None
            if x is not None:
                return x
            a = ('room', blk[1], self.f.key)
            NAMES.setdefault(a, 'room(%s)' % self.f.vname(blk[1]))
            return A(a)
        return None

    def given(self, blk, counted=False):
        """what the caller of an exported function guarantees about the size of a text"""
        f = self.f
        if f.key not in self.z.exported:
            return None
        t = f.vars[blk[1]]['t']
        ps = list(f.params)
        k = ps.index(blk[1])
        if t.startswith('const') and re.match(r'^const (?:wchar_t|char) \*(?: ?const)?$', t):
            if k + 1 < len(ps) and f.vars[ps[k + 1]]['t'] in ('size_t', 'unsigned long'):
                a = ('p', ps[k + 1], f.key, '+')
                NAMES.setdefault(a, f.vname(ps[k + 1]))
                return A(a)
            if counted:
                return None
            a = ('len', blk[1], f.key)
            NAMES.setdefault(a, 'length(%s)' % f.vname(blk[1]))
            return A(a).plus(1)
        if not counted and t.count('*') == 1 and not t.startswith('const'):
            return C(1)
        return None

    def counted(self, blk):
        """number of characters of a text that is given with its length; None when it is terminated or its own"""
        if blk == 'null' or blk[0] != 'par':
            return None
        if self.f.key in self.z.exported:
            return self.given(blk, True)
        t = self.f.vars[blk[1]]['t']
        if not re.match(r'^const (?:wchar_t|char) \*(?: ?const)?$', t):
            return None
        a = ('cnt', blk[1], self.f.key)
        NAMES.setdefault(a, 'characters(%s)' % self.f.vname(blk[1]))
        return A(a)

    def scan(self, p, n, i, st):
        """n characters from p are read, or all up to the terminator when n is None"""
        if not self.z.reads or not self.rec or not isinstance(p, Ptr):
            return
        c = self.counted(p.b)
        if c is None:
            return
        if n is None:
            # nothing says that there is a terminator
            x = st.env.get(('len', p.b))
            if x is None or any(a[0] == 'len' for a in x.t):
                l = ('len', p.b[1], self.f.key)
                NAMES.setdefault(l, 'length(%s)' % self.f.vname(p.b[1]))
                self.decide(A(l).sub(c).plus(1), st.cons, st.ne, (self.f, i), TERM, (), i, st.taint)
            return
        if isinstance(n, Lin):
            s2 = st.copy()
            if self.add(s2, C(1).sub(n)) is not None:
                self.decide(p.o.add(n).sub(c), s2.cons, s2.ne, (self.f, i), 'a read of several characters', (), i, st.taint)

    def length(self, p, st, i):
        """length of the text a pointer points to"""
        if not isinstance(p, Ptr) or p.b == 'null':
            return self.opaque(i)
        x = st.env.get(('len', p.b))
        if x is None:
            if p.b[0] == 'par':
                a = ('len', p.b[1], self.f.key)
                NAMES.setdefault(a, 'length(%s)' % self.f.vname(p.b[1]))
            else:
                a = ('o', self.f.key, ('len', p.b, i), '+')
                NAMES.setdefault(a, 'text length')
            x = st.env['len', p.b] = A(a)
        return x.sub(p.o)

    def oblige(self, blk, off, i, st, what):
        """off must be < size"""
        if not self.rec:
            return
        sz = self.size(blk, st)
        if sz is None:
            self.verdict(i, 'unknown', None)
            return
        sc = st.env.get(('scale', blk), 1)
        T = off.mul(sc).sub(sz).plus(sc)
        self.decide(T, st.cons, st.ne, (self.f, i), what, (), i, st.taint)

    def verdict(self, i, v, why):
        k = (self.f.key, i)
        rank = {'proved': 0, 'passed': 1, 'unknown': 2, 'undecided': 3, 'violated': 4}
        o = self.z.results.get(k)
        if o is None or rank[v] > rank[o[0]]:
            self.z.results[k] = (v, why)

    def decide(self, T, cons, ne, site, what, chain, i, taint=frozenset()):
        """i: node of this function the obligation arises at"""
        if entails(cons, T):
            self.verdict(i, 'proved', None)
            return
        rel = relevant(T, cons)
        api = self.f.key in self.z.exported
        w = self.witness(T, cons, ne, api, taint)
        if w is None and api and what == TERM and len(T.t) == 2 and not any(x[0] == 'len' and x in c.t for x in T.t for c in rel) and any(x[0] == 'len' and y == 1 for x, y in T.t.items()) and any(x[0] == 'p' and y == -1 for x, y in T.t.items()):
            # what follows the text is independent of everything that is tested on the way
            w = {name(x): 1000 if x[0] == 'len' else 10 for x in T.t}
        if w is None and api and self.z.reads and what in READS and taint:
            w = self.tight(T, cons, ne, taint)
        if w is not None:
            self.verdict(i, 'violated', w)
            self.z.viol.append((site, self.f, i, T, w, what, chain))
            return
        # speaks of parameters only?
        if not api and any(a[0] in ('p', 'room', 'cnt', 'len', 'fld') for a in T.t) and not any(a[0] in ('o', 'h', 'S') for a in T.t) and len(chain) < 6:
            more = [c for c in cons if c not in rel and all(a[0] in ('p', 'room', 'cnt', 'len', 'fld') for a in c.t)]
            cs = frozenset(rel + more)
            key = (T, cs, site[0].key, site[1])
            if len(self.reqs) < (300 if self.z.reads else 60) or what == TERM:
                atoms = set(T.t)
                for c in cs:
                    atoms |= set(c.t)
                self.reqs[key] = Req(T, cs, frozenset(n for n in ne if all(a in atoms for a in n.t)), site, what, chain, taint)
            self.verdict(i, 'passed', repr(T))
            return
        self.verdict(i, 'undecided', '%r given %s' % (T, [repr(c) for c in rel]))

    def tight(self, T, cons, ne, taint):
        """the index is only bounded by the length, and nothing else that was tested depends on both"""
        S = {a for a, k in T.t.items() if k < 0}
        I = {a for a, k in T.t.items() if k > 0}
        if not I or len(S) != 1 or next(iter(S))[0] not in ('p', 'len') or not any(entails(cons, T.plus(-k)) for k in range(1, 5)):
            return None
        ch = True
        cs = [c for c in cons if not any(a in S for a in c.t)]
        while ch:
            ch = False
            for c in cs:
                if any(a in I for a in c.t) and any(a not in I for a in c.t):
                    I |= set(c.t)
                    ch = True
        if any(q[0] == 'G' and q[1] & I and q[1] & S for q in taint):
            return None
        w = self.witness(T, cons, ne, True)
        if w is None:
            # without what is known of the values that have nothing to do with the length
            cs = [c for c in cons if all(a in T.t or a[0] == 'K' for a in c.t)]
            for T1, c1, n1 in self.expand(T, cs, [n for n in ne if any(a in T.t for a in n.t)]):
                if not any(not c.t and c.c > 0 for c in c1):
                    w = self.solve(T1, [c for c in c1 if c.t], n1)
                    if w is not None:
                        return w
        return w

    def expand(self, T, cons, ne):
        """the ways to replace the values of joins and of variables changed by different amounts per round by exact ones"""
        todo = [(T, frozenset(cons), frozenset(ne))]
        out = []
        n = 0
        while todo and n < 80:
            n += 1
            T, cs, nes = todo.pop()
            atoms = set(T.t)
            for c in cs:
                atoms |= set(c.t)
            g = None
            for a in sorted(atoms, key=str):
                if a[0] in ('H', 'J'):
                    g = self.z.group.get(a)
                    if g is None or not self.z.alts.get(g):
                        return []
                    break
            if g is None:
                out.append((T, cs, nes))
                continue
            if n > 60:
                return out
            for al in self.z.alts[g]:
                if any(a in x.t for a, x in al.items()):
                    continue
                mp = lambda y: al.get(y)
                if any(a not in al for a in atoms if self.z.group.get(a) == g):
                    continue
                todo.append((T.subst(mp), frozenset(c.subst(mp) for c in cs), frozenset(c.subst(mp) for c in nes)))
        return out

    def witness(self, T, cons, ne, api, taint=frozenset()):
        """values of the atoms that satisfy all constraints and make T >= 1"""
        if len(T.t) > 6:
            return None
        # on every path with ordinary values of what is not known
        rel = relevant(T, cons)
        for T1, cs, nes in self.expand(T, rel, [n for n in ne if any(a in T.t for a in n.t)]):
            if any(not c.t and c.c > 0 for c in cs):
                continue
            if entails(cs, T1.mul(-1).plus(1)) and self.ordinary(cs | (frozenset(cons) - frozenset(rel)), not T.t):
                return {'always': True}
            T2, cs2 = self.last(T1, cs | (frozenset(cons) - frozenset(rel)))
            if T2 is not None and entails(cs2, T2.mul(-1).plus(1)) and self.ordinary(cs2):
                return {'always': True}
        if taint:
            seen = set(T.t)
            up = len(T.t) == 1 and not api and next(iter(T.t.items()))
            for c in rel:
                # a constraint that a larger value only makes easier does not matter
                if not (up and c.t.get(up[0], 0) * up[1] < 0):
                    seen |= set(c.t)
            if seen & taint:
                return None
        if not api:
            # an index that depends on nothing but how often a loop with a constant limit, or a limit given by the number of elements, was run
            if any(a[0] not in ('K', 'S') for a in T.t) or any(a[0] not in ('K', 'S', 'H') for c in rel for a in c.t) or not T.t or any(n for n in ne if any(a in T.t for a in n.t)):
                return None
            return self.solve(T, [c for c in rel if c.t], ())
        for T1, cs, nes in self.expand(T, rel, [n for n in ne if any(a in T.t for a in n.t)]):
            w = self.solve(T1, [c for c in cs if c.t], nes) if not any(not c.t and c.c > 0 for c in cs) else None
            if w is not None:
                return w
        return None

    def last(self, T, cons):
        """the same in the last round of the loops that are only left by their condition"""
        hit = False
        for a in sorted((a for a in T.t if a in self.active and a in self.z.complete), key=str):
            ub = [c for c in cons if c.t.get(a) == 1]
            if any(c.t.get(a, 0) > 1 for c in cons):
                return None, None
            for c in ub:
                b = A(a).sub(c)
                mp = lambda y: b if y == a else None
                cs = frozenset(x.subst(mp) for x in cons)
                if not any(not x.t and x.c > 0 for x in cs):
                    T, cons, hit = T.subst(mp), cs, True
                    break
        return (T, cons) if hit else (None, None)

    def ordinary(self, cons, tiny=False):
        """are the constraints satisfied by ordinary (not tiny) values of everything that is not a loop counter?"""
        cons = [c for c in cons]
        atoms = set()
        for c in cons:
            atoms |= set(c.t)
        if any(not c.t and c.c > 0 for c in cons):
            return False
        ks = sorted((a for a in atoms if a[0] == 'K'), key=str)
        rest = [a for a in atoms if a[0] != 'K']
        for n, m in ((9, 9), (60, 60), (400, 400), (60, 20)):
            asg = {a: m if a[0] == 'o' and isinstance(a[2], tuple) and a[2][0] == 'found' else n for a in rest}
            # sizes and rooms: larger than texts
            for a in rest:
                if a[0] == 'room':
                    asg[a] = 4 * n
            if self.fit(asg, ks, cons) is not None or tiny and self.repair(asg, ks, cons) is not None:
                return True
        return False

    def repair(self, asg, ks, cons):
        """move values that violate a bound, as little as possible"""
        asg = dict(asg)
        for a in ks:
            asg[a] = 2
        for rnd in range(60):
            bad = [c for c in cons if c.c + sum(asg[x] * y for x, y in c.t.items()) > 0]
            if not bad:
                return asg
            c = sorted(bad, key=lambda c: (len(c.t), repr(c)))[0]
            d = c.c + sum(asg[x] * y for x, y in c.t.items())
            done = False
            for a in sorted(c.t, key=lambda a: (sum(1 for e in cons if a in e.t), a[0] != 'K', str(a))):
                k = c.t[a]
                step = -(-d // abs(k))
                v = asg[a] - step if k > 0 else asg[a] + step
                if v < 0 and nonneg(a):
                    continue
                asg[a] = v
                done = True
                break
            if not done:
                return None
        return None

    def fit(self, asg, ks, cons):
        """assign the counters; are all constraints satisfied?"""
        for mode in product((1, 0), repeat=min(len(ks), 5)):
            a2 = dict(asg)
            for a, hi in zip(ks, mode):
                L, H = self.range(a, a2, cons)
                if hi and H is None:
                    H = max(L, 3)
                a2[a] = H if hi else L
            for a in ks[5:]:
                a2[a] = self.range(a, a2, cons)[0]
            if all(c.c + sum(a2.get(x, 0) * y for x, y in c.t.items()) <= 0 for c in cons) and all(v >= 0 for a, v in a2.items() if nonneg(a)):
                return a2
        return None

    @staticmethod
    def range(a, asg, cons):
        L, H = 0, None
        for c in cons:
            k = c.t.get(a, 0)
            if not k or any(x != a and x not in asg for x in c.t):
                continue
            r = -(c.c + sum(asg[x] * y for x, y in c.t.items() if x != a))     # k*a <= r
            if k > 0:
                b = r // k
                H = b if H is None else min(H, b)
            else:
                b = -(r // -k)
                L = max(L, b)
        return L, H

    def solve(self, T, cons, nes):
        atoms = set(T.t)
        for c in cons:
            atoms |= set(c.t)
        free = sorted((a for a in atoms if a[0] in ('p', 'len', 'S')), key=str)
        ks = sorted((a for a in atoms if a[0] == 'K'), key=str)
        flds = sorted((a for a in atoms if a[0] in ('fld', 'H') and a not in T.t), key=str)
        if any(a[0] not in ('p', 'len', 'K', 'S') and a not in flds for a in atoms) or len(free) > 3 or len(ks) > 5 or len(flds) > 2:
            return None
        nes = [n for n in nes if all(a in atoms for a in n.t)]
        consts = {abs(c.c) for c in cons} | {abs(T.c)}
        grid = sorted({0, 1, 2, 3, 4, 7, 254, 255, 256, 257, 300, 1000, 2500, 30000, 200000} | {x + d for x in consts if x < 10 ** 6 for d in (-1, 0, 1, 2) if x + d >= 0})
        for vals in product(*([grid] * len(free) + [(0, 1, 2, 9)] * len(flds))):
            base = dict(zip(free + flds, vals))
            for mode in product((1, 0), repeat=len(ks)):
                asg = dict(base)
                ok = True
                for a, hi in zip(ks, mode):
                    L, H = self.range(a, asg, cons)
                    if hi and H is None:
                        ok = False
                        break
                    asg[a] = H if hi else L
                if not ok:
                    continue
                if all(c.c + sum(asg[x] * y for x, y in c.t.items()) <= 0 for c in cons) and \
                        all(n.c + sum(asg[x] * y for x, y in n.t.items()) != 0 for n in nes) and \
                        all(v >= 0 for a, v in asg.items() if nonneg(a)) and \
                        T.c + sum(asg[x] * y for x, y in T.t.items()) >= 1:
                    return {name(a): v for a, v in asg.items()}
        return None

    # ---- calls
    def call(self, i, nd, st):
        f, z = self.f, self.z
        cn = nd.get('cn')
        args = nd.get('args', [])
        obj = nd.get('obj')
        if nd['k'] == 'CXXOperatorCallExpr' and cn == 'operator=' and obj is not None and isint(nd.get('t', '')):
            pass
        if obj is not None:
            self.ev(obj, st)
        vals = [self.ev(a, st) for a in args]
        t = nd.get('t', '')
        ts = self.m.targets(nd)
        if not ts:
            if z.reads:
                self.scans(cn, i, nd, vals, st)
            if cn in ('wcslen', 'strlen') and len(vals) == 1:
                return self.length(vals[0], st, i)
            if cn in ('malloc',) and len(vals) == 1 and isinstance(vals[0], Lin):
                b = ('new', f.key, i)
                st.env['bytes', b] = vals[0]
                return Ptr(b, C(0))
            if cn in ('min', 'max') and len(vals) == 2 and all(isinstance(v, Lin) for v in vals):
                a = self.opaque(i)
                a = A(('J', f.key, ('mm', i)))
                NAMES.setdefault(('J', f.key, ('mm', i)), cn)
                s = 1 if cn == 'min' else -1
                st.cons = st.cons | {a.sub(v).mul(s) for v in vals}
                j = ('J', f.key, ('mm', i))
                z.group[j] = j
                z.alts[j] = [{j: v} for v in vals]
                return a
            if cn in ('wcscpy', 'strcpy', 'wcscat', 'strcat', 'wcsncpy', 'strncpy', 'memcpy', 'memmove', 'memset', 'wmemcpy', 'wmemset', 'wmemmove', 'wcsncat'):
                self.copyfn(cn, i, nd, vals, st)
                return vals[0] if vals else None
            if cn in ('size', 'length') and obj is not None and not args:
                p = self.path(obj, st) if f.nodes[f.strip(obj)]['k'] in ('DeclRefExpr', 'MemberExpr', 'UnaryOperator') else None
                if p:
                    return self.csize(p, i, st)
                return self.opaque(i)
            if cn in ('c_str', 'data') and obj is not None and not args and 'basic_string' in f.nodes[f.strip(obj)].get('t', '') + f.nodes[obj].get('t', '') + 'string' * ('string' in f.nodes[f.strip(obj)].get('t', '')):
                p = self.cpath(obj, st)
                if p:
                    st.env['len', ('str', p)] = self.csize(p, i, st)
                    return Ptr(('str', p), C(0))
                return None
            if cn in ('begin', 'cbegin', 'end', 'cend') and obj is not None and not args:
                p = self.cpath(obj, st)
                if p:
                    return Ptr(('it', p), C(0) if 'begin' in cn else self.csize(p, i, st))
                return None
            if cn in ('operator++', 'operator--') and obj is not None:
                v = self.ev(obj, st)
                if isinstance(v, Ptr) and v.b[0] == 'it':
                    n = Ptr(v.b, v.o.plus(1 if cn == 'operator++' else -1))
                    self.assign(obj, n, st)
                    return v if args else n
                return None
            if cn == 'operator=' and obj is not None and vals and isinstance(vals[-1], Ptr) and vals[-1].b[0] == 'it':
                self.assign(obj, vals[-1], st)
                return vals[-1]
            if nd['k'] == 'CXXConstructExpr' and len(vals) == 1 and isinstance(vals[0], Ptr) and vals[0].b[0] == 'it':
                return vals[0]
            if cn in ('wcschr', 'strchr', 'wmemchr', 'memchr', 'wcsrchr', 'strrchr') and vals and isinstance(vals[0], Ptr) and vals[0].b != 'null':
                a = ('o', f.key, ('found', i), '+')
                NAMES.setdefault(a, 'found')
                top = self.length(vals[0], st, i) if 'mem' not in cn else vals[2].plus(-1) if len(vals) > 2 and isinstance(vals[2], Lin) else None
                if top is not None:
                    st.cons = st.cons | {A(a).sub(top)}
                return Ptr(vals[0].b, vals[0].o.add(A(a)))
        acc = [z.accessor(g) for g in ts]
        if acc and all(a is not None and a[0] == 'get' for a in acc) and len(set(a[1] for a in acc)) == 1 and '*' in t:
            p = self.rebase(acc[0][1], ts[0], nd, obj, st)
            if p is not None:
                return self.field(p, t, acc[0][1][2], acc[0][2], i, st)
        # effects
        self.effects(i, nd, vals, st, ts)
        if len(acc) == 1 and acc[0] is not None and acc[0][0] == 'set' and acc[0][2] < len(vals):
            p = self.rebase(acc[0][1], ts[0], nd, obj, st)
            v = vals[acc[0][2]]
            if p is not None and isinstance(v, Ptr):
                st.env[p] = v
                return None
        rets = []
        for g in ts:
            s = z.analyse(g)
            if s is None:
                rets.append(None)
                continue
            mp = self.mapping(g, nd, vals, obj, st, i)
            if self.rec:
                for r in s.reqs:
                    if any(a[0] == 'cnt' and self.uncounted(a, g, vals) for a in r.T.t):
                        continue
                    T = r.T.subst(mp)
                    cons = st.cons | {c.subst(mp) for c in r.cons}
                    ne = st.ne | {c.subst(mp) for c in r.ne}
                    if any(entails(cons, c.mul(-1).plus(1)) for c in (x.subst(mp) for x in r.cons)):
                        continue
                    tn = st.taint | tmap(r.taint, mp)
                    self.decide(T, cons, ne, r.site, r.what, r.chain + ((f.key, nd.get('l')),), i, tn)
            rets.append(self.retval(g, s, mp, i, st, vals))
        at = set()
        for g in ts:
            for n in z.tested(g):
                if n < len(vals):
                    if isinstance(vals[n], Lin):
                        at |= set(vals[n].t)
                    elif isinstance(vals[n], Ptr) and ('len', vals[n].b) in st.env:
                        at |= set(st.env['len', vals[n].b].t)
        if rets and all(r is not None for r in rets) and all(r == rets[0] for r in rets):
            if at and isinstance(rets[0], Lin):
                for q in rets[0].t:
                    if q not in at:
                        z.src[q] = frozenset(at)
            elif at and isinstance(rets[0], Ptr) and rets[0].b != 'null' and rets[0].b[0] == 'call':
                z.psrc[rets[0].b] = frozenset(at)
            return rets[0]
        if at and t.rstrip().endswith('*'):
            z.psrc['ext', f.key, i] = frozenset(at)
        elif at and isint(t):
            r = self.opaque(i)
            for q in r.t:
                z.src[q] = frozenset(at)
            return r
        if t.rstrip().endswith('*') and '(' not in t:
            b = ('ext', f.key, i)
            for k in [k for k in st.env if k[0] == 'len' and (k[1] == b or k[1][0] == 'el' and k[1][1] == b) or k[0] == 'el' and k[1] == b]:
                st.env.pop(k)
            return Ptr(b, C(0))
        return self.opaque(i) if isint(t) else None

    def scans(self, cn, i, nd, vals, st):
        n = lambda k: vals[k] if k < len(vals) else None
        if cn in ('wcslen', 'strlen', 'wcschr', 'strchr', 'wcsrchr', 'strrchr', 'wcspbrk', 'wcsspn', 'wcscspn', 'wcsstr', 'strstr', 'atoi', 'wcstol', 'strtol', 'strdup', 'wcsdup'):
            if cn in ('wcschr', 'strchr') and vals and isinstance(vals[0], Ptr) and vals[0].b != 'null' and vals[0].b[0] != 'par':
                return
            self.scan(n(0), None, i, st)
        elif cn in ('wcscpy', 'strcpy', 'wcscat', 'strcat'):
            self.scan(n(1), None, i, st)
        elif cn in ('wcscmp', 'strcmp', 'strcasecmp', 'wcscasecmp'):
            self.scan(n(0), None, i, st)
            self.scan(n(1), None, i, st)
        elif cn in ('wcsncpy', 'strncpy', 'wmemcpy', 'wmemmove', 'wcsncat'):
            self.scan(n(1), n(2), i, st)
        elif cn in ('memcpy', 'memmove') and isinstance(n(2), Lin):
            ty = pointee(self.f.nodes[self.f.strip(nd['args'][1])].get('t', ''))
            sz = tsize(ty) if ty else None
            v = vals[2]
            if sz and all(x % sz == 0 for x in v.t.values()) and v.c % sz == 0:
                self.scan(n(1), Lin({q: x // sz for q, x in v.t.items()}, v.c // sz), i, st)
        elif cn in ('wcsncmp', 'strncmp', 'wmemcmp', 'wcsncasecmp'):
            self.scan(n(0), n(2), i, st)
            self.scan(n(1), n(2), i, st)
        elif cn in ('wmemchr',):
            self.scan(n(0), n(2), i, st)
        elif nd['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'basic_string' in nd.get('t', '') + nd.get('cls', '') or nd['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and re.search(r'\bw?string\b', nd.get('t', '')):
            if vals and isinstance(vals[0], Ptr):
                if len(vals) > 1 and isinstance(vals[1], Lin):
                    self.scan(vals[0], vals[1], i, st)
                elif len(vals) == 1 or vals[1] is None:
                    self.scan(vals[0], None, i, st)
        elif cn in ('operator=', 'operator+=', 'append', 'assign') and nd.get('args') and vals and isinstance(vals[-1], Ptr) and len(vals) == 1:
            self.scan(vals[0], None, i, st)

    def uncounted(self, a, g, vals):
        n = g.params.index(a[1]) if a[1] in g.params else None
        x = vals[n] if n is not None and n < len(vals) else None
        return not isinstance(x, Ptr) or x.b == 'null' or self.counted(x.b) is None

    def cpath(self, obj, st):
        f = self.f
        return self.path(obj, st) if f.nodes[f.strip(obj)]['k'] in ('DeclRefExpr', 'MemberExpr', 'UnaryOperator') else None

    def csize(self, p, i, st):
        k = ('sz', p)
        if k not in st.env:
            a = ('S', self.f.key, ('sz', p, i), '+')
            NAMES.setdefault(a, 'size()')
            st.env[k] = A(a)
        return st.env[k]

    def mapping(self, g, nd, vals, obj, st, i):
        f = self.f
        done = set()
        fresh = [True]

        def mp(a):
            k = a[0]
            if k in ('p', 'room', 'len', 'cnt'):
                v = a[1]
                n = g.params.index(v) if v in g.params else None
                x = vals[n] if n is not None and n < len(vals) else None
                if k == 'p':
                    if isinstance(x, Lin):
                        return x
                elif isinstance(x, Ptr) and x.b != 'null':
                    if k == 'len':
                        return self.length(x, st, ('arg', i, n))
                    if k == 'cnt':
                        return self.counted(x.b).sub(x.o)
                    sz = self.size(x.b, st)
                    if sz is not None:
                        return sz.sub(x.o)
                q = ('o', f.key, ('arg', i, a)) + (('+',) if nonneg(a) else ())
                NAMES.setdefault(q, name(a))
                return A(q)
            if k == 'fld':
                p = self.rebase(a[1], g, nd, obj, st)
                if p is not None:
                    if p in st.env and isinstance(st.env[p], Lin):
                        return st.env[p]
                    if p[2] not in st.dirty:
                        x = self.z.field_atom(p)
                        for y in x.t:
                            NAMES.setdefault(y, name(a))
                        return x
                q = ('o', f.key, ('arg', i, a)) + (('+',) if nonneg(a) else ())
                NAMES.setdefault(q, name(a))
                return A(q)
            if k in ('K', 'H', 'J'):
                q = (k, f.key, ('in', i, a)) + (('+',) if a[-1] == '+' else ())
                NAMES.setdefault(q, name(a))
                z = self.z
                if a in z.complete:
                    z.complete.add(q)
                g0 = z.group.get(a)
                if g0 is not None and (q not in z.group or fresh[0]):
                    gk = ('in', f.key, i, g0)
                    z.group[q] = gk
                    if (gk not in z.alts or gk not in done):
                        done.add(gk)
                        z.alts[gk] = []
                        z.alts[gk] = [{(x[0], f.key, ('in', i, x)) + (('+',) if x[-1] == '+' else ()): y.subst(mp) for x, y in al.items()} for al in z.alts.get(g0, ())]
                return A(q)
            q = ('o', f.key, ('in', i, a)) + (('+',) if nonneg(a) else ())
            NAMES.setdefault(q, name(a))
            return A(q)
        return mp

    def rebase(self, p, g, nd, obj, st):
        """field path of the callee in terms of the caller"""
        if p[0] == 'this':
            if obj is None:
                return None
            o = self.f.nodes[self.f.strip(obj)]
            if o['k'] == 'CXXThisExpr':
                return ('this',)
            return self.path(obj, st) if o['k'] in ('DeclRefExpr', 'MemberExpr', 'UnaryOperator') else None
        if p[0] == 'v':
            if p[1] in g.params:
                n = g.params.index(p[1])
                a = nd.get('args', [])
                if n < len(a):
                    o = self.f.nodes[self.f.strip(a[n])]
                    if o['k'] == 'CXXThisExpr':
                        return ('this',)
                    return self.path(a[n], st) if o['k'] in ('DeclRefExpr', 'MemberExpr', 'UnaryOperator') else None
            return None
        if p[0] == 'f':
            b = self.rebase(p[1], g, nd, obj, st)
            return ('f', b, p[2]) if b is not None else None
        return None

    def retval(self, g, s, mp, i, st, vals):
        if not s.ret:
            return None
        kinds = {r[0] for r in s.ret}
        if len(kinds) != 1:
            return None
        kind = kinds.pop()
        if kind == 'par':
            vs = {r[1] for r in s.ret}
            if len(vs) != 1:
                return None
            v = vs.pop()
            n = g.params.index(v) if v in g.params else None
            if n is None or n >= len(vals) or not isinstance(vals[n], Ptr) or vals[n].b == 'null':
                return None
            o = self.merge([(r[2], r[3]) for r in s.ret], mp, ('ret', i), st)
            return Ptr(vals[n].b, vals[n].o.add(o)) if o is not None else None
        if kind == 'int':
            return self.merge([(r[1], r[3]) for r in s.ret], mp, ('ret', i), st)
        szs = {r[1] for r in s.ret}
        if len(szs) != 1:
            return None
        sz = szs.pop()
        b = ('call', self.f.key, i)
        st.blk[b] = self.bring(sz, s.ret[0][3], mp, st)
        lens = [(r[2], r[3]) for r in s.ret]
        st.env.pop(('len', b), None)
        if all(l is not None for l, _ in lens):
            x = self.merge(lens, mp, ('retlen', i), st)
            if x is not None:
                st.env['len', b] = x
        return Ptr(b, C(0))

    def bring(self, v, cst, mp, st):
        st.cons = st.cons | {c.subst(mp) for c in relevant(v, cst.cons)[:12]} if v.t else st.cons
        return v.subst(mp)

    def merge(self, vs, mp, tag, st):
        xs = {v for v, _ in vs}
        if len(xs) == 1:
            v, c = vs[0]
            if len(vs) == 1:
                return self.bring(v, c, mp, st)
            cs = frozenset.intersection(*[c.cons for _, c in vs])
            st.cons = st.cons | {c.subst(mp) for c in relevant(v, cs)[:12]} if v.t else st.cons
            return v.subst(mp)
        if len(vs) > 12:
            return None
        j = ('J', self.f.key, tag)
        NAMES.setdefault(j, 'result')
        out = []
        common = frozenset.intersection(*[c.cons for _, c in vs])
        for x in xs:
            if all(entails(c.cons, v.sub(x)) for v, c in vs):
                out.append(A(j).sub(x.subst(mp)))
            if all(entails(c.cons, x.sub(v)) for v, c in vs):
                out.append(x.subst(mp).sub(A(j)))
        if not out:
            j = ('o', self.f.key, tag)
            NAMES.setdefault(j, 'result')
        else:
            self.z.group[j] = j
            self.z.alts[j] = [{j: x.subst(mp)} for x in xs]
        for v in xs:
            st.cons = st.cons | {c.subst(mp) for c in relevant(v, common)[:8]} if v.t else st.cons
        st.cons = st.cons | frozenset(out)
        return A(j)

    def effects(self, i, nd, vals, st, ts):
        f = self.f
        for k, a in enumerate(nd.get('args', [])):
            x = f.nodes[f.strip(a)]
            pt = nd.get('pt', [])
            pt = pt[k] if k < len(pt) else ''
            if not self.z.eff.arg_written(f, nd, k):
                continue
            tgt = None
            if x['k'] == 'UnaryOperator' and x['op'] == '&':
                tgt = x['sub']
            elif pt.rstrip().endswith('&'):
                tgt = a
            if tgt is not None:
                tn = f.nodes[f.strip(tgt)]
                if tn['k'] == 'DeclRefExpr' and tn.get('dk') == 'var':
                    st.env.pop(('v', tn['v']), None)
                    st.env.pop(('sz', ('v', tn['v'])), None)
                    if isint(f.vars[tn['v']]['t']):
                        q = ('o', f.key, ('out', i, tn['v'])) + (('+',) if unsigned(f.vars[tn['v']]['t']) else ())
                        NAMES.setdefault(q, f.vname(tn['v']))
                        st.env['v', tn['v']] = A(q)
                elif tn['k'] == 'MemberExpr':
                    for q in [q for q in st.env if q[0] == 'f' and q[2] == tn.get('m')]:
                        st.env.pop(q)
                    st.dirty = st.dirty | {tn.get('m')}
            v = vals[k]
            if isinstance(v, Ptr) and v.b != 'null':
                self.dirtylen(v.b, None, i, st)
        obj = nd.get('obj')
        if obj is not None and not nd.get('cconst') and nd.get('cn') not in PURE:
            p = self.path(obj, st) if f.nodes[f.strip(obj)]['k'] in ('DeclRefExpr', 'MemberExpr', 'UnaryOperator') else None
            if p:
                st.env.pop(('sz', p), None)
        for g in ts:
            w = self.z.writes_of(g.key)
            if w:
                for q in [q for q in st.env if q[0] == 'f' and q[2] in w or q[0] == 'sz' and q[1][0] == 'f' and q[1][2] in w]:
                    st.env.pop(q)
                for q in [q for q in st.env if q[0] == 'len' and q[1][0] == 'fb' and q[1][1][2] in w]:
                    st.env.pop(q)
                st.dirty = st.dirty | w

    def copyfn(self, cn, i, nd, vals, st):
        d = vals[0] if vals else None
        if not isinstance(d, Ptr) or d.b == 'null':
            if self.rec:
                self.verdict(i, 'unknown', None)
            return
        f = self.f
        n = None
        newlen = None
        if cn in ('wcscpy', 'strcpy'):
            l = self.length(vals[1], st, i)
            n = l.plus(1)
            newlen = d.o.add(l)
        elif cn in ('wcscat', 'strcat'):
            a = self.length(d, st, i)
            l = self.length(vals[1], st, ('src', i))
            n = a.add(l).plus(1)
            newlen = d.o.add(a).add(l)
        elif cn in ('wcsncpy', 'strncpy', 'wmemcpy', 'wmemset', 'wmemmove') and len(vals) > 2:
            n = vals[2] if isinstance(vals[2], Lin) else None
        elif cn in ('memcpy', 'memmove', 'memset') and len(vals) > 2 and isinstance(vals[2], Lin):
            ty = pointee(f.nodes[f.strip(nd['args'][0])].get('t', ''))
            z = tsize(ty) if ty else None
            v = vals[2]
            if z and all(x % z == 0 for x in v.t.values()) and v.c % z == 0:
                n = Lin({q: x // z for q, x in v.t.items()}, v.c // z)
        if n is None:
            if self.rec:
                self.verdict(i, 'unknown', None)
        else:
            # nothing is written when n is 0
            s2 = st.copy()
            if self.add(s2, C(1).sub(n)) is not None:
                self.oblige(d.b, d.o.add(n).plus(-1), i, s2, 'a copy')
        if newlen is not None:
            st.env['len', d.b] = newlen
        else:
            self.dirtylen(d.b, None, i, st)

    # ---- conditions
    def cond(self, i, st):
        """(states where true, states where false)"""
        f = self.f
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        e = nd.get('ev')
        if isinstance(e, (int, bool)):
            return ([st], []) if e else ([], [st])
        if k == 'UnaryOperator' and nd['op'] == '!':
            a, b = self.cond(nd['sub'], st)
            return b, a
        if k == 'BinaryOperator' and nd['op'] in ('&&', '||'):
            a, b = self.cond(nd['lhs'], st)
            if nd['op'] == '&&':
                T, F = [], list(b)
                for s in a:
                    x, y = self.cond(nd['rhs'], s)
                    T += x
                    F += y
            else:
                T, F = list(a), []
                for s in b:
                    x, y = self.cond(nd['rhs'], s)
                    T += x
                    F += y
            return self.limit(T), self.limit(F)
        if k == 'BinaryOperator' and nd['op'] in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(i, nd, st)
        if k in ('CXXBindTemporaryExpr', 'ExprWithCleanups') and nd.get('c'):
            return self.cond(nd['c'][0], st)
        if nd.get('cn') in ('operator!=', 'operator==') and nd['k'] == 'CXXOperatorCallExpr':
            ops = ([nd['obj']] if 'obj' in nd else []) + list(nd.get('args', ()))
            if len(ops) == 2:
                a, b = self.ev(ops[0], st), self.ev(ops[1], st)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b and a.b[0] == 'it':
                    d = a.o.sub(b.o)
                    N = self.addne(st.copy(), d)
                    E = self.feasible(st.copy(), [d, d.mul(-1)])
                    N, E = [N] if N is not None else [], [E] if E is not None else []
                    return (N, E) if nd['cn'] == 'operator!=' else (E, N)
                return [st.copy()], [st.copy()]
        # truth of a value
        s = st
        txt = self.textat(i, s)
        v = self.ev(i, s)
        self.stain(s, v)
        if nd.get('cn') == 'empty' and nd.get('obj') is not None and not nd.get('args') and not self.m.targets(nd):
            p = self.cpath(nd['obj'], s)
            if p:
                n = self.csize(p, i, s)
                E, N = self.feasible(s.copy(), [n]), self.feasible(s.copy(), [C(1).sub(n)])
                return [E] if E is not None else [], [N] if N is not None else []
        if txt is not None:
            return self.textnz(txt, s)
        if isinstance(v, Ptr):
            if v.b == 'null':
                return [], [s]
            a, b = s.copy(), s.copy()
            vv = f.var(i)
            if v.b[0] in ('new', 'call', 'arr', 'arrf', 'lit', 'garr'):
                if v.b[0] in ('new', 'arr', 'arrf', 'lit', 'garr') and ('bytes', v.b) not in st.env and not found(v):
                    return [a], []
            if vv is not None:
                b.env['v', vv] = NULL
            return [a], [b]
        a, b = s.copy(), s.copy()
        if isinstance(v, Lin):
            a2 = self.addne(a, v)
            b2 = self.add(b, v)
            if b2 is not None:
                b2 = self.add(b2, v.mul(-1))
            if 'bool' in f.nodes[i].get('t', ''):
                var = f.var(i)
                if var is not None:
                    if a2 is not None:
                        a2.env['v', var] = C(1)
                    if b2 is not None:
                        b2.env['v', var] = C(0)
                elif f.nodes[i]['k'] == 'MemberExpr' and f.nodes[i].get('mk') == 'field':
                    p = self.path(i, s)
                    if p is not None:
                        if a2 is not None:
                            a2.env[p] = C(1)
                        if b2 is not None:
                            b2.env[p] = C(0)
            return [a2] if a2 is not None else [], [b2] if b2 is not None else []
        return [a], [b]

    def textat(self, i, st):
        """(block, offset) when i reads a character of a text"""
        f = self.f
        nd = f.nodes[f.strip(i)]
        if nd['k'] == 'ArraySubscriptExpr' and tsize(nd.get('t', '')) in (1, 4) and isint(nd.get('t', '')):
            s = st.copy()
            r, self.rec = self.rec, False
            b = self.ev(nd['base'], s)
            x = self.ev(nd['idx'], s)
            self.rec = r
            if isinstance(b, Ptr) and b.b != 'null' and isinstance(x, Lin):
                return Ptr(b.b, b.o.add(x))
        if nd['k'] == 'UnaryOperator' and nd['op'] == '*' and tsize(nd.get('t', '')) in (1, 4) and isint(nd.get('t', '')):
            s = st.copy()
            r, self.rec = self.rec, False
            b = self.ev(nd['sub'], s)
            self.rec = r
            if isinstance(b, Ptr) and b.b != 'null':
                return b
        return None

    def textnz(self, p, st):
        """split on: the character p points to is not the terminator"""
        if p.b[0] not in ('par', 'call', 'lit'):
            return [st.copy()], [st.copy()]
        n = self.length(p, st, ('scan', self.steps))     # length from p on
        a = self.add(st.copy(), C(1).sub(n))
        b = self.add(st.copy(), n)
        return [a] if a is not None else [], [b] if b is not None else []

    def compare(self, i, nd, st):
        op = nd['op']
        f = self.f
        for x, y in ((nd['lhs'], nd['rhs']), (nd['rhs'], nd['lhs'])):
            if op in ('==', '!='):
                txt = self.textat(x, st)
                if txt is not None and f.const(y) is not None:
                    self.ev(x, st)
                    if f.const(y) == 0:
                        a, b = self.textnz(txt, st)
                        return (a, b) if op == '!=' else (b, a)
                    return [st.copy()], [st.copy()]
        a = self.ev(nd['lhs'], st)
        b = self.ev(nd['rhs'], st)
        self.stain(st, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.b == 'null' or b.b == 'null':
                if op in ('==', '!='):
                    p = b if a.b == 'null' else a
                    side = nd['rhs'] if a.b == 'null' else nd['lhs']
                    if p.b == 'null':
                        return ([st], []) if op == '==' else ([], [st])
                    T, F = self.cond(side, st)
                    return (F, T) if op == '==' else (T, F)
                return [st.copy()], [st.copy()]
            if a.b != b.b:
                return [st.copy()], [st.copy()]
            d = a.o.sub(b.o)
        elif isinstance(a, Lin) and isinstance(b, Lin):
            d = a.sub(b)
        else:
            return [st.copy()], [st.copy()]
        T, F = st.copy(), st.copy()
        neg = d.mul(-1)
        if op == '<':
            T, F = self.add(T, d.plus(1)), self.add(F, neg)
        elif op == '<=':
            T, F = self.add(T, d), self.add(F, neg.plus(1))
        elif op == '>':
            T, F = self.add(T, neg.plus(1)), self.add(F, d)
        elif op == '>=':
            T, F = self.add(T, neg), self.add(F, d.plus(1))
        else:
            E, N = (T, F)
            N = self.addne(N, d)
            E = self.add(E, d)
            if E is not None:
                E = self.add(E, neg)
            T, F = (E, N) if op == '==' else (N, E)
        return [T] if T is not None else [], [F] if F is not None else []

    # ---- statements
    def ex(self, i, sts):
        """{'n': normal, 'b': break, 'c': continue}"""
        R = {'n': [], 'b': [], 'c': [], 'g': []}
        if i is None or i < 0:
            R['n'] = sts
            return R
        f = self.f
        nd = f.nodes[i]
        k = nd['k']
        if not sts:
            return R
        if k == 'CompoundStmt':
            cur = sts
            decls = []
            gs = []
            for n, c in enumerate(nd['c']):
                if f.nodes[c]['k'] == 'DeclStmt':
                    decls += [d['v'] for d in f.nodes[c]['decls'] if 'v' in d]
                if f.nodes[c]['k'] == 'LabelStmt':
                    cur = self.limit(cur + gs)
                    gs = []
                r = self.ex(c, cur)
                R['b'] += r['b']
                R['c'] += r['c']
                gs += r['g']
                cur = self.limit(r['n'])
                if not cur and not (gs and any(f.nodes[x]['k'] == 'LabelStmt' for x in nd['c'][n + 1:])):
                    break
            R['g'] = gs
            R['n'] = cur
            if i != f.d.get('body'):
                for s in R['n'] + R['b'] + R['c']:
                    for v in decls:
                        s.env.pop(('v', v), None)
                        s.env.pop(('al', v), None)
            return R
        if k == 'IfStmt':
            if isinstance(nd.get('init'), int):
                sts = self.ex(nd['init'], sts)['n']
            T, F = [], []
            for s in sts:
                a, b = self.cond(nd['cond'], s)
                T += a
                F += b
            T, F = self.limit(T), self.limit(F)
            a = self.ex(nd['then'], T)
            b = self.ex(nd['else'], F) if isinstance(nd.get('else'), int) else {'n': F, 'b': [], 'c': [], 'g': []}
            for q in R:
                R[q] = a[q] + b[q]
            R['n'] = self.limit(R['n'])
            return R
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            return self.loop(i, nd, sts)
        if k == 'ReturnStmt':
            for s in sts:
                for s2 in self.split(nd.get('val'), s):
                    self.rets.append((self.ev(nd['val'], s2) if 'val' in nd else None, s2))
            return R
        if k == 'BreakStmt':
            R['b'] = sts
            return R
        if k == 'ContinueStmt':
            R['c'] = sts
            return R
        if k == 'SwitchStmt':
            for s in sts:
                self.ev(nd['cond'], s)
            # every label starts from the state before the switch
            body = f.nodes[nd['body']]
            cur = []
            hasdef = False
            for c in body.get('c', ()):
                cn = f.nodes[c]
                while cn['k'] in ('CaseStmt', 'DefaultStmt'):
                    hasdef = hasdef or cn['k'] == 'DefaultStmt'
                    for s in sts:
                        s2 = s.copy()
                        v = self.ev(nd['cond'], s2)
                        if isinstance(v, Lin) and isinstance(cn.get('cval'), int):
                            d = v.plus(-cn['cval'])
                            s2 = self.feasible(s2, [d, d.mul(-1)])
                        if s2 is not None:
                            cur = cur + [s2]
                    c = cn['sub'] if 'sub' in cn else cn['c'][-1]
                    cn = f.nodes[c]
                r = self.ex(c, self.limit(cur))
                R['n'] += r['b']
                R['c'] += r['c']
                R['g'] += r['g']
                cur = r['n']
            R['n'] += cur
            if not hasdef:
                R['n'] += [s.copy() for s in sts]
            R['n'] = self.limit(R['n'])
            return R
        if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
            return self.ex(nd['sub'] if 'sub' in nd else nd['c'][-1], sts)
        if k == 'CXXTryStmt':
            pre = [s.copy() for s in sts]
            r = self.ex(nd['body'], sts)
            for q in R:
                R[q] += r[q]
            for h in nd.get('handlers', ()):
                hs = []
                for s in pre:
                    s2 = s.copy()
                    self.havoc(nd['body'], s2, ('try', i))
                    hs.append(s2)
                r = self.ex(f.nodes[h]['body'], hs)
                for q in R:
                    R[q] += r[q]
            R['n'] = self.limit(R['n'])
            return R
        if k == 'DeclStmt':
            for d in nd['decls']:
                if 'v' not in d:
                    continue
                out = []
                for s in sts:
                    if 'init' in d and self.boolean(d['t'], d['init']):
                        a, b = self.cond(d['init'], s)
                        for x, c in [(x, 1) for x in a] + [(x, 0) for x in b]:
                            x = x.copy()
                            x.env['v', d['v']] = C(c)
                            out.append(x)
                    elif 'init' in d:
                        for s2 in self.split(d['init'], s):
                            v = self.ev(d['init'], s2)
                            s2.env.pop(('v', d['v']), None)
                            s2.env.pop(('sz', ('v', d['v'])), None)
                            if v is not None and (isinstance(v, Ptr) or isint(d['t'])) and '[' not in d['t']:
                                s2.env['v', d['v']] = v
                            self.alias(d['v'], d['init'], s2)
                            self.created(d['v'], d['init'], s2)
                            s2.choice = {}
                            out.append(s2)
                    else:
                        s.env.pop(('v', d['v']), None)
                        s.env.pop(('sz', ('v', d['v'])), None)
                        out.append(s)
                sts = self.limit(out) if len(out) > 2 * MAXST else out
            R['n'] = sts
            return R
        if k == 'BinaryOperator' and nd['op'] == '=' and f.var(nd['lhs']) is not None and self.boolean(f.vars[f.var(nd['lhs'])]['t'], nd['rhs']):
            for s in sts:
                a, b = self.cond(nd['rhs'], s)
                for x, c in [(x, 1) for x in a] + [(x, 0) for x in b]:
                    x = x.copy()
                    x.env['v', f.var(nd['lhs'])] = C(c)
                    R['n'].append(x)
            R['n'] = self.limit(R['n'])
            return R
        if k == 'GotoStmt':
            R['g'] = sts
            return R
        if k == 'CXXThrowExpr':
            return R
        out = []
        for s in sts:
            for s2 in self.split(i, s):
                self.ev(i, s2)
                s2.choice = {}
                out.append(s2)
        if any(n.get('cn') in ('exit', 'abort') for n in f.walk(i) if 'callee' in n):
            return R
        R['n'] = out
        return R

    def boolean(self, t, i):
        """the declaration of a truth value that is a condition on numbers"""
        f = self.f
        if re.sub(r'\bconst\b', '', t).strip() != 'bool':
            return False
        nd = f.nodes[f.strip(i)]
        return nd['k'] == 'BinaryOperator' and nd['op'] in ('<', '>', '<=', '>=', '==', '!=', '&&', '||') or nd['k'] == 'UnaryOperator' and nd['op'] == '!' or nd.get('cn') in ('empty', 'operator==', 'operator!=')

    def split(self, i, st):
        """one state per way through the conditional operators of an expression"""
        if not isinstance(i, int) or i < 0:
            return [st]
        ops = [n for n in self.f.walk(i) if n['k'] == 'ConditionalOperator']
        sts = [st]
        for o in ops[:3]:
            nx = []
            for s in sts:
                a, b = self.cond(o['cond'], s)
                for x in a:
                    x.choice = dict(x.choice)
                    x.choice[o['i']] = True
                for x in b:
                    x.choice = dict(x.choice)
                    x.choice[o['i']] = False
                nx += a + b
            sts = self.limit(nx) if len(nx) > 2 * MAXST else nx
        return sts

    # ---- loops
    def modified(self, nd):
        """variables and fields a loop may change: set of ('v', x) / ('m', field), plus blocks written?"""
        f = self.f
        key = '_mod'
        c = f.__dict__.setdefault(key, {})
        if nd['i'] in c:
            return c[nd['i']]
        vs, ms, wr = set(), set(), False
        for n in f.walk(nd['i']):
            if is_write_op(n):
                t = f.nodes[f.strip(write_target(n))]
                if t['k'] == 'DeclRefExpr' and t.get('dk') == 'var':
                    vs.add(t['v'])
                elif t['k'] == 'MemberExpr':
                    ms.add(t.get('m'))
                else:
                    wr = True
            elif n['k'] == 'DeclStmt':
                pass
            elif 'callee' in n or 'args' in n:
                for k, a in enumerate(n.get('args', [])):
                    if not self.z.eff.arg_written(f, n, k):
                        continue
                    x = f.nodes[f.strip(a)]
                    wr = True
                    if x['k'] == 'UnaryOperator' and x['op'] == '&':
                        x = f.nodes[f.strip(x['sub'])]
                    if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var':
                        pt = n.get('pt', [])
                        if (pt[k] if k < len(pt) else '&').rstrip().endswith('&') or f.nodes[f.strip(a)]['k'] == 'UnaryOperator':
                            vs.add(x['v'])
                    elif x['k'] == 'MemberExpr':
                        ms.add(x.get('m'))
                if n.get('cn') in ('wcscpy', 'strcpy', 'memcpy', 'wcsncpy', 'strncpy', 'memset', 'wcscat', 'strcat'):
                    wr = True
                if 'obj' in n and not n.get('cconst') and n.get('cn') not in PURE:
                    x = f.nodes[f.strip(n['obj'])]
                    if x['k'] == 'DeclRefExpr' and x.get('dk') == 'var':
                        vs.add(x['v'])
                for g in self.m.targets(n):
                    ms |= self.z.writes_of(g.key)
        c[nd['i']] = (vs, ms, wr)
        return c[nd['i']]

    def havoc(self, i, st, tag):
        vs, ms, wr = self.modified(self.f.nodes[i])
        for k in list(st.env):
            if k[0] == 'v' and k[1] in vs or k[0] == 'f' and k[2] in ms or k[0] in ('sz', 'el') or k[0] == 'al' and k[1] in vs:
                st.env.pop(k)
            elif k[0] == 'len' and wr:
                st.env.pop(k)
        st.dirty = st.dirty | ms

    def loop(self, i, nd, sts):
        f = self.f
        R = {'n': [], 'b': [], 'c': [], 'g': []}
        if nd['k'] == 'ForStmt' and isinstance(nd.get('init'), int) and nd['init'] >= 0:
            sts = self.ex(nd['init'], sts)['n']
        sts = self.limit(sts)
        if len(sts) > 3:
            while len(sts) > 2:
                b = sts.pop()
                a = sts.pop()
                sts.append(self.join(a, b, ('loop', i, len(sts))))
        for n, s in enumerate(sts):
            self.rounds += 1
            self.gts = []
            R['n'] += self.loop1(i, nd, s, n)
            R['g'] += self.gts
            self.gts = []
        if nd['k'] == 'ForStmt' and isinstance(nd.get('init'), int) and nd['init'] >= 0 and f.nodes[nd['init']]['k'] == 'DeclStmt':
            for d in f.nodes[nd['init']]['decls']:
                for s in R['n']:
                    s.env.pop(('v', d.get('v')), None)
        R['n'] = self.limit(R['n'])
        return R

    def keys(self, nd, st):
        vs, ms, wr = self.modified(nd)
        if nd['k'] == 'CXXForRangeStmt':
            st.env['rk', nd['i']] = C(0)
        return [k for k in st.env if k[0] == 'v' and k[1] in vs or k[0] == 'f' and k[2] in ms or k == ('rk', nd['i'])]

    def body(self, nd, head, cont):
        """run one round from state head: (true-condition states, false-condition states, back states, break states)"""
        f = self.f
        do = nd['k'] == 'DoStmt'
        cnd = nd.get('cond')
        if nd['k'] == 'CXXForRangeStmt':
            cnd = None
            T, F = [head.copy()], [head.copy()]
            p = self.cpath(nd['range'], head) if isinstance(nd.get('range'), int) else None
            if p and ('sz', p) in head.env and ('rk', nd['i']) in head.env:
                n, k = head.env['sz', p], head.env['rk', nd['i']]
                a = self.add(T[0], k.sub(n).plus(1))
                b = self.feasible(F[0], [n.sub(k)])
                T, F = [a] if a is not None else [], [b] if b is not None else []
            for s in T:
                s.env.pop(('v', nd.get('loopvar')), None)
        elif do:
            T, F = [head.copy()], []
        elif isinstance(cnd, int) and cnd >= 0:
            T, F = self.cond(cnd, head.copy())
        else:
            T, F = [head.copy()], []
        T = self.limit(T)
        r = self.ex(nd['body'], [s.copy() for s in T])
        self.gts = r['g']
        back = self.limit(r['n'] + r['c'])
        if do:
            nb = []
            for s in back:
                a, b = self.cond(cnd, s)
                nb += a
                F += b
            back = self.limit(nb)
        elif nd['k'] == 'ForStmt' and isinstance(nd.get('inc'), int) and nd['inc'] >= 0:
            for s in back:
                self.ev(nd['inc'], s)
        elif nd['k'] == 'CXXForRangeStmt':
            for s in back:
                if ('rk', nd['i']) in s.env:
                    s.env['rk', nd['i']] = s.env['rk', nd['i']].plus(1)
        return T, F, back, r['b']

    def loop1(self, i, nd, st0, n):
        f = self.f
        vs, ms, wr = self.modified(nd)
        lid = (i, n, self.depth_tag())
        for x in f.walk(i):
            if x['k'] == 'MemberExpr' and x.get('m') in ms and isint(x.get('t', '')):
                p = self.path(x['i'], st0)
                if p is not None and p not in st0.env and self.visible(p, nd):
                    r0, self.rec = self.rec, False
                    self.look(x['i'], st0)
                    self.rec = r0
        if nd['k'] == 'CXXForRangeStmt' and isinstance(nd.get('range'), int):
            p = self.cpath(nd['range'], st0)
            if p:
                self.csize(p, i, st0)
        for x in f.walk(i):
            if x.get('cn') in ('end', 'size', 'length', 'cend') and 'obj' in x and not x.get('args'):
                p = self.cpath(x['obj'], st0)
                if p and (p[0] == 'f' and self.visible(p, nd) or p[0] == 'v' and self.visible(('f', p, ''), nd)):
                    self.csize(p, i, st0)
        keys = self.keys(nd, st0)
        # pass 1: what one round changes
        rec, self.rec = self.rec, False
        nrets = len(self.rets)
        head = st0.copy()
        hat = {}
        for k in list(head.env):
            if k[0] == 'len' and wr or k[0] == 'sz' and self.szmod(k, vs, ms) or k[0] == 'al' and k[1] in vs or k[0] == 'el':
                head.env.pop(k)
        for k in keys:
            v = head.env[k]
            a = ('h', f.key, lid, k) + (('+',) if self.unsig(k) else ())
            NAMES.setdefault(a, self.kname(k))
            hat[k] = a
            head.env[k] = Ptr(v.b, A(a)) if isinstance(v, Ptr) and v.b != 'null' else A(a) if isinstance(v, Lin) else None
            if head.env[k] is None:
                head.env.pop(k)
                hat.pop(k)
        head.dirty = head.dirty | ms
        T, F, back, brk = self.body(nd, head, 0)
        del self.rets[nrets:]
        self.rec = rec
        atoms = set(hat.values())
        info = {}
        vec = [dict() for _ in back]
        exact = {}
        for k, a in hat.items():
            ds, bad = [], False
            v0 = st0.env[k]
            for bi, s in enumerate(back):
                v = s.env.get(k)
                if isinstance(v0, Ptr) and isinstance(v, Ptr) and v.b == v0.b:
                    v = v.o
                if not isinstance(v, Lin):
                    bad = True
                    break
                d = v.sub(A(a))
                if d.isconst():
                    ds.append((d.c, d.c))
                    vec[bi][k] = (d.c,)
                    continue
                lo = hi = None
                # bounds of the change of this round
                for c in range(-6, 7):
                    if hi is None and entails(s.cons, d.plus(-c)):
                        hi = c
                    if entails(s.cons, d.mul(-1).plus(c)):
                        lo = c
                if lo is None and hi is None and a not in v.t:
                    bad = True      # assigned anew
                    break
                ds.append((lo, hi))
                vec[bi][k] = tuple(sorted({x for x in (lo, hi) if x is not None}))
                js = [q for q in d.t if q[0] == 'J']
                if len(d.t) == 1 and len(js) == 1:
                    cs = [al[js[0]] for al in self.z.alts.get(self.z.group.get(js[0]), ()) if js[0] in al and len(al) == 1]
                    if cs and all(x.isconst() for x in cs) and len(cs) <= 6:
                        exact[bi, k] = (js[0], [(x.c, d.c + d.t[js[0]] * x.c) for x in cs])
            if bad:
                info[k] = None
            elif ds:
                los = [x for x, _ in ds]
                his = [y for _, y in ds]
                info[k] = (None if None in los else min(los), None if None in his else max(his))
            else:
                info[k] = (0, 0)      # no way back to the head
        # ways that every round can take: those that do not depend on values that the rounds change
        vsrc = list(range(len(back)))
        moving = {a for k, a in hat.items() if info.get(k) != (0, 0)}
        common = frozenset.intersection(*[s.cons for s in back]) if back else frozenset()
        cset = [frozenset(c for c in s.cons - common if any(q in moving for q in c.t)) for s in back]
        nset = [frozenset(c for c in s.ne if any(q in moving for q in c.t)) for s in back]
        groups = {}
        for bi in range(len(back)):
            if not nset[bi] and not (back[bi].taint - head.taint) & moving:
                groups.setdefault(repr(sorted(vec[bi].items(), key=str)), []).append(bi)
        free = set()
        for g in groups.values():
            sets = {cset[bi] for bi in g}
            more = True
            while more and frozenset() not in sets and len(sets) < 60:
                more = False
                for x in list(sets):
                    for c in x:
                        if (x - {c}) | {c.mul(-1).plus(1)} in sets and x - {c} not in sets:
                            sets.add(x - {c})
                            more = True
            if frozenset() in sets:
                free |= set(g)
        # a change that is one of several constants: one way each
        for (bi, k), (j, cs) in sorted(exact.items(), key=str):
            for jv, c in cs:
                w = dict(vec[bi])
                w[k] = (c,)
                for (b2, k2), (j2, cs2) in exact.items():
                    if b2 == bi and j2 == j and k2 != k:
                        w[k2] = (dict(cs2)[jv],)
                vec.append(w)
                vsrc.append(bi)
        # guards that hold whenever a round starts or ends (for the values at the head)
        K = ('K', f.key, lid)
        NAMES.setdefault(K, 'rounds@%d' % nd.get('l', 0))
        if not any(x['k'] in ('BreakStmt', 'ReturnStmt', 'GotoStmt', 'CXXThrowExpr') for x in f.walk(i)):
            self.z.complete.add(K)
        head2 = st0.copy()
        for k in list(head2.env):
            if k[0] == 'len' and wr or k[0] == 'sz' and self.szmod(k, vs, ms) or k[0] == 'al' and k[1] in vs or k[0] == 'el':
                head2.env.pop(k)
        head2.dirty = head2.dirty | ms
        sub = {}
        for k in keys:
            v0 = st0.env[k]
            base = v0.o if isinstance(v0, Ptr) else v0
            inf = info.get(k)
            if inf is None or inf == (None, None):
                a = ('o', f.key, ('head', lid, k)) + (('+',) if self.unsig(k) else ())
                NAMES.setdefault(a, self.kname(k))
                if k not in hat:
                    head2.env.pop(k, None)
                    continue
                nv = A(a)
            elif inf[0] == inf[1]:
                nv = base.add(Lin({K: inf[0]})) if inf[0] else base
            else:
                a = ('H', f.key, lid, k) + (('+',) if self.unsig(k) else ())
                NAMES.setdefault(a, self.kname(k))
                nv = A(a)
                if inf[1] is not None:
                    head2.cons = head2.cons | {nv.sub(base).add(Lin({K: inf[1]}), -1)}
                if inf[0] is not None:
                    head2.cons = head2.cons | {base.add(Lin({K: inf[0]})).sub(nv)}
            head2.env[k] = Ptr(v0.b, nv) if isinstance(v0, Ptr) else nv
            if k in hat:
                sub[hat[k]] = nv
        tn = set()
        for s in back:
            # what was tested together with the position in an earlier round says nothing about the position in this one
            tn |= tmap([q for q in s.taint if q[0] != 'G' or not q[1] & moving], lambda q: sub.get(q))
        head2.taint = head2.taint | frozenset(q for q in tn if q[0] != 'h')
        grp = ('H', f.key, lid)
        hs = {k: head2.env[k] for k in keys if k in info and info[k] and info[k] != (None, None) and info[k][0] != info[k][1]}
        al = []
        for vc in [v for v, bi in zip(vec, vsrc) if bi in free]:
            d = {}
            for k, nv in hs.items():
                o = nv.o if isinstance(nv, Ptr) else nv
                a = next(iter(o.t))
                self.z.group[a] = grp
                v0 = st0.env[k]
                base = v0.o if isinstance(v0, Ptr) else v0
                if len(vc.get(k, ())) == 1:
                    x = vc[k][0]
                    d[a] = base.add(Lin({K: x})) if x else base
                    if self.searches():
                        # the text was searched: at least one round may be known to take another way
                        o = min([y for w in vec for y in w.get(k, ())] + [x])
                        d[a] = d[a].plus(o - x)
            if d not in al:
                al.append(d)
        self.z.alts[grp] = al
        # invariants from tests for equality passed in every round: F(value) != 0 with steps of at most 1
        inv = []
        if back:
            cand = set()
            for s in back:
                for q in s.ne | s.cons:
                    cand.add(q)
            for q in cand:
                hs = [a for a in q.t if a in atoms]
                if len(hs) != 1:
                    continue
                a = hs[0]
                k = [x for x in hat if hat[x] == a][0]
                inf = info.get(k)
                if not inf or inf[0] is None or inf[1] is None:
                    continue
                if any(x[0] == 'o' and x not in self.atoms_of(st0) for x in q.t if x != a):
                    continue
                for sgn in (1, -1):
                    F0 = q.mul(sgn)
                    x = F0.t[a]
                    step = max(x * inf[0], x * inf[1])
                    # after the round: F0(new) <= F0(old) + step, F0(old) < 0
                    if step > 1:
                        continue
                    if not all(q in s.ne or q in s.cons and sgn == 1 or entails(s.cons, F0.plus(1 if q in s.ne else 0)) or (F0.mul(-1) in s.ne) for s in back):
                        continue
                    v0 = st0.env[k]
                    base = v0.o if isinstance(v0, Ptr) else v0
                    start = F0.subst(lambda y: base if y == a else None)
                    isne = any(q in s.ne for s in back)
                    if isne:
                        if not entails(st0.cons, start):
                            continue
                        inv.append(F0)
                    else:
                        # q <= 0 before the step in every round; afterwards q <= step
                        G = F0.plus(-max(step, 0))
                        if entails(st0.cons, start.plus(-max(step, 0))):
                            inv.append(G)
        if back and T:
            gs = frozenset.intersection(*[s.cons for s in T]) - st0.cons
            for g in gs:
                if not any(a in atoms for a in g.t) or any(a[0] in ('o',) and a not in self.atoms_of(st0) for a in g.t):
                    continue

                def newv(y, s):
                    for k, a in hat.items():
                        if a == y:
                            v = s.env.get(k)
                            v = v.o if isinstance(v, Ptr) else v
                            return v if isinstance(v, Lin) else A(('o', f.key, ('lost', k)))
                    return None

                def oldv(y):
                    for k, a in hat.items():
                        if a == y:
                            v = st0.env[k]
                            return v.o if isinstance(v, Ptr) else v
                    return None
                for c in range(0, 5):
                    if all(entails(s.cons, g.subst(lambda y: newv(y, s)).plus(-c)) for s in back) and entails(st0.cons, g.subst(oldv).plus(-c)):
                        inv.append(g.plus(-c))
                        break
        mp = lambda y: sub.get(y)
        for g in inv:
            h2 = self.add(head2, g.subst(mp))
            if h2 is None:
                break
            head2 = h2
        # pass 2
        out = []
        self.active.append(K)
        T, F, back, brk = self.body(nd, head2, 1)
        self.active.pop()
        guards = None
        if nd['k'] != 'DoStmt':
            for s in T:
                c = {q for q in s.cons - head2.cons}
                guards = c if guards is None else guards & c
        guards = guards or set()
        # leaving through the condition: at once, or after a round that the guard allowed
        z0 = lambda y: C(0) if y == K else None
        zm = None
        for s in F:
            if nd['k'] == 'DoStmt':
                out.append(s)
                continue
            e = s.copy()
            # K = 0
            e0 = self.feasible(e, [A(K)])
            if e0 is not None:
                e0 = self.substate(e0, K, C(0), {v: st0.env[k].o if isinstance(st0.env[k], Ptr) else st0.env[k] for k, v in self.hatoms(head2, lid).items()})
                if e0 is not None:
                    out.append(e0)
            e1 = s.copy()
            cs = [C(1).sub(A(K))]
            for g in guards:
                # value one round earlier: exact counters only
                if any(a[0] == 'H' and a[2] == lid for a in g.t):
                    inf = [(a, info.get(a[3])) for a in g.t if a[0] == 'H' and a[2] == lid]
                    if len(inf) == 1 and inf[0][1] and inf[0][1][0] is not None and inf[0][1][1] is not None:
                        a, (lo, hi) = inf[0]
                        step = max(g.t[a] * lo, g.t[a] * hi)
                        g2 = g.plus(-step).subst(lambda y: A(K).plus(-1) if y == K else None)
                        cs.append(g2)
                    continue
                cs.append(g.subst(lambda y: A(K).plus(-1) if y == K else None))
            e1 = self.feasible(e1, cs)
            if e1 is not None:
                out.append(e1)
        out += brk
        return out

    def visible(self, p, nd):
        """does the object of path p exist before the loop?"""
        r = self.f.root(p)
        if r[0] == 'this':
            return True
        if r[0] != 'v':
            return False
        for x in self.f.walk(nd['i']):
            if x['k'] == 'DeclStmt' and any(d.get('v') == r[1] for d in x['decls']):
                return False
        return r[1] not in self.modified(nd)[0]

    def szmod(self, k, vs, ms):
        r = self.f.root(k[1])
        return r[0] == 'v' and r[1] in vs or k[1][0] == 'f' and (k[1][2] in ms or k[1][2] in self.cmods())

    def cmods(self):
        """container fields on which this function calls methods that change them"""
        f = self.f
        if '_cm' not in f.__dict__:
            r = set()
            for n in f.calls():
                if 'obj' in n and not n.get('cconst') and n.get('cn') not in PURE:
                    x = f.nodes[f.strip(n['obj'])]
                    if x['k'] == 'MemberExpr':
                        r.add(x.get('m'))
            f.__dict__['_cm'] = r
        return f.__dict__['_cm']

    def searches(self):
        f = self.f
        if '_srch' not in f.__dict__:
            f.__dict__['_srch'] = any(n.get('cn') in SEARCH for n in f.nodes)
        return f.__dict__['_srch']

    def hatoms(self, st, lid):
        r = {}
        for k, v in st.env.items():
            o = v.o if isinstance(v, Ptr) else v
            if isinstance(o, Lin):
                for a in o.t:
                    if a[0] == 'H' and a[2] == lid and a[3] == k:
                        r[k] = a
        return r

    def substate(self, st, K, val, hs):
        mp = lambda y: val if y == K else hs.get(y)
        s = st.copy()
        for k, v in list(s.env.items()):
            if isinstance(v, Ptr):
                s.env[k] = Ptr(v.b, v.o.subst(mp))
            elif isinstance(v, Lin):
                s.env[k] = v.subst(mp)
        s.blk = {b: x.subst(mp) for b, x in s.blk.items()}
        cs = [c.subst(mp) for c in s.cons]
        if any(not c.t and c.c > 0 for c in cs):
            return None
        s.cons = frozenset(c for c in cs if c.t)
        s.ne = frozenset(n for n in (c.subst(mp) for c in s.ne) if n.t)
        if s.taint:
            s.taint = s.taint | frozenset(y for q in s.taint if q[0] != 'G' for y in (mp(q) or C(0)).t) | tmap([q for q in s.taint if q[0] == 'G'], mp)
        return s

    def feasible(self, st, cs):
        for c in cs:
            st = self.add(st, c)
            if st is None:
                return None
        return st

    def atoms_of(self, st):
        r = set()
        for v in st.env.values():
            o = v.o if isinstance(v, Ptr) else v
            if isinstance(o, Lin):
                r |= set(o.t)
        for c in st.cons:
            r |= set(c.t)
        return r

    def unsig(self, k):
        if k[0] == 'v':
            return unsigned(self.f.vars[k[1]]['t'])
        return False

    def kname(self, k):
        return self.f.vname(k[1]) if k[0] == 'v' else 'element' if k[0] == 'rk' else k[2].rsplit('::', 1)[-1]

    def depth_tag(self):
        return self.rounds


class Budget(Exception):
    pass
