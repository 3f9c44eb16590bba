"""Every grammar error has a code with a message, a position in the paragraph, a length, and room for its suggestions.

For every CacheEntry that is given to the error cache (followed through helpers that create, fill or append it), on every path:
Rule 1: error code, start and length have been set; the code is one for which voikko_error_message_cstr has a message of its own in every language.
Rule 2: the start is a position in the paragraph (contains exactly one of Token::pos, Sentence::pos), the length is a length (contains none).
Rule 3: suggestions are only stored within the number of suggestions the entry was created for, and are allocated blocks.
Rule 4: positions of tokens are relative to the paragraph like those of sentences.
"""
from vlib.model import AnalysisError
from vlib.origin import Origins
from vlib.affine import Affine
from vlib.effects import is_write_op, write_target
from vlib.prov import Prov, St

RULE = 'must-assign dataflow over every grammar error from its creation to the cache, with helpers inlined; position arithmetic typed as positions and lengths; table of messages evaluated for every code'
ASSUMPTIONS = ['Token::pos and Sentence::pos are positions in the paragraph (rule 4 checks that tokens are positioned relative to their sentence)']

PROP = {
    'id': 'C15', 'title': 'Grammar errors have a message, position and length',
    'statement': 'Every grammar error the checker reports has an error code (not 0) for which the library has a message of its own in Finnish and in English (never "unknown error", never the message of another code), '
                 'a start that is a position in the checked paragraph (not in the sentence, and not a token number) and a length that is a length in characters, all set whatever way the error was found; '
                 'its suggestions fit the space reserved for them and are memory that the error owns.',
    'quantifier': {'over': ['inputs'], 'text': 'all paragraphs in which a rule finds an error, on every path of the rule'},
    'why_tests_cant': 'The tests check texts that trigger a rule once, mostly in the first sentence of a paragraph, where positions in the sentence and in the paragraph are the same.',
    'anchors': {'files': ['libvoikko/src/grammar/FinnishRuleEngine/checks.cpp', 'libvoikko/src/grammar/FinnishRuleEngine/CapitalizationCheck.cpp', 'libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp',
                          'libvoikko/src/grammar/error.cpp', 'libvoikko/src/grammar/CacheEntry.cpp', 'libvoikko/src/grammar/FinnishAnalysis.cpp'],
                'mechanism': [{'name': 'rules', 'where': 'libvoikko/src/grammar/FinnishRuleEngine'}, {'name': 'messages', 'where': 'libvoikko/src/grammar/error.cpp'}],
                'observe_at': ['voikkoNextGrammarErrorUcs4', 'voikkoGetGrammarErrorCode', 'voikkoGetGrammarErrorStartPos', 'voikkoGetGrammarErrorLength', 'voikkoGetGrammarErrorShortDescription']}}

FIELDS = {'error_code': 'code', 'startpos': 'start', 'errorlen': 'length'}


class Ent:
    __slots__ = ('count', 'f', 'esc')

    def __init__(self, count):
        self.count, self.f, self.esc = count, {}, False     # f: field -> (refs, must)

    def copy(self):
        e = Ent(self.count)
        e.f, e.esc = dict(self.f), self.esc
        return e

    def key(self):
        return (self.count, self.esc, tuple(sorted((k, v[1], len(v[0])) for k, v in self.f.items())))


class State:
    def __init__(self):
        self.vars, self.ents = {}, {}

    def copy(self):
        s = State()
        s.vars, s.ents = dict(self.vars), {k: v.copy() for k, v in self.ents.items()}
        return s

    def key(self):
        return (tuple(sorted((repr(k), tuple(sorted(map(repr, v)))) for k, v in self.vars.items())), tuple(sorted((repr(k), v.key()) for k, v in self.ents.items())))


def join(a, b):
    if a is None:
        return b.copy()
    s = State()
    for k in set(a.vars) | set(b.vars):
        s.vars[k] = a.vars.get(k, frozenset()) | b.vars.get(k, frozenset())
    for k in set(a.ents) | set(b.ents):
        x, y = a.ents.get(k), b.ents.get(k)
        if x is None or y is None:
            s.ents[k] = (x or y).copy()
            continue
        e = Ent(x.count if x.count == y.count else None)
        e.esc = x.esc or y.esc
        for n in set(x.f) | set(y.f):
            p, q = x.f.get(n), y.f.get(n)
            if p and q:
                e.f[n] = (p[0] | q[0], p[1] and q[1])
            else:
                e.f[n] = ((p or q)[0], False)
        s.ents[k] = e
    return s


class Ref:
    """a value: node of a function in a calling context"""
    __slots__ = ('f', 'i', 'ctx')

    def __init__(self, f, i, ctx):
        self.f, self.i, self.ctx = f, i, ctx

    def k(self):
        return (self.f.key, self.i, tuple((g.key, c['i']) for g, c in self.ctx))

    def __hash__(self):
        return hash(self.k())

    def __eq__(self, o):
        return self.k() == o.k()


class Track:
    def __init__(self, m, og, report):
        self.m, self.og, self.report = m, og, report
        self.sunk = 0

    def const(self, f, i, ctx, seen=frozenset()):
        i = f.strip(i)
        nd = f.nodes[i]
        if isinstance(nd.get('ev'), int):
            return {nd['ev']}
        if nd['k'] == 'ConditionalOperator':
            a, b = self.const(f, nd['then'], ctx, seen), self.const(f, nd['else'], ctx, seen)
            return None if a is None or b is None else a | b
        if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var' and (f.key, nd['v']) not in seen:
            v = nd['v']
            s2 = seen | {(f.key, v)}
            out = set()
            if v in f.params:
                k = f.params.index(v)
                cs = [ctx[0]] if ctx else self.og.callers.get(f.key, [])
                if not cs:
                    return None
                for g, c in cs:
                    if k >= len(c.get('args', ())):
                        return None
                    x = self.const(g, c['args'][k], ctx[1:], s2)
                    if x is None:
                        return None
                    out |= x
            for d in self.og.defs(f, v):
                x = self.const(f, d, ctx, s2)
                if x is None:
                    return None
                out |= x
            if len(out) > 1 and len(self.og.defs(f, v)) > 1:
                out.discard(0)      # "no error" so far: tested before it is used
            return out or None
        return None

    def chain(self, f, i, fr, st):
        """(entry ids, access path) of an expression that reaches into a tracked entry"""
        i = f.strip(i)
        nd = f.nodes[i]
        k = nd['k']
        if k == 'DeclRefExpr' and nd.get('dk') == 'var':
            x = st.vars.get((fr, nd['v']))
            if x:
                return x
            return None
        if k == 'CXXThisExpr':
            return st.vars.get((fr, 'this'))
        if k == 'MemberExpr' and nd.get('mk') == 'field' and 'base' in nd:
            b = self.chain(f, nd['base'], fr, st)
            return frozenset((e, p + (nd['mn'],)) for e, p in b) if b else None
        if k == 'ArraySubscriptExpr':
            b = self.chain(f, nd['base'], fr, st)
            return frozenset((e, p + ('[]', f.strip(nd['idx']))) for e, p in b) if b else None
        if k == 'UnaryOperator' and nd['op'] in ('*', '&'):
            b = self.chain(f, nd['sub'], fr, st)
            if b and nd['op'] == '*' and all(p and p[-1] == 'suggestions' for _, p in b):
                return frozenset((e, p + ('[]', 0)) for e, p in b)
            return b
        if k == 'CXXNewExpr':
            return st.vars.get((fr, 'new', i))
        if nd.get('callee') and 'obj' in nd and nd.get('cn') in ('operator->', 'operator*', 'get', 'release'):
            return self.chain(f, nd['obj'], fr, st)
        if nd.get('callee'):
            if ('ret', fr, i) in st.vars:
                return st.vars['ret', fr, i]
            return None
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(nd.get('args', ())) >= 1:
            return self.chain(f, nd['args'][0], fr, st)
        if 'sub' in nd and k != 'UnaryOperator':
            return self.chain(f, nd['sub'], fr, st)
        return None

    def run(self, f, ctx=(), st=None, depth=0):
        """state at exit and what is returned"""
        fr = tuple((g.key, c['i']) for g, c in ctx)
        st = st or State()
        ins = {f.entry: st}
        ret = frozenset()
        work = [f.entry]
        n = 0
        final = None
        while work:
            b = work.pop(0)
            n += 1
            if n > 3000:
                return None, frozenset()
            s = ins[b].copy()
            if b == f.exit:
                final = s
                continue
            blk = f.blocks[b]
            dead = False
            for e in blk['e']:
                if not isinstance(e, int):
                    continue
                if f.nodes[e]['k'] == 'CXXThrowExpr':
                    dead = True
                    break
                r = self.step(f, e, fr, ctx, s, depth)
                if r:
                    ret = ret | r
            if dead:
                continue
            for x in blk['s']:
                if x is None:
                    continue
                j = join(ins.get(x), s)
                if x not in ins or j.key() != ins[x].key():
                    ins[x] = j
                    if x not in work:
                        work.append(x)
        return final, ret

    def store(self, tgt, ref, st, f, nd):
        for e, p in tgt:
            ent = st.ents.get(e)
            if ent is None:
                continue
            names = [x for x in p if isinstance(x, str)]
            name = None
            if names and names[-1] in FIELDS:
                name = names[-1]
            elif len(p) >= 3 and p[-2] == '[]' and p[-3] == 'suggestions':
                idx = f.nodes[p[-1]].get('ev') if p[-1] else 0
                c = ent.count
                if isinstance(idx, int) and isinstance(c, int) and not ent.esc:
                    self.report('suggestion', f, nd, idx, c, ref)
                continue
            elif names and names[-1] == 'suggestions':
                ent.count = None
                continue
            if name:
                old = ent.f.get(name)
                if len(tgt) == 1:
                    ent.f[name] = (frozenset([ref]), True)
                else:
                    ent.f[name] = ((old[0] if old else frozenset()) | {ref}, old[1] if old else False)
                    ent.esc = True

    def step(self, f, e, fr, ctx, st, depth):
        nd = f.nodes[e]
        k = nd['k']
        if k == 'CXXNewExpr' and nd.get('at', '').endswith('::CacheEntry'):
            c = None
            if 'ctor' in nd and f.nodes[nd['ctor']].get('args'):
                cs = self.const(f, f.nodes[nd['ctor']]['args'][0], ctx)
                c = next(iter(cs)) if cs and len(cs) == 1 else None
            elif 'ctor' in nd:
                c = 0
            eid = (fr, f.key, e)
            st.ents[eid] = Ent(c)
            st.vars[fr, 'new', e] = frozenset([(eid, ())])
        elif k == 'DeclStmt':
            for d in nd['decls']:
                if 'init' in d:
                    x = self.chain(f, d['init'], fr, st)
                    if x:
                        st.vars[fr, d['v']] = x
                    else:
                        st.vars.pop((fr, d['v']), None)
        elif is_write_op(nd) and k == 'BinaryOperator':
            t = f.nodes[f.strip(nd['lhs'])]
            x = self.chain(f, nd['rhs'], fr, st)
            if t['k'] == 'DeclRefExpr' and t.get('dk') == 'var' and not f.vars[t['v']]['t'].rstrip().endswith('&'):
                if x:
                    st.vars[fr, t['v']] = x
                else:
                    st.vars.pop((fr, t['v']), None)
            else:
                tgt = self.chain(f, nd['lhs'], fr, st)
                if tgt and nd.get('op') == '=':
                    self.store(tgt, Ref(f, nd['rhs'], ctx), st, f, nd)
                elif x:
                    for q, p in x:
                        if not p and q in st.ents:
                            st.ents[q].esc = True
        elif k == 'ReturnStmt' and 'val' in nd:
            return self.chain(f, nd['val'], fr, st)
        elif nd.get('callee') and k != 'CXXNewExpr':
            args = [self.chain(f, a, fr, st) for a in nd.get('args', ())]
            obj = self.chain(f, nd['obj'], fr, st) if 'obj' in nd else None
            ts = self.m.targets(nd)
            ccls = nd.get('ccls') or ''
            if ccls.endswith('GcCache'):
                for a in args:
                    for q, p in a or ():
                        if q in st.ents and not p:
                            self.sink(f, nd, st.ents[q], len(a), ctx)
                return
            makes = nd.get('t', '').replace('const ', '').strip().endswith('CacheEntry *') or 'CacheEntry>' in nd.get('t', '')
            takes = any(args) or obj
            calls_sink = ts and depth < 4 and any(self.relevant(g) for g in ts)
            if not (makes or takes or calls_sink):
                return
            if not ts or depth >= 4:
                for a in args:
                    for q, p in a or ():
                        if q in st.ents and nd.get('cn') not in ('move', 'forward', 'strcpy', 'wcscpy'):
                            st.ents[q].esc = True
                return
            if not (makes or takes):
                return      # analysed as a function of its own, in the contexts of its callers
            outs, rets = [], frozenset()
            c2 = ((f, nd),) + ctx
            fr2 = tuple((g.key, c['i']) for g, c in c2)
            for g in ts:
                if not g.blocks:
                    continue
                s2 = st.copy()
                for v, a in zip(g.params, args):
                    if a:
                        s2.vars[fr2, v] = a
                if obj:
                    s2.vars[fr2, 'this'] = obj
                o, r = self.run(g, c2, s2, depth + 1)
                if o is not None:
                    outs.append(o)
                rets |= r or frozenset()
            if outs:
                j = None
                for o in outs:
                    j = join(j, o)
                st.vars, st.ents = j.vars, j.ents
            if rets:
                st.vars['ret', fr, f.strip(e)] = rets
        return None

    def relevant(self, g):
        return any(x['k'] == 'CXXNewExpr' and x.get('at', '').endswith('::CacheEntry') for x in g.nodes)

    def sink(self, f, nd, ent, alts, ctx):
        self.sunk += 1
        if ent.esc:
            return
        self.report('sink', f, nd, ent, alts, ctx)


def run(m, rep, tier):
    og = Origins(m)
    af = Affine(m, og.callers)
    codes = {}
    done = set()
    pos0 = {}

    def guards_zero(f):
        if f.key not in pos0:
            pos0[f.key] = any(nd['k'] == 'BinaryOperator' and nd['op'] in ('==', '!=', '>', '<') and any(f.nodes[f.strip(nd[s])].get('mn') == 'pos' for s in ('lhs', 'rhs')) for nd in f.nodes)
        return pos0[f.key]

    def report(kind, f, nd, *a):
        if kind == 'suggestion':
            idx, c, ref = a
            key = ('s', f.key, nd['i'], idx, c)
            if key not in done:
                done.add(key)
                rep.count('suggestions')
                if idx >= c:
                    rep.bad('suggestion', f.where(nd), 'suggestion %d is stored in an error created for %d suggestions' % (idx, c), '%s|sugg|%d' % (f.q, idx))
                for o in og.origins(ref.f, ref.i, ref.ctx):
                    if o[0] == 'lit':
                        rep.bad('suggestion', f.where(nd), 'the suggestion is a constant ("%s"), which is released with the error' % o[1], '%s|sugglit' % f.q)
            return
        ent, alts, ctx = a
        key = ('k', f.key, nd['i'], tuple((g.key, c['i']) for g, c in ctx), ent.key(), tuple(sorted(repr(r.k()) for v in ent.f.values() for r in v[0])))
        if key in done:
            return
        done.add(key)
        rep.count('errors_reported')
        for fld, what in FIELDS.items():
            rep.count('obligations')
            v = ent.f.get(fld)
            if v is None:
                rep.bad('incomplete', f.where(nd), 'the error is reported without its %s' % what, '%s|%s' % (f.q, what))
                continue
            refs, must = v
            if not must and not (fld == 'startpos' and guards_zero(f)):
                rep.bad('incomplete', f.where(nd), 'on some path the error is reported without its %s' % what, '%s|%s|path' % (f.q, what))
            for r in refs:
                where = r.f.where(r.f.nodes[r.i])
                if fld == 'error_code':
                    cs = tr.const(r.f, r.i, r.ctx)
                    if cs is None:
                        rep.note('error code at %s not resolved' % where)
                        continue
                    for c in cs:
                        codes.setdefault(c, where)
                        if c == 0:
                            rep.bad('code', where, 'error code 0 means "no error"', '%s|zero' % r.f.q)
                else:
                    w = af.weight(r.f, r.i, r.ctx)
                    if w is None and not r.ctx:     # caller by caller
                        ws = [(af.weight(r.f, r.i, ((g, c),)), g.where(c)) for g, c in og.callers.get(r.f.key, ())]
                        odd = [x for x in ws if x[0] is not None and x[0] != 'k' and x[0] != (1 if fld == 'startpos' else 0)]
                        if odd:
                            w, where = odd[0]
                    ev = r.f.nodes[r.f.strip(r.i)].get('ev')
                    rep.count('positions')
                    if w is None:
                        rep.note('%s at %s is not decided' % (what, where))
                    elif fld == 'startpos' and w != 1 and w != 'k':
                        rep.bad('position', where, 'the start of the error is not a position in the paragraph (%s)' % ('it contains no position: it is a length, a number of tokens or relative to the sentence' if w == 0 else 'it contains %s positions' % w), '%s|start' % r.f.q)
                    elif fld == 'errorlen' and w != 0 and w != 'k':
                        rep.bad('position', where, 'the length of the error is a position, not a length', '%s|len' % r.f.q)
                    elif fld == 'errorlen' and ev == 0:
                        rep.bad('position', where, 'the length of the error is 0', '%s|len0' % r.f.q)

    tr = Track(m, og, report)
    n = 0
    for f in sorted(m.fns.values(), key=lambda x: x.key):
        if not f.blocks or not f.file.startswith('grammar/'):
            continue
        has = any(nd['k'] == 'CXXNewExpr' and nd.get('at', '').endswith('::CacheEntry') for nd in f.nodes)
        gets = any(nd.get('callee') and (nd.get('t', '').endswith('CacheEntry *') or 'CacheEntry>' in nd.get('t', '')) and m.targets(nd) for nd in f.nodes)
        if not (has or gets):
            continue
        n += 1
        rep.count('functions_creating_errors')
        tr.run(f)
    rep.count('sinks', tr.sunk)
    messages(m, rep, codes)
    token_positions(m, rep, og)
    if not n:
        rep.note('no function creates grammar errors')


def messages(m, rep, codes):
    fs = [f for f in m.fns.values() if f.name == 'voikko_error_message_cstr' and f.blocks]
    if not fs:
        rep.note('message function not found')
        return
    f = fs[0]
    pr = Prov(m, inline=lambda g: len(g.blocks) < 60)
    langs = {}

    def outcomes(c):
        st = St()
        st.env[(), f.params[0]] = ('c', c)
        for k, v in enumerate(f.params[1:]):
            st.env[(), v] = ('p', k + 1)
        out = {}
        for s in pr.paths(f, (), st):
            out.setdefault(tuple(sorted((a, p) for a, p in facts(s))), set()).add(s.ret)
        return out

    def facts(s):
        return [(repr(a), p) for a, p in s.facts.items()]
    unknown = outcomes(987654)
    default = {r for rs in unknown.values() for r in rs}
    if not default or any(r is None or r[0] != 's' for r in default):
        rep.note('messages not resolved')
        return
    texts = {}
    for c, where in sorted(codes.items()):
        if c < 0:
            continue
        for branch, rs in outcomes(c).items():
            for r in rs:
                rep.count('messages')
                if r is None or r[0] != 's':
                    rep.note('message of code %d not resolved' % c)
                elif r in default:
                    rep.bad('message', f.where(), 'the error code %d (set at %s) has no message: "%s"' % (c, where, r[1]), 'code%d|%s' % (c, r[1]))
                else:
                    o = texts.setdefault((branch, r), c)
                    if o != c:
                        rep.bad('message', f.where(), 'the error codes %d and %d have the same message "%s"' % (o, c, r[1]), 'same|%d|%d' % (o, c))
    rep.sample('codes', sorted(codes))


def token_positions(m, rep, og):
    for f in sorted(m.fns.values(), key=lambda x: x.key):
        if not f.blocks or not f.file.startswith('grammar/'):
            continue
        seeds = {}
        for nd in f.nodes:
            if is_write_op(nd) and nd['k'] == 'BinaryOperator' and nd.get('op') == '=':
                t, v = f.nodes[f.strip(nd['lhs'])], f.nodes[f.strip(nd['rhs'])]
                if t.get('m', '').endswith('::Sentence::pos') and v['k'] == 'DeclRefExpr' and v.get('dk') == 'var' and v['v'] in f.params:
                    seeds[f.key, v['v']] = 1
        if not seeds:
            continue
        af = Affine(m, og.callers, seeds)
        for nd in f.nodes:
            if is_write_op(nd) and nd['k'] == 'BinaryOperator' and nd.get('op') == '=':
                t = f.nodes[f.strip(nd['lhs'])]
                if t.get('m', '').endswith('::Token::pos'):
                    rep.count('token_positions')
                    w = af.weight(f, nd['rhs'])
                    if w is not None and w != 1:
                        rep.bad('position', f.where(nd), 'the position of a token is not relative to the paragraph like that of its sentence', '%s|tokenpos' % f.q)
