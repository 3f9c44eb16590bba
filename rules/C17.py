"""No C++ exception leaves the C interface.

Exception flow over the whole program: explicit throws, standard and third-party functions that report by exception, through calls and
handlers (with the exception class hierarchy). Rule 1: nothing may leave an exported function. Rule 2: nothing may reach the end of a
destructor or noexcept function. Positional string accesses (at, substr, erase, ...) count as throwing unless the comparison facts that
hold at the call keep the position inside the string.
"""
from rules import common as C
from vlib.effects import Effects
from vlib.facts import Facts
from vlib.flow import defs_at
from vlib.model import AnalysisError
from vlib.throws import Throws, positional

RULE = 'interprocedural exception flow (types thrown, handlers, class hierarchy) into the exported functions and into destructors; positions of string accesses from dominating comparison facts'
ASSUMPTIONS = ['memory allocation does not fail', 'third-party functions throw what their headers and documentation list', 'positions that are neither constants nor results of find() are in range']

PROP = {
    'id': 'C17', 'title': 'No C++ exception leaves the C interface',
    'statement': 'Every exported function returns normally whatever its input and whatever the dictionary files contain: malformed text, unreadable, truncated or inconsistent dictionary files, unknown back ends and unsupported '
                 'languages are reported through the documented error values, and no C++ exception ever propagates out of the library into the (C, Python, Java, C#, Lisp) caller or out of a destructor.',
    'quantifier': {'over': ['inputs', 'configurations', 'crash points'], 'text': 'all exported functions, all inputs and all contents of dictionary directories and files'},
    'why_tests_cant': 'An escaping exception ends the process; the tests use well-formed dictionaries and hardly any malformed text, so that most throw sites are never reached.',
    'anchors': {'files': ['libvoikko/src/setup/setup.cpp', 'libvoikko/src/setup/V3DictionaryLoader.cpp', 'libvoikko/src/setup/V5DictionaryLoader.cpp', 'libvoikko/src/setup/LanguageTag.cpp', 'libvoikko/src/utils/StringUtils.cpp',
                          'libvoikko/src/fst/Transducer.cpp', 'libvoikko/src/spellchecker/HfstSpeller.cpp', 'libvoikko/src/morphology/HfstAnalyzer.cpp'],
                'mechanism': [{'name': 'catch clauses around initialisation, option setting and text conversion', 'where': 'libvoikko/src/setup/setup.cpp, libvoikko/src/utils/StringUtils.cpp'}],
                'observe_at': ['voikkoInit', 'voikkoSetBooleanOption', 'voikko_list_dicts', 'all exported functions']}}

LEN = ('length', 'size')


class Positions:
    def __init__(self, m, rep):
        self.m = m
        self.rep = rep
        self.F = Facts(m, eff=Effects(m))
        self.memo = {}

    def __call__(self, f, nd):
        k = (f.key, nd['i'])
        if k not in self.memo:
            self.memo[k] = self.decide(f, nd)
        return self.memo[k]

    def is_len(self, t, s):
        return t[0] == 'call' and t[2:] == (s,) and any(('::%s(' % x) in t[1] for x in LEN)

    def lit(self, t):
        """length of the text that a term denotes, if it is a literal"""
        if t[0] == 'x':
            g = self.m.fns.get(t[1])
            if g is not None and g.nodes[t[2]]['k'] == 'StringLiteral':
                return len(g.nodes[t[2]]['s'])
            if g is not None and g.nodes[t[2]]['k'] == 'CharacterLiteral':
                return 1
        if t[0] == 'c':
            return 1
        if t[0] == 'call' and 'basic_string' in t[1] and len(t) > 2:
            return self.lit(t[2])
        return None

    def least(self, facts, s):
        """least possible length of string s"""
        n = 0
        for a, op, b in facts:
            for x, o, y in ((a, op, b), (b, {'<': '>', '<=': '>=', '==': '==', '!=': '!='}.get(op, op), a)):
                if y[0] == 'c' and self.is_len(x, s):
                    if o == '>' and isinstance(y[1], int):
                        n = max(n, y[1] + 1)
                    elif o in ('>=', '==') and isinstance(y[1], int):
                        n = max(n, y[1])
                    elif o == '!=' and y[1] == 0:
                        n = max(n, 1)
                if y == ('c', 0) and x[0] == 'call' and s in x[2:]:
                    name = x[1].split('(')[0].split('::')[-1]
                    if name in ('find', 'compare', 'rfind') and o == '==' and x[2] == s and len(x) > 3:
                        ls = [self.lit(z) for z in x[3:]]
                        cs = [z for z, l in zip(x[3:], ls) if l is not None and z[0] != 'c']
                        if cs:
                            n = max(n, self.lit(cs[0]) or 0)
                    elif name == 'empty' and o == '==':
                        n = max(n, 1)
                    elif x[1] in self.m.fns and o == '!=':
                        # a helper that tests the string against a literal
                        for z in x[2:]:
                            if z != s and z[0] == 'x':
                                n = max(n, self.lit(z) or 0)
        return n

    @staticmethod
    def expand(facts):
        """comparison terms that are known to be true or false become facts"""
        neg = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
        out = set(facts)
        for a, op, b in facts:
            for x, y in ((a, b), (b, a)):
                if y == ('c', 0) and op in ('==', '!=') and isinstance(x[0], str) and x[0][:1] == 'b' and x[0][1:] in neg and len(x) == 3:
                    o = x[0][1:] if op == '!=' else neg[x[0][1:]]
                    l, r = x[1], x[2]
                    if o in ('>', '>='):
                        l, r, o = r, l, {'>': '<', '>=': '<='}[o]
                    out.add((l, o, r))
        return frozenset(out)

    def decide(self, f, nd):
        m, sym = self.m, self.F.sym
        self.rep.count('positional_accesses')
        if 'obj' not in nd or not nd.get('args'):
            return True
        facts = self.F.at(f, nd['i'])
        for b in [a['i'] for a in f.ancestors(nd['i'])]:
            if facts:
                break
            facts = self.F.at(f, b)
        s = sym(f, nd['obj'])
        if self.choice_guard(f, nd):
            facts = facts | self.choice_guard(f, nd)
        facts = self.expand(facts)
        pos = sym(f, nd['args'][0])
        strict = nd['cn'] == 'at'
        if 'map<' in nd['callee'] or 'Map' in nd['callee']:
            return any(t[0] == 'call' and s in t[2:] and pos in t[2:] for a, op, b in facts for t in (a, b))
        if pos[0] == 'c' and isinstance(pos[1], int):
            n = self.least(facts, s)
            ok = pos[1] < n if strict else pos[1] <= n
            self.rep.count('constant_positions')
            return ok
        base, add = pos, 0
        if pos[0] == '+' and len(pos[1]) == 2:
            cs = [x for x in pos[1] if x[0] == 'c']
            os_ = [x for x in pos[1] if x[0] != 'c']
            if len(cs) == 1 and len(os_) == 1:
                base, add = os_[0], cs[0][1]
        if add < 0 and self.is_len(base, s):
            # counted from the end: the string must be known to be that long
            self.rep.count('positions_from_the_end')
            if self.least(facts, s) >= -add:
                return True
            return any(self.about(x, s) for a, op, b in facts for x in (a, b))
        finds = self.find_terms(f, nd, base)
        if finds:
            self.rep.count('found_positions')
            npos = [t for a, op, b in facts for t, u in ((a, b), (b, a)) if op == '!=' and self.is_npos(u)]
            known = [base] + finds
            if not any(t in known for t in npos) and not any(op in ('<', '<=') and a in known for a, op, b in facts) and not any(op == '==' and (a in known or b in known) for a, op, b in facts):
                return False
            if add > 0:
                ls = [max([self.lit(z) or 0 for z in t[3:4]] or [0]) for t in finds]
                if any(0 < l < add for l in ls):
                    return False
            return True
        if strict:
            self.rep.count('index_positions')
            return any(op in ('<', '<=', '!=') and pos in (a, b) for a, op, b in facts) or self.in_range_loop(f, nd)
        self.rep.count('positions_taken_on_trust')
        return True

    def about(self, t, s):
        if t == s:
            return True
        return any(self.about(x, s) if x and isinstance(x[0], str) else any(isinstance(y, tuple) and self.about(y, s) for y in x) for x in t[1:] if isinstance(x, tuple))

    def in_range_loop(self, f, nd):
        return any(a['k'] in ('CXXForRangeStmt',) for a in f.ancestors(nd['i']))

    def choice_guard(self, f, nd):
        """facts from enclosing conditional operators"""
        out = frozenset()
        child = nd['i']
        for a in f.ancestors(nd['i']):
            if a['k'] == 'ConditionalOperator' and len(a.get('c', ())) == 3:
                if child == a['c'][1]:
                    out |= self.F.atoms(f, a['c'][0], True)
                elif child == a['c'][2]:
                    out |= self.F.atoms(f, a['c'][0], False)
            child = a['i']
        return out

    def is_npos(self, t):
        return t[0] == 'g' and t[1].endswith('::npos') or t[0] == 'c' and t[1] in (-1, 2**64 - 1)

    def find_terms(self, f, nd, base):
        if base[0] == 'call' and any(('::%s(' % x) in base[1] for x in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')):
            return [base]
        if base[0] == 'var':
            ds = defs_at(f, base[2], nd['i'])
            if ds:
                ts = [self.F.sym(f, d) if d is not None else None for d in ds]
                if all(t is not None and t[0] == 'call' and '::find' in t[1] or t is not None and t[0] == 'call' and '::rfind' in t[1] for t in ts):
                    return ts
        return []


def run(m, rep, tier):
    P = Positions(m, rep)
    T = Throws(m, P)
    rep.need(len(m.exported()), 60, 'exported functions')
    n = 0
    for f in m.fns.values():
        for nd in f.nodes:
            if nd['k'] == 'CXXThrowExpr':
                n += 1
    rep.count('throw_sites', n)
    rep.need(n, 15, 'throw sites')
    rep.count('functions_with_handlers', sum(1 for f in m.fns.values() if any(x['k'] == 'CXXTryStmt' for x in f.nodes)))
    rep.count('functions_that_may_throw', sum(1 for f in m.fns.values() if T.of(f)))
    for f in m.exported():
        rep.count('exported_functions')
        for t in sorted(T.of(f)):
            nd, _ = T.of(f)[t]
            rep.bad('escapes', f.where(nd), '%s can leave %s: %s' % (t, f.name, T.trace(f, t)), '%s|%s' % (f.name, t))
    api = m.reach([f.key for f in m.exported()])
    for k, ts in sorted(T.stopped.items()):
        f = m.fns[k]
        if f.key not in api:
            continue
        for t, (nd, _) in sorted(ts.items()):
            rep.bad('noexcept', f.where(nd), '%s can reach the end of %s, which nothing may leave' % (t, f.q), '%s|%s' % (f.q, t))
