"""Bindings: release of native results, use of closed instances, locking, embedded NUL characters.

The methods of each binding are executed abstractly over all paths (loops unrolled, helpers of the same binding entered), following the
native results they hold, the validity check of the handle and of the text arguments, and the lock.
Rule 1: a native result is released exactly once, by its own release function, on every path unless it is null, and not used afterwards.
Rule 2: no native function gets the handle of a closed instance; closing releases the handle once and marks the instance closed.
Rule 3 (Java, C#): native functions are called with the handle only while the lock of the instance is held.
Rule 5: a result that may be null is not read before it has been compared with null.
Rule 4: texts passed to functions that take NUL-terminated strings have been checked not to contain NUL.
"""
import re
from rules import C11
from vlib import bind as B
from vlib.model import AnalysisError

NEEDS_MODEL = False
RULE = 'path-sensitive typestate over a common statement form of the Python, Java, C# and JavaScript bindings: native results held, handle checked, lock held, input validated; structural check of the Common Lisp calls'
ASSUMPTIONS = ['conversion helpers do not throw between acquisition and release', 'Java and C# instances may be shared between threads; Python and JavaScript instances are documented or designed for one thread',
               'a result assigned to a local variable is reachable through that variable and its plain copies only']

PROP = {
    'id': 'C12', 'title': 'Bindings release native results once and never use a closed instance',
    'statement': 'In the Python, Java, C# and JavaScript bindings every native result (suggestions, analyses, grammar errors, hyphenations, descriptions, dictionary and language lists) is released exactly once, with the '
                 'release function that belongs to it, on every path, and is not used after that; a result that is null for some texts (too long, not convertible, nothing found) is never read without a test for null; methods called on a closed instance fail with an exception instead of passing a dead handle to the library, and closing '
                 'twice is harmless; Java and C# methods use the native handle only while holding the lock of the instance; texts with embedded NUL characters never reach functions that would cut them at the NUL.',
    'quantifier': {'over': ['inputs', 'histories', 'schedules'], 'text': 'all methods of the bindings, all return paths, use after closing, concurrent calls on one instance'},
    'why_tests_cant': 'Leaks and double releases do not change results; use after closing and races need histories that the binding tests do not have.',
    'anchors': {'files': ['libvoikko/python/libvoikko.py', 'libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java', 'libvoikko/cs/libvoikko/Voikko.cs', 'libvoikko/js/libvoikko_api.js', 'libvoikko/cl'],
                'mechanism': [{'name': 'Voikko classes', 'where': 'libvoikko/python/libvoikko.py, libvoikko/java, libvoikko/cs, libvoikko/js'}],
                'observe_at': ['libvoikko.Voikko', 'org.puimula.libvoikko.Voikko']}}

# results that are null for some inputs: text that is too long or cannot be converted, unknown attributes, no error, nothing to suggest
NULLABLE = frozenset(['voikkoSuggestCstr', 'voikkoSuggestUcs4', 'voikkoHyphenateCstr', 'voikkoHyphenateUcs4', 'voikkoInsertHyphensCstr', 'voikkoAnalyzeWordCstr',
                      'voikkoNextGrammarErrorCstr', 'voikkoNextGrammarErrorUcs4', 'voikkoGetGrammarErrorSuggestions', 'voikkoGetAttributeValues'])

NULLS = r'(?:null|None|nullptr|0|IntPtr\.Zero|Pointer\.NULL|undefined)'


class Exec:
    def __init__(self, rep, lang, methods, aliases, api, handle, cls):
        self.rep, self.lang, self.aliases, self.api, self.cls = rep, lang, aliases, api, cls
        self.handle = handle
        self.by = {}
        for m in methods:
            if m.cls == cls or not m.cls or lang == 'JavaScript':
                self.by.setdefault(m.name.lstrip('_'), []).append(m)
        self.methods = methods
        self.stack = []
        self.sums = {}
        self.root = None

    # states are dicts: var -> ('H', release set, function) | ('N',) | ('F', function); '#valid', '#lock' booleans; '#ok' frozenset of checked texts; '#alias'
    def native(self, name):
        return self.aliases.get(name, name) if self.aliases.get(name, name) in self.api else None

    def bad(self, rule, m, msg, fp):
        self.rep.bad(rule, m.where(), '%s binding: %s' % (self.lang, msg), '%s|%s' % (self.lang, fp))

    def canon(self, st, v):
        k = 0
        while ('a', v) in st and k < 5:
            v = st[('a', v)]
            k += 1
        return v

    def expr(self, m, e, st, target=None):
        """effects of evaluating e in state st; returns list of (state, value) with value None | ('H', ...)"""
        if not e:
            return [(st, None)]
        t = e.strip()
        while t.startswith('(') and B.args_of(t, 0)[1] == len(t) - 1:
            t = t[1:-1].strip()
        br = branches(t)
        if br is not None:
            kind, parts = br
            if kind == '?':
                c, a, b = parts
                out = []
                for s, v in self.expr(m, c, st):
                    for tr, x in ((True, a), (False, b)):
                        y = self.refine(m, c, s, tr)
                        if y is not None:
                            out += self.expr(m, x, y, target)
                return dedupe(out)
            cur, out = [st], []
            for i, p in enumerate(parts):
                nxt = []
                for s in cur:
                    for s2, v in self.expr(m, p, s):
                        if i + 1 == len(parts):
                            out.append((s2, v))
                            continue
                        y = self.refine(m, p, s2, kind == '&')
                        if y is not None:
                            nxt.append(y)
                        y = self.refine(m, p, s2, kind != '&')
                        if y is not None:
                            out.append((y, None))
                cur = dedupe(nxt)
            return dedupe(out)
        if t in ('None', 'null'):
            return [(st, ('N',))]
        cs = B.calls(e)
        # inner calls first
        cs.sort(key=lambda c: (c[4], -c[3]))
        outer = e.strip()
        sts = [(st, None)]
        freed_args = set()
        for rc, cn, args, s0, s1 in cs:
            whole = re.sub(r'^\(\w+\)', '', outer)
            direct = s0 == 0 and s1 == len(outer) or outer[s0:s1] == whole or re.match(r'^new ', outer[:s0] or '') is None and outer[s1:].strip() == '' and outer[:s0].strip() in ('', 'await')
            nf = self.native(cn)
            nxt = []
            for s, v in sts:
                if nf:
                    nxt += self.native_call(m, nf, cn, args, s, direct, target, e)
                else:
                    nxt += self.local_call(m, rc, cn, args, s, direct, v)
            sts = nxt
        if cs and cs[-1][3] == 0 and cs[-1][4] == len(outer) and not self.native(cs[-1][1]) and cs[-1][1] in ('string_at', 'wstring_at', 'UTF8ToString'):
            sts = [(s, v or ('S',)) for s, v in sts]
        # uses of released results, and of results that may be null
        ws = B.words(e)
        for w in set(ws):
            c = self.canon(st, w)
            x = st.get(c)
            if isinstance(x, tuple) and x and x[0] in 'HQ' and x[-1] is True and self.derefs(e, w, cs):
                self.bad('null-result', m, '%s uses the result of %s without having checked that it is not null' % (m.name, x[-2]), '%s|%s|null' % (m.name, x[-2]))
        for s, v in sts:
            for w in ws:
                c = self.canon(st, w)
                if st.get(c, ('',))[0] == 'F':
                    self.bad('use-after-release', m, '%s uses the result of %s after it has been released' % (m.name, st[c][1]), '%s|%s|uaf' % (m.name, c))
        return sts

    def derefs(self, e, w, cs):
        """does expression e read through pointer w?"""
        if re.search(r'(?<![\w.])%s\s*(?:\[|\.(?!\s*(?:equals|Equals|is_null)\b))' % re.escape(w), e):
            return True
        if re.search(r'(?:^|[(=!&|,;<>]\s*)\*\s*%s\b' % re.escape(w), e):
            return True
        for rc, cn, args, s0, s1 in cs:
            if cn in ('bool', 'Equals', 'equals', 'isNull', 'print', 'Boolean', 'addressof', 'byref', 'len') or self.native(cn):
                continue
            if cn.lstrip('_') in self.by and (not rc or rc.split('.')[0] in ('self', 'this', 'cls', self.cls)):
                continue
            if any(re.sub(r'^\([\w* ]+\)\s*', '', a.strip()) == w for a in args) and self.converts(rc, cn):
                return True
        return False

    def converts(self, rc, cn):
        """does this function of the platform read the text or array at its argument?"""
        return cn in ('string_at', 'wstring_at', 'cast', 'UTF8ToString', 'getValue', 'Pointer_stringify', 'AsciiToString', 'n2s', 'PtrToStringAnsi', 'PtrToStringUTF8', 'PtrToStringAuto', 'ReadIntPtr', 'ReadByte', 'stringFromPointer')

    def native_call(self, m, nf, cn, args, st, direct, target, e):
        rep = self.rep
        rep.count('native call paths')
        # the handle
        if args and self.api[nf][1] and 'VoikkoHandle' in self.api[nf][1][0] and nf != 'voikkoTerminate':
            if not st.get('#valid'):
                self.bad('closed-instance', self.root, '%s passes the handle to %s without having checked that the instance is still open' % (self.root.name, nf), '%s|%s|closed' % (self.root.name, nf))
            if self.lang in ('Java', 'C#') and not st.get('#lock'):
                self.bad('no-lock', self.root, '%s calls %s without holding the lock of the instance' % (self.root.name, nf), '%s|%s|lock' % (self.root.name, nf))
            if len(args) > 1 and B.ctype(self.api[nf][1][1]) in ('str', 'wstr') and len(self.api[nf][1]) != 4 or nf in ('voikkoInsertHyphensCstr', 'voikkoNextSentenceStartCstr', 'voikkoNextSentenceStartUcs4'):
                for ai in ((1, 2) if nf == 'voikkoInsertHyphensCstr' else (1,)):
                    if ai < len(args):
                        self.text(m, nf, args[ai], st)
        if nf == 'voikkoTerminate':
            if st.get('#handle') == 'closed':
                self.bad('double-close', m, '%s closes the handle twice' % m.name, m.name + '|twice')
            if not st.get('#hnonnull'):
                self.bad('double-close', m, '%s calls voikkoTerminate without having checked that the handle is open' % m.name, m.name + '|unchecked')
            st = dict(st)
            st['#handle'] = 'closed'
            return [(st, None)]
        if nf in B.FREES:
            a = args[0] if args else ''
            w = [x for x in B.words(a) if self.canon(st, x) in st]
            if re.match(r'^\w+$', a):
                c = self.canon(st, a)
                v = st.get(c)
                if v is not None and v[0] == 'H':
                    if nf not in v[1]:
                        self.bad('wrong-release', m, '%s releases the result of %s with %s' % (m.name, v[2], nf), '%s|%s|%s' % (m.name, v[2], nf))
                    st = dict(st)
                    st[c] = ('F', v[2])
                    rep.count('releases')
                elif v is not None and v[0] == 'F':
                    self.bad('double-release', m, '%s releases the result of %s twice' % (m.name, v[1]), '%s|%s|double' % (m.name, v[1]))
            return [(st, None)]
        if nf in B.RELEASE and nf != 'voikkoInit':
            rep.count('acquisitions')
            val = ('H', frozenset(B.RELEASE[nf]), nf, nf in NULLABLE)
            if direct:
                return [(st, val)]
            self.bad('not-kept', m, '%s does not keep the result of %s to release it' % (m.name, nf), '%s|%s|notkept' % (m.name, nf))
        if nf in NULLABLE and direct:
            return [(st, ('Q', nf, True))]
        return [(st, None)]

    def text(self, m, nf, a, st):
        ws = {self.tx(st, w) for w in B.words(a)}
        ok = st.get('#ok', frozenset())
        cand = [w for w in ws if isinstance(w, tuple)]
        self.rep.count('text arguments')
        for w in cand:
            if w not in ok:
                self.bad('nul-check', self.root, '%s passes a text to %s without having checked it for NUL characters' % (self.root.name, nf), '%s|%s|nul' % (self.root.name, nf))
                return

    def tx(self, st, w):
        """root parameter that a local text comes from: ('p', name)"""
        return st.get(('t', w), w)

    def local_call(self, m, rc, cn, args, st, direct, val):
        base = cn.lstrip('_')
        if rc and rc.split('.')[0] not in ('self', 'this', 'cls', self.cls) and rc not in ('self', 'this', 'cls'):
            return [(st, val)]
        # parameter that is a function (Python closures)
        fns = self.by.get(base, [])
        if m.lang == 'python' and cn in m.params:
            acq = self.closure_results(m, cn)
            if acq:
                self.rep.count('acquisitions')
                v = ('H', frozenset.intersection(*[frozenset(B.RELEASE[x]) for x in acq]), '/'.join(sorted(acq)), False)
                return [(st, v if direct else val)]
        if m.lang == 'python' and cn in m.inner:
            fns = [m.inner[cn]]
        fns = [g for g in fns if len([p for p in g.params if p not in ('self', 'cls')]) == len(args)] or ([] if len(fns) != 1 else fns)
        if self.is_valid_handle(base):
            st = dict(st)
            st['#valid'] = True
            return [(st, val)]
        if not fns or len(self.stack) > 6 or fns[0] in self.stack:
            return [(st, val)]
        out = []
        for g in fns:
            ps = [p for p in g.params if p not in ('self', 'cls')]
            inner = {k: v for k, v in st.items() if isinstance(k, str) and k[0] == '#'}
            back = {}
            for p, a in zip(ps, args):
                if re.match(r'^\w+$', a):
                    c = self.canon(st, a)
                    if c in st and st[c][0] in 'HFQ':
                        inner[p] = st[c]
                        back[p] = c
                # texts keep their identity
                tws = {self.tx(st, w) for w in B.words(a)}
                tws = {w for w in tws if isinstance(w, tuple)}
                if tws:
                    inner[('t', p)] = sorted(tws)[0]
            if 'synchronized' in g.mods:
                inner['#lock'] = True
            self.stack.append(g)
            try:
                exits = self.run_body(g, inner)
            finally:
                self.stack.pop()
            seen = []
            for kind, s2, rv in exits:
                n = dict(st)
                for k in ('#valid', '#ok', '#handle', '#hnonnull'):
                    if k in s2:
                        n[k] = s2[k]
                for p, c in back.items():
                    if p in s2:
                        n[c] = s2[p]
                if kind == 'throw':
                    continue
                r = rv if rv is not None and rv[0] in 'HQ' else None
                if r is not None and not direct and r[0] == 'Q':
                    r = None
                if r is not None and not direct:
                    self.bad('not-kept', m, '%s does not keep the result of %s to release it' % (m.name, r[2]), '%s|%s|notkept' % (m.name, r[2]))
                    r = None
                x = (n, r if r is not None else (None if direct else val))
                if x not in seen:
                    seen.append(x)
            out += seen
        return out[:64] or [(st, val)]

    def closure_results(self, m, param):
        """native acquiring functions returned by the closures passed for parameter `param`"""
        acq = set()
        pos = [p for p in m.params if p not in ('self', 'cls')].index(param)
        for g in self.methods:
            for e in C11.exprs(g.body):
                for rc, cn, a, _, _ in B.calls(e):
                    if cn.lstrip('_') == m.name.lstrip('_') and pos < len(a):
                        f = g.inner.get(a[pos])
                        if f is not None:
                            for s in f.body:
                                if s[0] == 'return':
                                    for _, c2, _, _, _ in B.calls(s[1]):
                                        n = self.native(c2)
                                        if n in B.RELEASE:
                                            acq.add(n)
                        else:
                            n = self.native(a[pos].split('.')[-1])
                            if n in B.RELEASE:
                                acq.add(n)
        return acq

    def is_valid_handle(self, base):
        """does this method throw exactly when the handle is null?"""
        if base in self.sums:
            return self.sums[base]
        r = False
        for m in self.by.get(base, ()):
            if not [p for p in m.params if p not in ('self', 'cls')] and len(m.body) >= 1 and m.body[0][0] == 'if' and any(s[0] == 'throw' for s in m.body[0][2]):
                if self.handle_test(m.body[0][1]) is False:
                    r = True
        self.sums[base] = r
        return r

    def handle_test(self, c):
        """True: condition implies that the handle is open, False: that it is closed, None: neither"""
        if self.lang == 'Python':
            c = re.sub(r'\bis\b', '==', re.sub(r'\bis\s+not\b', '!=', c))
        c = c.replace(' ', '')
        h = r'(?:this\.|self\.)?_*' + self.handle + r'\b'
        if re.match(r'^\(?%s(?:!==?|isnot)%s\)?$' % (h, NULLS), c) or re.match(r'^%s$' % h, c):
            return True
        if re.match(r'^\(?%s(?:===?|is)%s\)?$' % (h, NULLS), c) or re.match(r'^(?:!|not)%s$' % h, c):
            return False
        return None

    # ---- conditions
    def refine(self, m, c, st, tr):
        """state with condition c known to be tr, or None if impossible"""
        c0 = c.strip()
        while c0.startswith('(') and B.args_of(c0, 0)[1] == len(c0) - 1:
            c0 = c0[1:-1].strip()
        for op in (('||', ' or '), ('&&', ' and ')):
            parts = split_top(c0, op)
            if len(parts) > 1:
                conj = op[0] == '&&'
                if tr == conj:
                    for p in parts:
                        st = self.refine(m, p, st, tr)
                        if st is None:
                            return None
                return st
        mo = re.match(r'^(?:!(?!=)|not )(.*)$', c0, re.S)
        if mo:
            return self.refine(m, mo.group(1), st, not tr)
        ht = self.handle_test(c0)
        if ht is not None:
            st = dict(st)
            if ht == tr:
                st['#hnonnull'] = True
                st['#valid'] = True
            else:
                st['#valid'] = False
                st['#hnonnull'] = False
            return st
        k = re.sub(r'\bis\s+not\b', '!=', c0) if self.lang == 'Python' else c0
        k = re.sub(r'\bis\b', '==', k) if self.lang == 'Python' else k
        k = k.replace(' ', '')
        mo = re.match(r'^(?:bool\()?(\w+)\)?$', k) or re.match(r'^(\w+)(?:!==?|isnot)%s$' % NULLS, k)
        nonnull = True
        if not mo or mo.group(1) in ('true', 'false', 'True', 'False'):
            mo = re.match(r'^(\w+)(?:===?|is)%s$' % NULLS, k)
            nonnull = False
        if mo:
            v = self.canon(st, mo.group(1))
            if v in st and st[v][0] in 'HNFQS':
                isnonnull = (tr == nonnull)
                if st[v][0] == 'S':
                    return st if isnonnull or tr == nonnull else None if not re.match(r'^\w+$', k) else st
                if st[v][0] == 'N':
                    return None if isnonnull else st
                if not isnonnull and st[v][0] in 'HQ':
                    st = dict(st)
                    st[v] = ('N',)
                elif isnonnull and st[v][0] in 'HQ' and st[v][-1]:
                    st = dict(st)
                    st[v] = st[v][:-1] + (False,)
                return st
        for rc, cn, a, s0, s1 in B.calls(c0):
            if s0 == 0 and s1 == len(c0) and self.is_validator(cn.lstrip('_')):
                if tr:
                    ws = {self.tx(st, w) for x in a for w in B.words(x)}
                    st = dict(st)
                    st['#ok'] = st.get('#ok', frozenset()) | {w for w in ws if isinstance(w, tuple)}
                return st
        d = nul_test(c0)
        if d is not None and d[1] == tr:
            t = self.tx(st, d[0])
            if isinstance(t, tuple):
                st = dict(st)
                st['#ok'] = st.get('#ok', frozenset()) | {t}
        return st

    def is_validator(self, base):
        for m in self.by.get(base, ()):
            if len(m.body) == 1 and m.body[0][0] == 'return':
                d = nul_test(m.body[0][1])
                if d is not None and d[1]:
                    return True
        return False

    # ---- statements; returns (normal states, exits)
    def block(self, m, body, states):
        exits = []
        for s in body:
            nxt = []
            for st in states:
                n, e = self.stmt(m, s, st)
                nxt += n
                exits += e
            states = dedupe(nxt)
            if not states:
                break
        return states, exits

    def stmt(self, m, s, st):
        k = s[0]
        if k == 'expr':
            out = []
            for x, v in self.expr(m, s[1], st):
                if v is not None and v[0] == 'H':
                    self.bad('not-kept', m, '%s does not keep the result of %s to release it' % (m.name, v[2]), '%s|%s|notkept' % (m.name, v[2]))
                out.append(x)
            return out, []
        if k == 'set':
            out = []
            for x, v in self.expr(m, s[2], st, s[1]):
                t = s[1]
                x = dict(x)
                if re.match(r'^(this\.|self\.)?_*%s$' % self.handle, t) and not s[3]:
                    if re.match(r'^%s$' % NULLS, s[2].strip()):
                        x['#handlefield'] = 'null'
                    else:
                        x['#handlefield'] = 'set'
                if re.match(r'^(this\.|self\.)?_*lib$', t) and not s[3]:
                    x['#lib'] = s[2]
                if re.match(r'^\w+$', t):
                    cur = x.get(t)
                    if cur is not None and cur[0] == 'H' and not s[3] and t not in B.words(s[2]):
                        self.bad('leak', m, '%s overwrites the result of %s before it is released' % (m.name, cur[2]), '%s|%s|overwrite' % (m.name, cur[2]))
                    if not s[3]:
                        x.pop(t, None)
                        x.pop(('a', t), None)
                        if v is not None and v[0] in 'HQNS':
                            x[t] = v
                        elif re.match(r'^(\([\w*]+\))?\w+$', s[2]):
                            w = re.sub(r'^\([\w*]+\)', '', s[2])
                            if self.canon(x, w) in x:
                                x[('a', t)] = w
                        tws = {self.tx(x, w) for w in B.words(s[2])}
                        tws = {w for w in tws if isinstance(w, tuple)}
                        if tws:
                            x[('t', t)] = sorted(tws)[0]
                        elif s[2] not in ('',):
                            x.pop(('t', t), None)
                elif v is not None and v[0] == 'H':
                    self.bad('not-kept', m, '%s stores the result of %s where it is not released' % (m.name, v[2]), '%s|%s|field' % (m.name, v[2]))
                out.append(x)
            return out, []
        if k == 'return':
            ex = []
            for x, v in self.expr(m, s[1], st):
                w = s[1].strip()
                if re.match(r'^\w+$', w):
                    c = self.canon(x, w)
                    if c in x and x[c][0] in 'HQ':
                        v = x[c]
                        x = dict(x)
                        x.pop(c)
                ex.append(('return', x, v))
            return [], ex
        if k == 'throw':
            return [], [('throw', x, None) for x, v in self.expr(m, s[1], st)]
        if k == 'if':
            out, ex = [], []
            for x, v in self.expr(m, s[1], st):
                for tr, b in ((True, s[2]), (False, s[3])):
                    y = self.refine(m, s[1], x, tr)
                    if y is not None:
                        n, e = self.block(m, b, [y])
                        out += n
                        ex += e
            return dedupe(out), ex
        if k == 'loop':
            out, ex = [], []
            cur = [st]
            for it in range(3):
                ent, nx = [], []
                for x in cur:
                    if s[1] is None:
                        ent.append(x)
                    elif s[1] == 'for':
                        ent.append(x)
                        out.append(x)
                    else:
                        for y, v in self.expr(m, s[1], x):
                            a, b = self.refine(m, s[1], y, True), self.refine(m, s[1], y, False)
                            if a is not None:
                                ent.append(a)
                            if b is not None:
                                out.append(b)
                n, e = self.block(m, s[2], dedupe(ent))
                for kind, x, v in e:
                    if kind == 'break':
                        out.append(x)
                    elif kind == 'continue':
                        n.append(x)
                    else:
                        ex.append((kind, x, v))
                n, e = self.block(m, s[3], dedupe(n))
                cur = dedupe(n)
                if not cur:
                    break
            return dedupe(out), ex
        if k in ('break', 'continue'):
            return [], [(k, st, None)]
        if k == 'lock':
            was = st.get('#lock')
            n, e = self.block(m, s[1], [dict(st, **{'#lock': True})])
            n = [dict(x, **{'#lock': was}) for x in n]
            return n, [(kk, dict(x, **{'#lock': was}), v) for kk, x, v in e]
        if k == 'switch':
            out, ex = [], []
            dflt = False
            for x, v in self.expr(m, s[1], st):
                for labs, b in s[2]:
                    dflt |= 'default' in labs
                    n, e = self.block(m, b, [x])
                    out += n
                    for kind, y, v2 in e:
                        if kind == 'break':
                            out.append(y)
                        else:
                            ex.append((kind, y, v2))
                if not dflt:
                    out.append(x)
            return dedupe(out), ex
        if k == 'try':
            n, e = self.block(m, s[1], [st])
            for h in s[2]:
                # the body may fail at its start, or after its acquisitions were released
                n2, e2 = self.block(m, h, [st])
                n += n2
                e += e2
                for kind, y, v in [z for z in e if z[0] == 'throw']:
                    n3, e3 = self.block(m, h, [y])
                    n += n3
                    e += e3
            if s[2]:
                e = [z for z in e if z[0] != 'throw'] + [z for z in e if z[0] == 'throw' and z[1] is not st]
            if s[3]:
                n, e2 = self.block(m, s[3], dedupe(n))
                ex = list(e2)
                for kind, y, v in e:
                    y2 = dict(y)
                    if v is not None and v[0] == 'H':
                        ex.append((kind, y, v))
                        continue
                    n4, e4 = self.block(m, s[3], [y2])
                    ex += [(kind, z, v) for z in n4] + e4
                return dedupe(n), ex
            return dedupe(n), e
        return [st], []

    def run_body(self, m, st):
        n, ex = self.block(m, m.body, [st])
        ex = ex + [('end', x, None) for x in n]
        params = set(m.params)
        out = []
        for kind, x, v in ex:
            for k2, y in x.items():
                if isinstance(k2, str) and k2[0] != '#' and y[0] == 'H' and k2 not in params and kind in ('return', 'end', 'throw'):
                    self.bad('leak', m, '%s does not release the result of %s on %s' % (m.name, y[2], {'throw': 'a path that throws', 'return': 'a path that returns', 'end': 'the path to its end'}[kind]), '%s|%s|leak' % (m.name, y[2]))
            if (kind, x, v) not in out:
                out.append((kind, x, v))
        return out[:64]

    def top(self, m):
        self.root = m
        st = {}
        for p in m.params:
            if p not in ('self', 'cls'):
                st[('t', p)] = ('p', p)
        if 'synchronized' in m.mods:
            st['#lock'] = True
        if self.lang == 'Python' and self.cls_dummy:
            st['#valid'] = True
        self.stack = [m]
        return self.run_body(m, st)


def split_top(s, ops):
    """split at top level operators"""
    out, d, cur, i, q = [], 0, '', 0, None
    ns = s
    while i < len(s):
        c = s[i]
        if q:
            if c == '\\':
                cur += c
                i += 1
                c = s[i]
            elif c == q:
                q = None
            cur += c
            i += 1
            continue
        if c in '"\'':
            q = c
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if d == 0:
            for o in ops:
                if s.startswith(o, i):
                    out.append(cur)
                    cur = ''
                    i += len(o)
                    break
            else:
                cur += c
                i += 1
            continue
        cur += c
        i += 1
    out.append(cur)
    return [x.strip() for x in out]


def branches(t):
    """('?', [c, a, b]) | ('|', parts) | ('&', parts) | None for the outermost operator that evaluates an operand conditionally"""
    q = split_top(t, ('??', '?.', '?'))
    if len(split_top(t, ('?',))) == 2 and len(q) == 2 and not re.search(r'\?[.?]', t):
        ab = split_top(split_top(t, ('?',))[1], (':',))
        if len(ab) == 2:
            return '?', [q[0], ab[0], ab[1]]
    q = split_top(t, (' if ',))
    if len(q) == 2:
        e = split_top(q[1], (' else ',))
        if len(e) == 2:
            return '?', [e[0], q[0], e[1]]
    q = split_top(t, ('||', ' or '))
    if len(q) > 1:
        return '|', q
    q = split_top(t, ('&&', ' and '))
    if len(q) > 1:
        return '&', q
    return None


def nul_test(c):
    """(variable, truth value of the condition for which it has no NUL) or None"""
    k = c.replace(' ', '')
    n = r'["\'](?:\\0|\\x00|\\u0000)["\']'
    mo = re.match(r'^(\w+)\.(?:indexOf|IndexOf|find)\(%s\)(==|===|<|!=|!==|>=|>)(-1|0)$' % n, k)
    if mo:
        v, op, c2 = mo.groups()
        if c2 == '-1':
            return (v, op in ('==', '===')) if op in ('==', '===', '!=', '!==') else (v, False) if op == '>' else None
        return (v, True) if op == '<' else (v, False) if op == '>=' else None
    mo = re.match(r'^%snotin(\w+)$' % n, k)
    if mo:
        return (mo.group(1), True)
    mo = re.match(r'^%sin(\w+)$' % n, k)
    if mo:
        return (mo.group(1), False)
    mo = re.match(r'^(!?)(\w+)\.(?:contains|Contains|includes)\(%s\)$' % n, k)
    if mo:
        return (mo.group(2), bool(mo.group(1)))
    return None


def dedupe(l):
    out = []
    for x in l:
        if x not in out:
            out.append(x)
    return out[:96]


def python_closed(methods):
    """terminate() replaces the library object by one that raises on any attribute access"""
    import ast
    for m in methods:
        if m.cls == 'Voikko' and m.name == 'terminate':
            for n in ast.walk(m.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr.endswith('__lib') for t in n.targets) and isinstance(n.value, ast.Call):
                    return True
    return False


def run(m, rep, tier):
    api, enums = B.c_api()
    L = C11.load()
    for lang, cls, closer, handle in (('Python', 'Voikko', 'terminate', 'handle'), ('Java', 'Voikko', 'terminate', 'handle'), ('C#', 'Voikko', 'Dispose', 'handle'), ('JavaScript', 'Voikko', 'terminate', 'handle')):
        ms, extra = L[lang]
        aliases = {k: v[0] for k, v in extra[0].items()} if lang == 'JavaScript' else {}
        X = Exec(rep, lang, ms, aliases, api, handle, cls)
        X.cls_dummy = lang == 'Python' and python_closed(ms)
        entry = []
        for x in ms:
            if x.cls != cls:
                continue
            public = {'Python': not x.name.startswith('_') or x.name in ('__init__', '__del__'), 'Java': 'public' in x.mods, 'C#': 'public' in x.mods, 'JavaScript': True}[lang]
            if lang == 'JavaScript':
                public = 'public' in x.mods or called_by_ref(extra, x)
            if public:
                entry.append(x)
        rep.need(len(entry), 15, 'public methods of the %s binding' % lang)
        closed = False
        for x in entry:
            rep.count('public methods')
            ex = X.top(x)
            if x.name == closer:
                for kind, st, v in ex:
                    if st.get('#handle') == 'closed':
                        closed = True
                        if st.get('#handlefield') != 'null':
                            X.bad('double-close', x, '%s leaves the handle set after voikkoTerminate' % x.name, x.name + '|left')
                if lang in ('Java', 'C#') and not lock_covers(x):
                    X.bad('no-lock', x, '%s closes the handle without holding the lock of the instance' % x.name, x.name + '|lock')
                if lang == 'Python' and not X.cls_dummy:
                    rep.note('Python: the library object is not replaced on termination; every method is required to check the handle')
        if not closed:
            rep.bad('double-close', B.rel({'Python': B.PY, 'Java': B.JAVA + '/Voikko.java', 'C#': B.CS + '/Voikko.cs', 'JavaScript': B.JS}[lang]), '%s binding: %s never calls voikkoTerminate' % (lang, closer), lang + '|noclose')
    lisp(rep, api)


def called_by_ref(extra, x):
    wraps, ts, b = extra
    for i in range(len(ts) - 2):
        if ts[i][0].strip('"\'') == x.name and ts[i][0][0] in '"\'' and ts[i + 1][0] == ':' and ts[i + 2][0] == x.name:
            return True
    return False


def lock_covers(m):
    if 'synchronized' in m.mods:
        return True

    def go(body, locked):
        for s in body:
            for y in s[1:]:
                if isinstance(y, str):
                    if 'voikkoTerminate' in y and not locked:
                        return False
                elif isinstance(y, list):
                    if not go([z for z in y if isinstance(z, tuple)], locked or s[0] == 'lock'):
                        return False
        return True
    return go(m.body, False)


def lisp(rep, api):
    """every acquiring foreign call inside a defun is paired with its release function in that defun or in the release method of the object that keeps it"""
    import os
    text = {}
    rel = set()
    for fn in sorted(os.listdir(B.CL)):
        if fn.endswith('.lisp'):
            text[fn] = B.lisp_read(os.path.join(B.CL, fn))
            for x in B.lisp_walk(text[fn]):
                if x and x[0] == 'defmethod' and len(x) > 1 and x[1] == 'free-foreign-resource':
                    rel |= funcalls(x)
    for fn, forms in text.items():
        for d in forms:
            if isinstance(d, list) and d and d[0] in ('defun', 'defmethod'):
                fc = funcalls(d)
                for name in sorted(fc):
                    if name in B.RELEASE:
                        rep.count('acquisitions')
                        if not B.RELEASE[name] & fc and not (B.RELEASE[name] & rel and any(y and y[0] == 'make-instance' for y in B.lisp_walk(d))):
                            rep.bad('leak', '%s:%d (%s)' % (B.rel(os.path.join(B.CL, fn)), d.line, d[1]), 'Common Lisp binding: %s does not release the result of %s' % (d[1], name), 'CL|%s|%s' % (d[1], name))


def funcalls(x):
    return {y[1].strip('"') for y in B.lisp_walk(x) if len(y) > 1 and isinstance(y[0], str) and y[0].endswith('foreign-funcall') and isinstance(y[1], str)}
