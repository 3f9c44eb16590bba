"""Tokens and sentences of the bindings make up the text; positions of grammar errors count from its start.

Rule: abstract execution of the tokens, sentences and grammarErrors methods of the Python, Java, C# and JavaScript bindings.  Texts are slices [a, b) of the text
of the caller, lengths and positions are linear forms over the lengths that the native functions return, the lengths of paragraphs and the positions of NUL
characters; byte positions are values of a monotone function B of character positions.  Every outcome of the other conditions is followed.
  - each native call gets the text from where the previous token or sentence ended, and the number of characters (bytes) that are left;
  - what is added to the result is exactly the slice the native call measured, in order, each once; pieces between NUL characters and the NULs themselves are contiguous up to the end;
  - the loop goes on while any character is left;
  - paragraphs are checked from their start with their length, errors are asked for by 0, 1, 2, ...; the start of an error is its start in the paragraph plus the start of the paragraph.
Values that are not understood decide nothing.
"""
import functools
import re
from rules import C11
from vlib import bind as B

NEEDS_MODEL = False
RULE = 'abstract execution of the text methods of four bindings: slices and positions as linear forms over native lengths; contiguity of the results and of the texts passed to the library'
ASSUMPTIONS = ['texts without characters outside the basic plane (Java, C# and JavaScript count UTF-16 units, the library counts characters)',
               'the native functions return a length of at least one character for non-empty text']

PROP = {
    'id': 'C20', 'title': 'Binding results map to the text: tokens, sentences, error positions',
    'statement': 'In the Python, Java, C# and JavaScript bindings the tokens (and likewise the sentences) returned for a text, put together, are the text: no character is lost, repeated or reordered, also around NUL characters, and '
                 'each native call gets exactly the part of the text that is left with its length. The start of every grammar error in a text of several paragraphs counts from the start of the whole text, whatever line '
                 'ends separate the paragraphs, and every error of every paragraph is reported once.',
    'quantifier': {'over': ['inputs'], 'text': 'all texts of the basic plane: all numbers and lengths of tokens, sentences, paragraphs and errors, all positions of NUL characters and line ends'},
    'why_tests_cant': 'The tests of the bindings use a few short ASCII texts with one paragraph or line end; byte and character positions coincide there, and the C# tests are not run at all.',
    'anchors': {'files': ['libvoikko/python/libvoikko.py', 'libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java', 'libvoikko/cs/libvoikko/Voikko.cs', 'libvoikko/js/libvoikko_api.js'],
                'mechanism': [{'name': 'token and sentence loops', 'where': 'tokens, sentences, splitTokens, tokensNonNull'}, {'name': 'paragraph offsets', 'where': 'grammarErrors, grammarParagraph, appendErrorsFromParagraph'}],
                'observe_at': ['libvoikko.Voikko.tokens', 'libvoikko.Voikko.sentences', 'libvoikko.Voikko.grammarErrors', 'org.puimula.libvoikko.Voikko']}}


class Stop(Exception):
    """path given up"""


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Lin:
    """linear form; atoms are strings, '' the constant"""
    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Lin(d)

    def neg(self):
        return Lin({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + o.neg()

    def __eq__(self, o):
        return isinstance(o, Lin) and self.d == o.d

    def const(self):
        return self.d.get('', 0) if set(self.d) <= {''} else None

    def __str__(self):
        out = []
        for k, v in sorted(self.d.items(), key=lambda p: (p[0] == '', p[0])):
            t = k if k and abs(v) == 1 else '%d%s' % (abs(v), '*' + k if k else '')
            out.append(('-' if v < 0 else '+' if out else '') + t)
        return ''.join(out) or '0'


def num(n):
    return Lin({'': n})


def sym(s):
    return Lin({s: 1})


def bpos(x):
    """byte position of character position x"""
    return num(0) if x == num(0) else sym('B(%s)' % x)


class Txt:
    def __init__(self, a, b):
        self.a, self.b = a, b


class Byt(Txt):
    """the text as bytes; nul: with terminator; off: byte position in the buffer, relative to the start of the text"""
    def __init__(self, a, b, nul=True):
        Txt.__init__(self, a, b)
        self.nul = nul
        self.off = num(0)


class Buf:
    def __init__(self):
        self.t = None


class Ptr:
    def __init__(self, buf, off, unit):
        self.buf, self.off, self.unit = buf, off, unit      # unit: 'b' bytes, 'c' characters


class Scaled:
    def __init__(self, n):
        self.n = n


class Split:
    def __init__(self, t, sep):
        self.t, self.sep = t, sep


class Obj:
    def __init__(self, f, pos):
        self.f, self.pos = f, pos


class Item:
    """something in a result list: a..b of the text"""
    def __init__(self, a, b, call=None, start=None):
        self.a, self.b, self.call, self.start = a, b, call, start


class Ref:
    """by-reference length"""
    def __init__(self):
        self.v = None


class Opq:
    pass


OPQ = Opq()
TOK = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|0x[0-9A-Fa-f]+|\d+|[A-Za-z_$][\w$]*|===|!==|==|!=|<=|>=|&&|\|\||\+\+|--|->|\S')
REGEX = re.compile(r'(?<=[(,])/((?:[^/\\]|\\.)+)/g?')


@functools.lru_cache(None)
def tokens(e):
    return TOK.findall(e)


class Exec:
    def __init__(self, lang, methods, aliases, rep):
        self.lang, self.rep, self.aliases = lang, rep, aliases
        self.by = {}
        for m in methods:
            if m.cls in ('Voikko', '', None) or lang == 'JavaScript':
                self.by.setdefault(m.name, []).append(m)
        self.errors = {}
        self.seen = {}

    # ---- paths
    def paths(self, m, kind):
        todo = [()]
        n = done = 0
        while todo and n < (300 if kind == 'errors' else 600):
            pre = todo.pop(0)
            n += 1
            self.choices, self.k = list(pre), 0
            self.fresh = 0
            self.calls, self.facts, self.taint = [], [], False
            self.text = Txt(num(0), sym('E'))
            self.kind, self.top = kind, m
            self.depth = 0
            self.events = []
            ps = [p for p in m.params if p not in ('self', 'cls')]
            env = {p: OPQ for p in ps}
            if ps:
                env[ps[0]] = self.text
            if len(ps) > 1 and kind == 'tokens':
                env[ps[1]] = sym('P')       # position of the piece in the whole text
            try:
                r = self.call(m, env)
                done += 1
                self.finish(m, r)
            except Stop:
                pass
            for j in range(len(pre), len(self.choices)):
                if self.choices[j] is True:
                    todo.append(tuple(self.choices[:j]) + (False,))
        return done

    def choose(self):
        if self.k < len(self.choices):
            c = self.choices[self.k]
        else:
            if len(self.choices) > 24:
                raise Stop()
            c = True
            self.choices.append(c)
        self.k += 1
        return c

    def bad(self, rule, msg, key):
        self.errors[(rule, self.top.name.lstrip('_').lower(), key)] = (self.top.where(), '%s binding: %s' % (self.lang, msg))

    # ---- statements
    def call(self, m, env):
        self.depth += 1
        if self.depth > 6:
            raise Stop()
        try:
            self.block(m.body, env)
            r = OPQ
        except Ret as e:
            r = e.args[0]
        self.depth -= 1
        return r

    def block(self, body, env):
        j = 0
        while j < len(body):
            s = body[j]
            k = s[0]
            if k == 'expr' and self.kind == 'errors' and j + 1 < len(body) and body[j + 1][0] == 'loop' and body[j + 1][1] == 'for' and self.irrelevant(body[j + 1], env):
                j += 2
                continue
            if k == 'expr' and j + 1 < len(body) and body[j + 1][0] == 'loop' and body[j + 1][1] == 'for':
                self.forloop(s[1], body[j + 1], env)
                j += 2
                continue
            self.stmt(s, env)
            j += 1

    def stmt(self, s, env):
        k = s[0]
        if k == 'set':
            self.assign(s, env)
        elif k == 'expr':
            self.eval(s[1], env)
        elif k == 'return':
            raise Ret(self.eval(s[1], env) if s[1] else OPQ)
        elif k == 'throw':
            raise Stop()
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cnt()
        elif k in ('if', 'loop') and self.kind == 'errors' and self.irrelevant(s, env):
            for v in self.assigned(s[2:]):
                env[v] = OPQ
        elif k == 'if':
            self.block(s[2] if self.cond(s[1], env) else s[3], env)
        elif k in ('lock', 'with'):
            for x in s[1:]:
                if isinstance(x, list):
                    self.block(x, env)
        elif k == 'try':
            self.block(s[1], env)
            if s[3]:
                self.block(s[3], env)
        elif k == 'loop':
            if s[1] == 'for':
                raise Stop()
            self.loop(s, env)
        else:
            raise Stop()

    def irrelevant(self, s, env):
        """a branch or loop that only fills values that are not followed (suggestions, descriptions)"""
        txt = repr(s[2:])
        if re.search(r"\('(return|break|continue|throw)'", txt) or any((self.native(w) or '').startswith('voikkoNext') or w in self.by and self.calls_next(w) for w in re.findall(r'[A-Za-z_$][\w$]*', txt)):
            return False
        if any(isinstance(env.get(v), (Lin, Txt, Split, Obj)) for v in self.assigned(s[2:])):
            return False
        return s[1] in (None, 'for') or not re.search(r'voikkoNext', s[1])

    def calls_next(self, w):
        return any(x.startswith('voikkoNext') for g in self.by[w] for x in C11.natives(g, {k.lstrip('_'): v for k, v in self.by.items()}, self.aliases, set()))

    def assigned(self, x):
        out = set()
        if isinstance(x, (list, tuple)):
            if len(x) > 2 and x[0] == 'set':
                out.add(x[1].split('.')[0])
            for y in x:
                out |= self.assigned(y)
        return out

    def loop(self, s, env):
        for i in range(4):
            if s[1] is not None:
                self.loopcond(s[1], env)
                if not self.cond(s[1], env):
                    return
            if i == 3:
                raise Stop()
            try:
                self.block(s[2], env)
            except Brk:
                return
            except Cnt:
                pass
            self.block(s[3], env)

    def loopcond(self, c, env):
        """the loop of tokens or sentences must go on while a character is left"""
        if self.kind not in ('tokens', 'sentences'):
            return
        mo = re.match(r'^\(?(.+?)(>=|>|!==|!=)(.+?)\)?$', c.replace(' ', ''))
        if not mo:
            return
        l, r = self.eval(mo.group(1), env), self.eval(mo.group(3), env)
        if not isinstance(l, Lin) or not isinstance(r, Lin):
            return
        at = self.calls[-1]['end'] if self.calls else num(0)
        d = l - r
        for left in (sym('E') - at, sym('B(E)') - bpos(at)):
            k = (d - left).const()
            if k is not None:
                op = mo.group(2)
                one = 1 + k
                ok = one > 0 if op == '>' else one >= 0 if op == '>=' else one != 0
                if not ok:
                    self.bad('loop', 'the loop of %s ends while a character is left' % self.top.name, 'loop')

    def forloop(self, head, loop, env):
        mo = re.match(r'^(?:[\w<>\[\].]+ )?(\w+)\s*(?::|\bin\b)\s*(.+)$', head, re.S)
        if not mo:
            raise Stop()
        v = self.eval(mo.group(2), env)
        if not isinstance(v, Split):
            if any(isinstance(x, (Txt, Lin)) for x in env.values()) and self.kind == 'errors' and self.depth == 1:
                raise Stop()
            env[mo.group(1)] = OPQ
            if self.choose():
                try:
                    self.block(loop[2], env)
                except (Brk, Cnt):
                    pass
            return
        for k in range(3):
            env[mo.group(1)] = self.paragraph(v, k)
            try:
                self.block(loop[2], env)
            except Brk:
                return
            except Cnt:
                pass

    def paragraph(self, v, k):
        a = v.t.a
        for i in range(k):
            a = a + sym('L%d' % i) + (num(1) if v.sep == 1 else sym('W%d' % i))
        t = Txt(a, a + sym('L%d' % k))
        t.para = k
        return t

    def assign(self, s, env):
        t, e, aug = s[1], s[2], s[3] if len(s) > 3 else False
        t = re.sub(r'^(var|let|const|final|int|String|string) ', '', t.strip())
        v = self.eval(e, env)
        if isinstance(v, Buf):
            v = Ptr(v, num(0), 'b')
        mo = re.match(r'^(\w+)\.(\w+)$', t)
        if mo and isinstance(env.get(mo.group(1)), Obj):
            o = env[mo.group(1)]
            if aug:
                v = self.arith(aug[0], o.f.get(mo.group(2), OPQ), v)
            o.f[mo.group(2)] = v
            return
        if not re.match(r'^[\w$]+$', t):
            return
        if aug:
            old = env.get(t, OPQ)
            if isinstance(old, list):
                if aug == '+=':
                    self.extend(old, v)
                else:
                    env[t] = OPQ
                return
            v = self.arith(aug[0], old, v)
        env[t] = v

    # ---- conditions
    def cond(self, c, env):
        v = self.truth(c.strip(), env)
        if v is None:
            self.opaque(c)
            return self.choose()
        if isinstance(v, tuple):
            op, d = v
            s = self.known(op, d)
            if s is None:
                s = self.choose()
                self.facts.append((op if s else {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op], d))
            return s
        return v

    def opaque(self, c):
        if not re.search(r'isValidInput', c):
            self.taint = True

    def known(self, op, d):
        def sign(d):
            c = d.const()
            if c is not None:
                return (c, c)
            lo = d.d.get('', 0)
            up = -d.d.get('', 0)
            low = high = True
            for k, v in d.d.items():
                if k == '':
                    continue
                pos = not k.startswith('I')
                if not pos or v < 0:
                    low = False
                if not pos or v > 0:
                    high = False
            return (lo if low else None, -up if high else None)
        lo, hi = sign(d)
        for o, f in self.facts:
            if f == d:
                if o == op:
                    return True
                if {o, op} in ({'<', '>='}, {'>', '<='}, {'==', '!='}, {'<', '>'}, {'<', '=='}, {'>', '=='}):
                    return False
        if op == '<':
            return True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
        if op == '>=':
            r = self.known('<', d) if True else None
            return None if r is None else not r
        if op == '>':
            return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
        if op == '<=':
            r = self.known('>', d)
            return None if r is None else not r
        if op == '==':
            return True if lo == 0 and hi == 0 else False if (lo is not None and lo > 0) or (hi is not None and hi < 0) else None
        if op == '!=':
            r = self.known('==', d)
            return None if r is None else not r

    def truth(self, c, env):
        """True, False, (op, linear form) or None"""
        while c.startswith('(') and c.endswith(')') and self.closing(c) == len(c) - 1:
            c = c[1:-1].strip()
        if c in ('true', 'True'):
            return True
        if c in ('false', 'False'):
            return False
        if re.search(r'&&|\|\|| and | or |\?|^not |^!', c):
            mo = re.match(r'^(?:not |!)\s*(.+)$', c, re.S)
            if mo and not re.search(r'&&|\|\|| and | or ', c):
                r = self.truth(mo.group(1), env)
                if isinstance(r, bool):
                    return not r
                if isinstance(r, tuple):
                    return ({'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[r[0]], r[1])
            elif not mo:
                for x in re.findall(r'[\w$]+\s*\(', c):
                    if self.native(x[:-1].strip()):
                        raise Stop()
            return None
        mo = re.match(r'^(.+?)(===|!==|==|!=|<=|>=|<|>)(.+)$', c, re.S)
        if mo:
            l, r = self.eval(mo.group(1), env), self.eval(mo.group(3), env)
            if isinstance(l, Lin) and isinstance(r, Lin):
                return ({'===': '==', '!==': '!='}.get(mo.group(2), mo.group(2)), l - r)
            return None
        v = self.eval(c, env)
        if isinstance(v, Lin):
            return ('!=', v)
        return None

    @staticmethod
    def closing(c):
        d = 0
        for i, x in enumerate(c):
            d += x == '('
            d -= x == ')'
            if d == 0:
                return i
        return -1

    # ---- expressions
    def eval(self, e, env):
        e = REGEX.sub(lambda mo: '"' + mo.group(1).replace('"', '') + '"', e.strip())
        ts = tokens(e)
        self_ = self
        pos = [0]

        def peek(k=0):
            return ts[pos[0] + k] if pos[0] + k < len(ts) else None

        def adv():
            pos[0] += 1
            return ts[pos[0] - 1] if pos[0] <= len(ts) else None

        def skip():
            """to the end of the current argument"""
            d = 0
            while peek() is not None:
                x = peek()
                if d == 0 and x in (',', ')', ']', '}', ':'):
                    return
                d += x in ('(', '[', '{')
                d -= x in (')', ']', '}')
                adv()

        def full():
            v = add()
            if peek() in (None, ',', ')', ']', '}', ':'):
                return v
            skip()
            return OPQ

        def add():
            l = mul()
            while peek() in ('+', '-'):
                op = adv()
                r = mul()
                l = self_.arith(op, l, r)
            return l

        def mul():
            l = unary()
            while peek() in ('*', '/', '%'):
                op = adv()
                r = unary()
                if op == '*' and isinstance(l, Lin) and isinstance(r, Scaled) and r.n == num(1):
                    l = Scaled(l)
                elif op == '*' and isinstance(r, Lin) and isinstance(l, Scaled) and l.n == num(1):
                    l = Scaled(r)
                elif op == '*' and isinstance(l, Lin) and isinstance(r, Lin) and (l.const() is not None or r.const() is not None):
                    c, x = (l.const(), r) if l.const() is not None else (r.const(), l)
                    l = Lin({k: v * c for k, v in x.d.items()})
                else:
                    l = OPQ
            return l

        def unary():
            t = peek()
            if t == '-':
                adv()
                v = unary()
                return v.neg() if isinstance(v, Lin) else OPQ
            if t in ('!', 'not', '&', '*', '~'):
                adv()
                unary()
                return OPQ
            if t in ('ref', 'out', 'await', 'byte', 'unchecked'):
                adv()
                return unary()
            if t == '(' and peek(1) and re.match(r'^[A-Za-z_]\w*$', peek(1)) and peek(2) == ')' and peek(3) and re.match(r'^[\w(]', peek(3)):
                ty = peek(1)
                pos[0] += 3
                v = unary()
                return v if ty in ('int', 'long', 'uint', 'Int32') else OPQ
            return post()

        def args():
            a = []
            adv()
            while peek() not in (')', None):
                kw = None
                if peek(1) == '=' and re.match(r'^\w+$', peek()):
                    kw = adv()
                    adv()
                start = pos[0]
                v = full()
                a.append((kw, v, ts[start:pos[0]]))
                if peek() == ',':
                    adv()
                elif peek() != ')':
                    skip()
                    if peek() == ':':
                        adv()
            adv()
            return a

        def post():
            t = adv()
            if t is None:
                return OPQ
            if t == '(':
                v = full()
                if peek() == ')':
                    adv()
            elif t == '[':
                items = []
                start = pos[0]
                while peek() not in (']', None):
                    items.append(full())
                    if peek() == ',':
                        adv()
                    elif peek() != ']':
                        skip()
                        if peek() in (':', ')', '}'):
                            adv()
                adv()
                v = []
                for x in items:
                    self_.append(v, x)
            elif t == '{':
                f = {}
                while peek() not in ('}', None):
                    key = adv().strip('"\'')
                    if peek() == ':':
                        adv()
                        f[key] = full()
                    if peek() == ',':
                        adv()
                    elif peek() != '}':
                        skip()
                        if peek() in (')', ']', ':'):
                            adv()
                adv()
                v = Obj(f, [])
            elif re.match(r'^0x', t):
                v = num(int(t, 16))
            elif t.isdigit():
                v = num(int(t))
            elif t[0] in '"\'':
                v = ('str', t[1:-1])
            elif t == 'new':
                name = adv()
                while peek() == '.':
                    adv()
                    name = adv()
                if peek() == '<':
                    d = 0
                    while peek() is not None:
                        x = adv()
                        d += x == '<'
                        d -= x == '>'
                        if d == 0:
                            break
                a = args() if peek() == '(' else []
                v = self_.construct(name, a)
            elif re.match(r'^[A-Za-z_$]', t):
                if peek() == '(':
                    v = self_.func(t, args(), env)
                else:
                    v = env.get(t, ('name', t))
            else:
                return OPQ
            while peek() in ('.', '[', '(', '++', '--'):
                x = adv()
                if x == '.':
                    n = adv()
                    if peek() == '(':
                        a = args()
                        if n in ('call', 'apply') and isinstance(v, tuple) and v[0] == 'method':
                            v = self_.method(v[1], 'extend' if n == 'apply' else v[2], a[1:], env)
                        else:
                            v = self_.method(v, n, a, env)
                    else:
                        v = self_.field(v, n)
                elif x == '[':
                    lo = num(0) if peek() == ':' else full()
                    if peek() == ':':
                        adv()
                        hi = None if peek() == ']' else full()
                        if peek() == ']':
                            adv()
                        v = self_.slice(v, lo, hi)
                    else:
                        if peek() == ']':
                            adv()
                        v = self_.index(v, lo)
                else:
                    if x == '(':
                        pos[0] -= 1
                        args()
                    v = OPQ
            return v

        if not ts:
            return OPQ
        v = full()
        if isinstance(v, tuple) and v[0] in ('name', 'method'):
            return OPQ
        if pos[0] < len(ts):
            return OPQ
        return v

    def arith(self, op, l, r):
        if isinstance(l, Lin) and isinstance(r, Lin):
            return l + r if op == '+' else l - r if op == '-' else OPQ
        if op == '+' and isinstance(l, list):
            out = list(l)
            self.extend(out, r)
            return out
        if isinstance(l, Buf):
            l = Ptr(l, num(0), 'b')
        if isinstance(r, Buf):
            r = Ptr(r, num(0), 'b')
        if op == '+' and isinstance(r, Ptr):
            l, r = r, l
        if isinstance(l, Ptr) and op == '+':
            if isinstance(r, Lin) and l.unit == 'b':
                return Ptr(l.buf, l.off + r, 'b')
            if isinstance(r, Scaled) and (l.unit == 'c' or l.off == num(0)):
                return Ptr(l.buf, l.off + r.n, 'c')
        if op == '+' and isinstance(r, list) and isinstance(l, list):
            return l + r
        return OPQ

    def slice(self, v, lo, hi):
        if type(v) is Txt and isinstance(lo, Lin) and (hi is None or isinstance(hi, Lin)):
            if lo.const() is not None and lo.const() < 0 or hi is not None and hi.const() is not None and hi.const() < 0:
                return OPQ
            t = Txt(v.a + lo, v.b if hi is None else v.a + hi)
            return t
        return OPQ

    def index(self, v, i):
        if isinstance(v, Split) and isinstance(i, Lin) and i.const() is not None and 0 <= i.const() < 4:
            return self.paragraph(v, i.const())
        if type(v) is Txt and isinstance(i, Lin):
            return Txt(v.a + i, v.a + i + num(1))
        if isinstance(v, tuple) and v[0] == 'ref':
            return v
        return OPQ

    def field(self, v, n):
        if n in ('length', 'Length'):
            if isinstance(v, Byt):
                return bpos(v.b) - bpos(v.a) + num(1 if v.nul else 0)
            if isinstance(v, Txt):
                return v.b - v.a
            if isinstance(v, Split):
                return sym('K')
            return OPQ
        if n == 'value' and isinstance(v, Ref):
            return v.v if v.v is not None else OPQ
        if isinstance(v, Obj):
            return v.f.get(n, OPQ)
        if isinstance(v, list) and n in ('push', 'append'):
            return ('method', v, n)
        return ('name', n)

    def construct(self, name, a):
        if name in ('SizeT', 'IntPtr', 'UIntPtr', 'NativeLong') and len(a) == 1:
            return a[0][1]
        if name in ('SizeTByReference', 'IntPtr', 'UIntPtr', 'IntByReference') and not a:
            return Ref()
        if name in ('ArrayList', 'List', 'LinkedList', 'Array') and (not a or isinstance(a[0][1], Lin)):
            return []
        if name in ('Token', 'Sentence', 'GrammarError'):
            return self.obj(name, a)
        if name == 'String' and a:
            return a[0][1] if type(a[0][1]) is Txt else OPQ
        return OPQ

    def obj(self, name, a):
        f = {}
        ps = self.ctors.get(name) if hasattr(self, 'ctors') else None
        for k, (kw, v, _) in enumerate(a):
            f[kw or (ps[k] if ps and k < len(ps) else '#%d' % k)] = v
        return Obj(f, [v for _, v, _ in a])

    def native(self, n):
        x = self.aliases.get(n, n)
        return x if x.startswith('voikko') else None

    def func(self, n, a, env):
        v = [x[1] for x in a]
        if self.native(n):
            return self.call_native(self.native(n), a, env)
        if n in ('len',) and v:
            return self.field(v[0], 'length')
        if n in ('unicode_str', 'str', 'String', 'c_wchar_p', 'byref', 'c_size_t', 'int', 'Number', 'cast', 'pointer') and v:
            return v[0]
        if n in ('c_size_t', 'c_int') and not v:
            return Ref()
        if n == 'sizeof':
            return Scaled(num(1))
        if n in ('create_unicode_buffer',) and v and type(v[0]) is Txt:
            b = Buf()
            b.t = v[0]
            return b
        if n == 'addressof' and v and isinstance(v[0], (Buf, Ptr)):
            return v[0] if isinstance(v[0], Ptr) else Ptr(v[0], num(0), 'c')
        if n == 's2n' and v and type(v[0]) is Txt:
            return Byt(v[0].a, v[0].b)
        if n == 's2bb' and v and type(v[0]) is Txt:
            return Byt(v[0].a, v[0].b, False)
        if n == 'lengthBytesUTF8' and v and type(v[0]) is Txt:
            return bpos(v[0].b) - bpos(v[0].a)
        if n == '_malloc':
            return Buf()
        if n == 'mallocPtr':
            return Ref()
        if n == 'stringToUTF8' and len(v) > 1 and isinstance(v[1], (Buf, Ptr)):
            (v[1].buf if isinstance(v[1], Ptr) else v[1]).t = v[0] if type(v[0]) is Txt else None
            return OPQ
        if n == 'getValue' and v and isinstance(v[0], Ref):
            return v[0].v if v[0].v is not None else OPQ
        if n in ('Token', 'Sentence', 'GrammarError'):
            return self.obj(n, a)
        if n == 'indexOfSpecialUnknown' and v and type(v[0]) is Txt:
            return self.newsym('I')
        if n in self.by:
            return self.inline(n, a, env)
        self.spoil(v)
        return OPQ

    def spoil(self, v):
        for x in v:
            if isinstance(x, list):
                x.append(None)
            if isinstance(x, Ref):
                x.v = None

    def newsym(self, p):
        self.fresh += 1
        return sym('%s%d' % (p, self.fresh))

    def inline(self, n, a, env):
        g = [m for m in self.by[n] if len([p for p in m.params if p not in ('self', 'cls')]) == len(a)]
        if not g:
            self.spoil([x[1] for x in a])
            return OPQ
        g = g[0]
        if n == self.top.name:
            raise Stop()
        if self.kind == 'pieces' and any(x.startswith('voikkoNextToken') for x in C11.natives(g, {}, self.aliases, set())):
            # what the piece yields is decided on its own
            t = [x[1] for x in a if type(x[1]) is Txt]
            if len(t) != 1:
                return OPQ
            self.seen[id(g)] = g
            p = [x[1] for x in a if isinstance(x[1], Lin)]
            if len(p) == 1 and len(a) == 2 and p[0] != t[0].a:
                self.bad('position', 'the tokens of the text from %s are given positions from %s' % (t[0].a, p[0]), 'piecepos')
            return [Item(t[0].a, t[0].b)]
        ps = [p for p in g.params if p not in ('self', 'cls')]
        e2 = {p: OPQ for p in ps}
        for k, (kw, v, _) in enumerate(a):
            e2[kw or ps[k]] = v
        if g.outer is not None or self.lang == 'JavaScript':
            for k, v in env.items():
                if k not in e2 and isinstance(v, (Ref, Buf)):
                    e2[k] = v
        return self.call(g, e2)

    def method(self, v, n, a, env):
        x = [y[1] for y in a]
        if self.native(n):
            return self.call_native(self.native(n), a, env)
        if isinstance(v, list):
            if n in ('append', 'add', 'Add', 'push') and len(x) == 1:
                self.append(v, x[0])
                return OPQ
            if n in ('extend', 'addAll', 'AddRange', 'push') and len(x) == 1:
                self.extend(v, x[0])
                return OPQ
            if n == 'concat' and len(x) == 1:
                out = list(v)
                self.extend(out, x[0])
                return out
            if n in ('size', 'Count', 'isEmpty'):
                return OPQ
            v.append(None)
            return OPQ
        if n in ('length', 'Length', 'capacity', 'limit') and not x:
            return self.field(v, 'length')
        if isinstance(v, Byt) and n == 'position' and len(x) == 1:
            v.off = x[0]
            return v
        if n in ('getValue', 'intValue', 'ToInt32', 'ToInt64', 'longValue') and not x:
            if isinstance(v, Ref):
                return v.v if v.v is not None else OPQ
            return v
        if isinstance(v, Txt) and not isinstance(v, Byt):
            if n in ('substring', 'slice') and x or n == 'Substring' and len(x) == 1:
                return self.slice(v, x[0], x[1] if len(x) > 1 else None) if all(isinstance(y, Lin) for y in x) else OPQ
            if n in ('Substring', 'substr'):
                return self.slice(v, x[0], x[0] + x[1] if len(x) > 1 else None) if all(isinstance(y, Lin) for y in x) else OPQ
            if n in ('charAt', 'codePointAt') and isinstance(x[0], Lin):
                return Txt(v.a + x[0], v.a + x[0] + num(1))
            if n in ('indexOf', 'find', 'IndexOf'):
                return self.newsym('I')
            if n in ('replace', 'Replace', 'replaceAll') and len(x) == 2:
                s = [self.char(y) for y in x]
                return v if s[0] and s[1] and s[0][0] == 1 and s[1][0] == 1 else OPQ
            if n in ('split', 'Split') and x:
                s = self.char(x[0])
                return Split(v, s[0]) if s else OPQ
            if n == 'splitlines' and not x:
                return Split(v, 2)
            if n in ('strip', 'trim', 'Trim', 'lstrip', 'trimStart', 'trimLeft', 'TrimStart', 'stripLeading', 'rstrip', 'trimEnd', 'trimRight', 'TrimEnd', 'stripTrailing') and not x:
                w = n.lower()
                l = num(0) if w in ('rstrip', 'trimend', 'trimright', 'striptrailing') else self.newsym('T')
                r = num(0) if w in ('lstrip', 'trimstart', 'trimleft', 'stripleading') else self.newsym('T')
                return Txt(v.a + l, v.b - r)
            if n in ('toString', 'ToString') and not x:
                return v
        if isinstance(v, tuple) and v[0] == 'name':
            if v[1] == 'Regex' and n == 'Split' and len(x) == 2 and type(x[0]) is Txt:
                s = self.char(x[1])
                return Split(x[0], s[0]) if s else OPQ
            if v[1] == 'Character' and n == 'toString' and x:
                return x[0]
            if v[1] in ('self', 'this', 'Voikko', 'ByteArray', 'Module', 'cls', 'String'):
                if n.startswith('__') or True:
                    return self.func(n, a, env)
        if n in self.by and isinstance(v, tuple):
            return self.func(n, a, env)
        self.spoil(x)
        return OPQ

    @staticmethod
    def char(s):
        """(width,) of a separator: 1 one character, 2 one or two"""
        if not (isinstance(s, tuple) and s[0] == 'str'):
            return None
        t = s[1].replace('\\\\', '\\')
        if t in ('\\n', '\\r', '\n', '\r', '[\\r\\n]', '\\r|\\n', '\\n|\\r', '[\\n\\r]'):
            return (1,)
        if re.match(r'^(\\[rn]|[?+*|()\[\]:\n\r])+$', t) and re.search(r'[?+*|]', t):
            return (2,)
        return None

    # ---- results
    def append(self, l, v):
        if isinstance(v, Obj):
            if self.kind == 'errors':
                self.error(v)
                l.append(v)
                return
            t = [x for x in list(v.f.values()) + list(v.pos) if isinstance(x, Txt)]
            p = [x for x in v.pos if isinstance(x, Lin)] if self.lang == 'Java' else []
            if t:
                l.append(Item(t[0].a, t[0].b, start=p[0] if len(p) == 1 else None))
                self.item(l)
                return
            s = [x for x in list(v.f.values()) + list(v.pos) if isinstance(x, tuple) and x[0] == 'str' and re.match(r'^(\\0|\\x00|\\u0000)$', x[1])]
            if s and self.kind == 'pieces':
                l.append(Item(None, None))
                return
        elif type(v) is Txt and self.kind in ('sentences', 'tokens'):
            l.append(Item(v.a, v.b))
            self.item(l)
            return
        l.append(None)

    def extend(self, l, v):
        if isinstance(v, list):
            l.extend(v)
        else:
            l.append(None)

    def item(self, l):
        """an element was added while calls are under way"""
        it = l[-1]
        if self.kind == 'pieces':
            if it.start is not None and it.start != it.a:
                self.bad('position', 'the token at %s is given position %s' % (it.a, it.start), 'pos')
            return
        if not self.calls:
            return
        c = self.calls[-1]
        c['items'].append(it)
        if c['at'] is None:
            return
        self.rep.count('slices added')
        if it.a != c['at']:
            self.bad('slice', '%s adds the text from %s, the native function measured the text from %s' % (self.top.name, it.a, c['at']), 'start')
        elif it.b != c['end'] and it.b != sym('E'):
            self.bad('slice', '%s adds the text up to %s, the native function measured up to %s' % (self.top.name, it.b, c['end']), 'end')
        if it.start is not None and it.start != it.a + sym('P'):
            self.bad('position', 'the token at P+%s is given position %s' % (it.a, it.start), 'pos')

    def error(self, o):
        s = [v for k, v in o.f.items() if re.match(r'^start_?pos$', k, re.I)]
        if not s:
            s = [o.pos[1]] if len(o.pos) > 1 else []
        if not s or not isinstance(s[0], Lin) or not self.calls or self.calls[-1]['at'] is None:
            return
        c = self.calls[-1]
        self.rep.count('error positions')
        want = c['at'] + sym('S%d' % len(self.calls))
        if s[0] != want:
            self.bad('error-position', 'an error that starts at S in a paragraph that starts at %s is given position %s' % (c['at'], str(s[0]).replace('S%d' % len(self.calls), 'S')), 'startpos')
        c['items'].append(o)

    # ---- native calls
    def call_native(self, n, a, env):
        v = [x[1] for x in a]
        if re.match(r'voikkoGetGrammarErrorStartPos', n):
            return sym('S%d' % len(self.calls)) if self.calls else OPQ
        if not re.match(r'voikkoNext(Token|SentenceStart|GrammarError)(Cstr|Ucs4)$', n) or len(v) < 4:
            return OPQ
        t, ln = v[1], v[2]
        cstr = n.endswith('Cstr')
        at = end = None
        if isinstance(t, Buf):
            t = Ptr(t, num(0), 'b' if cstr else 'c')
        if isinstance(t, Ptr) and t.buf.t is not None:
            at, end = self.locate(t.buf.t, t.off, t.unit == 'b'), t.buf.t.b
            if at is None and isinstance(t.off, Lin):
                self.bad('text', 'the text passed to %s starts at byte %s of the text' % (n, t.off), 'bytes')
        elif isinstance(t, Byt):
            at, end = self.locate(t, t.off, True) if isinstance(t.off, Lin) else None, t.b
            if at is None and isinstance(t.off, Lin):
                self.bad('text', 'the text passed to %s starts at byte %s of the text' % (n, t.off), 'bytes')
        elif type(t) is Txt:
            at, end = t.a, t.b
        self.rep.count('native text calls')
        if at is not None and isinstance(ln, Lin):
            want = bpos(end) - bpos(at) if cstr else end - at
            if ln != want:
                self.bad('length', 'the length passed to %s is %s, the text that is left has %s' % (n, ln, want), 'length')
        prev = self.calls[-1] if self.calls else None
        k = len(self.calls) + 1
        if 'GrammarError' in n:
            para = str(at) if at is not None else None
            cnt = len([c for c in self.calls if c['para'] == para])
            if prev is not None and not prev['items'] and at is not None and prev['at'] is not None:
                self.taint = True
            if at is not None:
                self.rep.count('paragraphs checked')
                sk = v[4] if len(v) > 4 else OPQ
                if isinstance(sk, Lin) and sk.const() is not None and sk.const() != cnt:
                    self.bad('skip', 'the error number %d of a paragraph is asked for as number %d' % (cnt, sk.const()), 'skip')
                if isinstance(v[3], Lin) and v[3].const() is not None and v[3].const() != 0:
                    self.bad('skip', 'a paragraph is checked from position %d' % v[3].const(), 'start')
            self.calls.append({'at': at, 'end': None, 'items': [], 'para': para})
            return OPQ
        if prev is not None and at is not None and prev['end'] is not None:
            if at != prev['end']:
                self.bad('contiguous', 'after a call that measured the text up to %s, the next one gets the text from %s' % (prev['end'], at), 'next')
            if len(prev['items']) != 1 and not (len(prev['items']) == 0 and self.taint and False):
                if not any(x is None for x in prev['items']):
                    self.bad('slice', '%s %s' % (self.top.name, 'loses the text that a native call measured' if not prev['items'] else 'adds the text of one native call %d times' % len(prev['items'])), 'count')
        if prev is None and at is not None and at != num(0):
            self.bad('contiguous', 'the first native call gets the text from %s' % at, 'first')
        ln = sym('N%d' % k)
        r = v[3]
        if isinstance(r, Ref):
            r.v = ln
        else:
            w = [x for x in a[3][2] if re.match(r'^[A-Za-z_]\w*$', x)]
            for x in w:
                if x in env and not isinstance(env[x], Ref):
                    env[x] = ln
        self.calls.append({'at': at, 'end': at + ln if at is not None else None, 'items': [], 'para': None})
        return OPQ

    @staticmethod
    def locate(t, off, bytes_):
        """character position of a byte (character) offset from the start of t"""
        if not bytes_:
            return t.a + off
        d = off + bpos(t.a)
        if d == num(0):
            return num(0)
        if len(d.d) == 1:
            (k, c), = d.d.items()
            if c == 1 and k.startswith('B('):
                return parse(k[2:-1])
        return None

    def finish(self, m, r):
        if self.kind == 'pieces':
            if not isinstance(r, list) or any(x is None or not isinstance(x, Item) for x in r):
                return
            at = num(0)
            for it in r:
                self.rep.count('pieces')
                if it.a is None:        # a NUL
                    at = at + num(1)
                    continue
                if it.a != at:
                    self.bad('contiguous', 'the tokens up to %s are followed by those from %s' % (at, it.a), 'piece')
                    return
                at = it.b
            if at != sym('E') and not self.taint and not self.atend(at) and not any(k.startswith('I') and self.absent(k) for k in at.d):
                self.bad('contiguous', 'the text behind %s is left out' % at, 'end')
        elif self.kind == 'sentences':
            c = self.calls[-1] if self.calls else None
            if c is not None and c['at'] is not None and not c['items'] and isinstance(r, list) and not any(x is None for x in r):
                self.bad('slice', 'the last sentence is left out', 'last')

    def absent(self, k):
        return any(o == '==' and f == sym(k) + num(1) for o, f in self.facts)

    def atend(self, at):
        d = at - sym('E')
        return any((o in ('>=', '==') and f == d) or (o in ('<=', '==') and f == d.neg()) for o, f in self.facts)


def parse(s):
    d = {}
    for sg, c, k in re.findall(r'([+-]?)(?:(\d+)\*)?([A-Za-z]\w*|\d+)', s):
        n = int(c) if c else 1
        if k.isdigit():
            n, k = int(k), ''
        d[k] = d.get(k, 0) + (-n if sg == '-' else n)
    return Lin(d)


def run(m, rep, tier):
    L = C11.load()
    decided = 0
    for lang in ('Python', 'Java', 'C#', 'JavaScript'):
        ms = L[lang][0]
        al = {k: v[0] for k, v in L[lang][1][0].items()} if lang == 'JavaScript' else {}
        ctors = {}
        for x in ms:
            if x.cls in ('Token', 'Sentence', 'GrammarError') and x.name in (x.cls, '__init__'):
                ctors[x.cls] = [p for p in x.params if p != 'self']
        todo = [(x, {'tokens': 'pieces', 'sentences': 'sentences', 'grammarerrors': 'errors'}[x.name.lower()]) for x in ms
                if x.name.lower() in ('tokens', 'sentences', 'grammarerrors') and (x.cls in ('Voikko', '', None) or lang == 'JavaScript')]
        ex = Exec(lang, ms, al, rep)
        ex.ctors = ctors
        done = set()
        while todo:
            x, kind = todo.pop(0)
            if id(x) in done:
                continue
            done.add(id(x))
            if kind == 'errors' and len(x.params) < 2:
                continue
            if kind == 'pieces' and any(y.startswith('voikkoNextToken') for y in C11.natives(x, {}, al, set())):
                kind = 'tokens'
            try:
                n = ex.paths(x, kind)
            except (RecursionError, IndexError, AttributeError, TypeError, KeyError) as e:
                rep.note('%s.%s not analysed: %r' % (lang, x.name, e))
                continue
            rep.count('methods')
            rep.count('paths', n)
            if n:
                decided += 1
                rep.sample('method', '%s %d paths' % (x.where(), n))
            else:
                rep.note('%s.%s: no path understood' % (lang, x.name))
            todo += [(g, 'tokens') for g in ex.seen.values()]
        for (rule, meth, key), (where, msg) in sorted(ex.errors.items()):
            rep.bad(rule, where, msg, '%s|%s|%s|%s' % (lang, meth, rule, key))
