"""Language bindings: a small common intermediate form for Python, Java, C# and JavaScript sources, and a reader for the Lisp ones.

A method body is a list of statements: ('if', cond, then, else), ('loop', cond or None, body, post), ('return', expr), ('throw', expr),
('set', target, expr, augmented), ('expr', expr), ('try', body, [handlers], final), ('break',), ('continue',), ('lock', body),
('switch', expr, [(case labels, body)]). Expressions are normalised source strings (no blanks except between words).
"""
import ast
import os
import re
import subprocess
import json
from vlib.model import AnalysisError, REPO, SRC

LV = os.path.join(REPO, 'libvoikko')
PY = os.path.join(LV, 'python', 'libvoikko.py')
JAVA = os.path.join(LV, 'java', 'src', 'main', 'java', 'org', 'puimula', 'libvoikko')
CS = os.path.join(LV, 'cs', 'libvoikko')
JS = os.path.join(LV, 'js', 'libvoikko_api.js')
CL = os.path.join(LV, 'cl')


def rel(p):
    return os.path.relpath(p, REPO)


# ------------------------------------------------------------------ the C interface
def c_api():
    """name -> (return type, [parameter types]) of the functions declared in voikko.h"""
    r = subprocess.run(['clang', '-x', 'c', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-I', SRC, os.path.join(SRC, 'voikko.h')], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('voikko.h cannot be parsed: ' + r.stderr[:200])
    d = json.loads(r.stdout)
    out = {}
    for x in d['inner']:
        if x['kind'] == 'FunctionDecl' and x['name'].startswith('voikko'):
            t = x['type'].get('desugaredQualType', x['type']['qualType'])
            out[x['name']] = (x['type']['qualType'].split('(')[0].strip(), [p['type']['qualType'] for p in x.get('inner', ()) if p['kind'] == 'ParmVarDecl'])
    enums = {}
    for x in d['inner']:
        if x['kind'] == 'EnumDecl':
            enums[x.get('name')] = [y['name'] for y in x['inner'] if y['kind'] == 'EnumConstantDecl']
    return out, enums


def ctype(t):
    """class of a C type"""
    t = re.sub(r'\bconst\b', '', t).replace('struct ', '').strip()
    t = re.sub(r'\s+', ' ', t).replace(' *', '*')
    if t.startswith('enum '):
        return 'int'
    return {'int': 'int', 'size_t': 'size', 'size_t*': 'size*', 'void': 'void', 'char*': 'str', 'char**': 'str*', 'wchar_t*': 'wstr', 'wchar_t**': 'wstr*'}.get(
        t, 'obj*' if t.endswith('**') else 'obj' if t.endswith('*') else t)


# release function of each function whose result the caller owns
RELEASE = {
    'voikkoInit': {'voikkoTerminate'},
    'voikkoSuggestCstr': {'voikkoFreeCstrArray'}, 'voikkoSuggestUcs4': {'voikko_free_suggest_ucs4'},
    'voikkoHyphenateCstr': {'voikkoFreeCstr'}, 'voikkoHyphenateUcs4': {'voikkoFreeCstr'}, 'voikkoInsertHyphensCstr': {'voikkoFreeCstr'},
    'voikkoNextGrammarErrorCstr': {'voikkoFreeGrammarError'}, 'voikkoNextGrammarErrorUcs4': {'voikkoFreeGrammarError'},
    'voikkoGetGrammarErrorShortDescription': {'voikkoFreeErrorMessageCstr'},
    'voikko_list_dicts': {'voikko_free_dicts'},
    'voikkoListSupportedSpellingLanguages': {'voikkoFreeCstrArray'}, 'voikkoListSupportedHyphenationLanguages': {'voikkoFreeCstrArray'},
    'voikkoListSupportedGrammarCheckingLanguages': {'voikkoFreeCstrArray'},
    'voikkoAnalyzeWordCstr': {'voikko_free_mor_analysis'}, 'voikkoAnalyzeWordUcs4': {'voikko_free_mor_analysis'},
    'voikko_mor_analysis_value_cstr': {'voikko_free_mor_analysis_value_cstr'},
    'voikkoGetAttributeValues': {'voikkoFreeCstrArray'},
}
FREES = set().union(*RELEASE.values())


class Method:
    def __init__(self, lang, file, cls, name, params, body, line, mods=(), outer=None):
        self.lang, self.file, self.cls, self.name, self.params, self.body, self.line, self.mods, self.outer = lang, file, cls, name, params, body, line, set(mods), outer
        self.inner = {}

    def where(self):
        return '%s:%d (%s.%s)' % (rel(self.file), self.line, self.cls, self.name)

    @property
    def static(self):
        return 'static' in self.mods


# ------------------------------------------------------------------ expressions as strings
def args_of(s, i):
    """arguments of the call whose '(' is at s[i]; (args, end)"""
    depth = 0
    cur = ''
    out = []
    q = None
    j = i
    while j < len(s):
        c = s[j]
        if q:
            cur += c
            if c == '\\':
                cur += s[j + 1]
                j += 1
            elif c == q:
                q = None
        elif c in '"\'':
            q = c
            cur += c
        elif c in '([{':
            depth += 1
            if depth > 1:
                cur += c
        elif c in ')]}':
            depth -= 1
            if depth == 0:
                if cur.strip() or out:
                    out.append(cur.strip())
                return out, j
            cur += c
        elif c == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        j += 1
    return out, j


def nostr(s):
    """s with the contents of string literals blanked"""
    return re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', lambda m: m.group(0)[0] + ' ' * (len(m.group(0)) - 2) + m.group(0)[-1], s)


def calls(s):
    """[(receiver text, name, args, start, end)] of the calls in expression s, innermost order not guaranteed"""
    out = []
    for mo in re.finditer(r'([A-Za-z_]\w*)\s*\(', nostr(s)):
        pre = s[:mo.start()]
        r = re.search(r'((?:[\w\]]+(?:\(\))?\.)+)$', pre)
        a, e = args_of(s, mo.end() - 1)
        out.append((r.group(1)[:-1] if r else '', mo.group(1), a, mo.start() - (len(r.group(1)) if r else 0), e + 1))
    return out


def words(s):
    return set(re.findall(r'[A-Za-z_]\w*', nostr(s)))


# ------------------------------------------------------------------ Python
def py_methods():
    with open(PY, encoding='utf-8') as f:
        src = f.read()
    tree = ast.parse(src)
    out = []

    def unp(e):
        return re.sub(r'\b_[A-Z]\w*?__', '__', ast.unparse(e)) if e is not None else None

    def body(stmts, m):
        r = []
        for s in stmts:
            r += stmt(s, m)
        return r

    def stmt(s, m):
        if isinstance(s, ast.If):
            return [('if', unp(s.test), body(s.body, m), body(s.orelse, m))]
        if isinstance(s, ast.While):
            c = unp(s.test)
            return [('loop', None if c in ('True', '1') else c, body(s.body, m), [])]
        if isinstance(s, ast.For):
            return [('expr', '%s in %s' % (unp(s.target), unp(s.iter))), ('loop', 'for', body(s.body, m), [])]
        if isinstance(s, ast.Return):
            return [('return', unp(s.value) or '')]
        if isinstance(s, ast.Raise):
            return [('throw', unp(s.exc) or '')]
        if isinstance(s, ast.Assign):
            return [('set', unp(t), unp(s.value), False) for t in s.targets]
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return [('set', unp(s.target), unp(s.value), False)]
        if isinstance(s, ast.AugAssign):
            return [('set', unp(s.target), unp(s.value), {ast.Add: '+=', ast.Sub: '-='}.get(type(s.op), '?='))]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return []
            return [('expr', unp(s.value))]
        if isinstance(s, ast.Try):
            return [('try', body(s.body, m) + body(s.orelse, m), [body(h.body, m) for h in s.handlers], body(s.finalbody, m))]
        if isinstance(s, ast.With):
            return [('expr', unp(i.context_expr)) for i in s.items] + body(s.body, m)
        if isinstance(s, ast.Break):
            return [('break',)]
        if isinstance(s, ast.Continue):
            return [('continue',)]
        if isinstance(s, ast.FunctionDef):
            m.inner[s.name] = func(s, m.cls, m)
            return []
        return []

    def func(d, cls, outer=None):
        ps = [a.arg for a in d.args.posonlyargs + d.args.args]
        mods = {unp(x).split('.')[-1] for x in d.decorator_list}
        m = Method('python', PY, cls, d.name, ps, None, d.lineno, {'static' if x in ('classmethod', 'staticmethod') else x for x in mods}, outer)
        m.body = body(d.body, m)
        m.node = d
        return m
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            for d in n.body:
                if isinstance(d, ast.FunctionDef):
                    out.append(func(d, n.name))
        elif isinstance(n, ast.FunctionDef):
            out.append(func(n, ''))
    return out, tree


# ------------------------------------------------------------------ brace languages
TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|0[xX][0-9a-fA-F]+|\d+\w*(?:\.\d+)?|[A-Za-z_$]\w*|\+\+|--|&&|\|\||===|!==|[=!<>+\-*/%&|^]=|->|=>|.''', re.S)


def tokenize(src, js=False):
    """[(text, line)]"""
    out = []
    i, line = 0, 1
    while i < len(src):
        if js and src[i] == '/' and src[i + 1:i + 2] not in ('/', '*') and (not out or out[-1][0] in ('(', ',', '=', ':', '[', '!', '&&', '||', '?', '{', '}', ';', 'return')):
            mo = re.compile(r'/(?:\\.|\[[^\]\n]*\]|[^/\\\n])+/\w*').match(src, i)
        else:
            mo = TOK.match(src, i)
        if mo is None:
            i += 1
            continue
        t = mo.group(0)
        if not (t.isspace() or t.startswith('//') or t.startswith('/*')):
            out.append((t, line))
        line += t.count('\n')
        i = mo.end()
    return out


def join(ts):
    s = ''
    for t, _ in ts:
        if s and (s[-1].isalnum() or s[-1] == '_') and (t[0].isalnum() or t[0] == '_'):
            s += ' '
        s += t
    return s


class Brace:
    def __init__(self, ts):
        self.t = ts
        self.m = {}
        st = []
        for i, (x, _) in enumerate(ts):
            if x in '([{' and len(x) == 1:
                st.append(i)
            elif x in ')]}' and len(x) == 1 and st:
                j = st.pop()
                self.m[j] = i
                self.m[i] = j

    def stmts(self, i, e):
        out = []
        while i < e:
            s, i = self.stmt(i, e)
            out += s
        return out

    def one(self, i, e):
        """statement or block as a list"""
        if i < e and self.t[i][0] == '{':
            return self.stmts(i + 1, self.m[i]), self.m[i] + 1
        return self.stmt(i, e)

    def to_semi(self, i, e):
        j = i
        while j < e and self.t[j][0] != ';':
            j = self.m[j] + 1 if self.t[j][0] in ('(', '[', '{') and j in self.m else j + 1
        return j

    def expr(self, i, j):
        """expression text without the bodies of nested functions"""
        ts = []
        k = i
        while k < j:
            x = self.t[k][0]
            if x == 'function':
                p = k + 1
                while self.t[p][0] != '(':
                    p += 1
                b = self.m[p] + 1
                ts.append(('function', 0))
                k = self.m[b] + 1
                continue
            ts.append(self.t[k])
            k += 1
        return join(ts)

    def stmt(self, i, e):
        t = self.t
        x = t[i][0]
        if x == ';':
            return [], i + 1
        if x == '{':
            return self.stmts(i + 1, self.m[i]), self.m[i] + 1
        if x in ('if', 'while', 'lock', 'synchronized', 'switch', 'for', 'foreach', 'using', 'fixed') and i + 1 < e and t[i + 1][0] == '(':
            c = self.m[i + 1]
            if x == 'if':
                then, k = self.one(c + 1, e)
                els = []
                if k < e and t[k][0] == 'else':
                    els, k = self.one(k + 1, e)
                return [('if', self.expr(i + 2, c), then, els)], k
            if x == 'while':
                b, k = self.one(c + 1, e)
                cond = self.expr(i + 2, c)
                return [('loop', None if cond in ('true', '1') else cond, b, [])], k
            if x in ('lock', 'synchronized'):
                b, k = self.one(c + 1, e)
                return [('lock', b)], k
            if x == 'switch':
                b = c + 1
                cs = []
                k = b + 1
                cur = None
                while k < self.m[b]:
                    if t[k][0] in ('case', 'default'):
                        q = k
                        while t[q][0] != ':':
                            q += 1
                        lab = join(t[k + 1:q]) if t[k][0] == 'case' else 'default'
                        if cur is not None and not cur[1]:
                            cur[0].append(lab)
                        else:
                            cur = ([lab], [])
                            cs.append(cur)
                        k = q + 1
                    else:
                        s, k = self.stmt(k, self.m[b])
                        if cur is not None:
                            cur[1].extend(s)
                return [('switch', self.expr(i + 2, c), cs)], self.m[b] + 1
            if x in ('for', 'foreach'):
                b, k = self.one(c + 1, e)
                s1 = self.to_semi(i + 2, c)
                if s1 < c:
                    s2 = self.to_semi(s1 + 1, c)
                    init, _ = self.stmt(i + 2, s1 + 1) if s1 > i + 2 else ([], 0)
                    post, _ = self.stmt(s2 + 1, c) if s2 + 1 < c else ([], 0)
                    cond = self.expr(s1 + 1, s2)
                    return init + [('loop', cond or None, b, post)], k
                return [('expr', self.expr(i + 2, c)), ('loop', 'for', b, [])], k
            b, k = self.one(c + 1, e)
            return [('expr', self.expr(i + 2, c))] + b, k
        if x == 'do' and t[i + 1][0] == '{':
            b, k = self.one(i + 1, e)
            c = self.m[k + 1]
            return b + [('loop', self.expr(k + 2, c), b, [])], c + 2
        if x == 'unsafe' and t[i + 1][0] == '{':
            return self.one(i + 1, e)
        if x == 'try':
            k = i + 1
            if t[k][0] == '(':
                k = self.m[k] + 1
            b, k = self.one(k, e)
            hs, fin = [], []
            while k < e and t[k][0] in ('catch', 'finally'):
                if t[k][0] == 'catch':
                    k += 1
                    if t[k][0] == '(':
                        k = self.m[k] + 1
                    h, k = self.one(k, e)
                    hs.append(h)
                else:
                    fin, k = self.one(k + 1, e)
            return [('try', b, hs, fin)], k
        j = self.to_semi(i, e)
        if x == 'return':
            return [('return', self.expr(i + 1, j))], j + 1
        if x == 'throw':
            return [('throw', self.expr(i + 1, j))], j + 1
        if x in ('break', 'continue'):
            return [(x,)], j + 1
        # assignment or declaration with initialiser
        k = i
        while k < j:
            y = t[k][0]
            if y in ('(', '[', '{') and k in self.m:
                k = self.m[k] + 1
                continue
            if y in ('=', '+=', '-=', '*=', '|='):
                lhs = self.expr(i, k)
                if re.search(r'[\w>\]*]\s+\w+$', lhs) or re.search(r'[*>\]]\w+$', lhs):
                    lhs = re.search(r'(\w+)$', lhs).group(1)
                return [('set', lhs, self.expr(k + 1, j), y if y != '=' else False)], j + 1
            k += 1
        s = self.expr(i, j)
        mo = re.match(r'^(\w+)(\+\+|--)$|^(\+\+|--)(\w+)$', s)
        if mo:
            return [('set', mo.group(1) or mo.group(4), '1', '+=' if '++' in s else '-=')], j + 1
        return [('expr', s)], j + 1


def class_methods(lang, path):
    """methods of the classes of a Java or C# file"""
    with open(path, encoding='utf-8-sig') as f:
        ts = tokenize(f.read())
    b = Brace(ts)
    out = []
    decls = []

    def scan(i, e, cls):
        k = i
        start = i
        while k < e:
            x = ts[k][0]
            if x in ('class', 'interface', 'enum') and k + 1 < e and re.match(r'\w', ts[k + 1][0]):
                nm = ts[k + 1][0]
                while ts[k][0] != '{':
                    k += 1
                if x != 'enum':
                    scan(k + 1, b.m[k], nm)
                k = b.m[k] + 1
                start = k
                continue
            if x == 'namespace':
                while ts[k][0] != '{':
                    k += 1
                scan(k + 1, b.m[k], cls)
                k = b.m[k] + 1
                start = k
                continue
            if x == ';':
                # abstract / extern declaration?
                for p in range(start, k):
                    if ts[p][0] == '(' and ts[p - 1][0] not in ('=', 'DllImport') and '=' not in [y[0] for y in ts[start:p]]:
                        if ts[b.m[p] + 1][0] in (';', 'throws'):
                            decls.append((cls, ts[p - 1][0], join(ts[start:p - 1]), [join(z) for z in split_params(ts[p + 1:b.m[p]])], ts[p][1]))
                            break
                k += 1
                start = k
                continue
            if x == '@' and ts[k + 2][0] != '(':
                k += 2
                continue
            if x == '{':
                # method, constructor, property
                head = ts[start:k]
                ps = [p for p in range(start, k) if ts[p][0] == '(']
                hd = [y[0] for y in head]
                if ps and '=' not in hd[:ps[0] - start]:
                    p = ps[0]
                    name = ts[p - 1][0]
                    params = [z[-1][0] for z in split_params(ts[p + 1:b.m[p]]) if z]
                    out.append(Method(lang, path, cls, name, params, b.stmts(k + 1, b.m[k]), ts[p][1], [y for y in hd[:p - start - 1]]))
                elif '=' not in hd:
                    # C# property
                    q = k + 1
                    while q < b.m[k]:
                        if ts[q][0] in ('get', 'set') and ts[q + 1][0] == '{':
                            out.append(Method(lang, path, cls, ts[q][0] + '_' + ts[k - 1][0], ['value'], b.stmts(q + 2, b.m[q + 1]), ts[q][1], hd))
                            q = b.m[q + 1]
                        q += 1
                else:
                    k = b.m[k] + 1
                    continue
                k = b.m[k] + 1
                start = k
                continue
            if x == '[' and lang == 'csharp' and k == start:
                k = b.m[k] + 1
                start = k
                continue
            k = b.m[k] + 1 if x in ('(', '[') and k in b.m and x == '(' else k + 1
    scan(0, len(ts), '')
    return out, decls, ts, b


def split_params(ts):
    out, cur, d = [], [], 0
    for x in ts:
        if x[0] in ('(', '[', '{', '<'):
            d += 1
        elif x[0] in (')', ']', '}', '>'):
            d -= 1
        if x[0] == ',' and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out


def js_methods():
    with open(JS, encoding='utf-8') as f:
        ts = tokenize(f.read(), js=True)
    b = Brace(ts)
    out = []
    wraps = {}
    for i, (x, line) in enumerate(ts):
        if x == 'function' or x == '=>':
            if x == '=>':
                continue
            p = i + 1
            name = None
            if ts[p][0] != '(':
                name = ts[p][0]
                p += 1
            prev = [y[0] for y in ts[max(0, i - 5):i]]
            public = False
            if name is None and prev and prev[-1] == '=':
                name = prev[-2]
                if name == ']':
                    name = prev[-3].strip('"\'')
                    public = True
            elif name is None and prev and prev[-1] == ':':
                name = prev[-2].strip('"\'')
                public = True
            body = b.m[p] + 1
            m = Method('javascript', JS, 'Voikko', name or 'anonymous', [z[-1][0] for z in split_params(ts[p + 1:b.m[p]]) if z], b.stmts(body + 1, b.m[body]), line, ['public'] if public else [])
            m.span = (body, b.m[body])
            out.append(m)
        if x == 'cwrap' and ts[i + 1][0] == '(':
            a, _ = args_of(join(ts[i:b.m[i + 1] + 1]), 5)
            if i >= 2 and ts[i - 1][0] == '=':
                wraps[ts[i - 2][0]] = (a[0].strip('"\''), a[1].strip('"\''), [z.strip('"\'') for z in args_of(a[2], 0)[0]], line)
    return out, wraps, ts, b


# ------------------------------------------------------------------ Lisp
def lisp_read(path):
    with open(path, encoding='utf-8') as f:
        s = f.read()
    pos = 0
    stack = [[]]
    line = 1
    rx = re.compile(r'\s+|;[^\n]*|#\|.*?\|#|"(?:\\.|[^"\\])*"|#\\(?:\w+|.)|#\'|#\.|,@|[()\'`,]|[^\s()\'"`,;]+', re.S)
    while pos < len(s):
        mo = rx.match(s, pos)
        if mo is None:
            pos += 1
            continue
        t = mo.group(0)
        ln = line
        line += t.count('\n')
        pos = mo.end()
        if t.isspace() or t[0] == ';' or t.startswith('#|') or t in ("'", '`', ',', ',@', "#'", '#.'):
            continue
        if t == '(':
            stack.append(LList(ln))
        elif t == ')':
            if len(stack) > 1:
                x = stack.pop()
                stack[-1].append(x)
        else:
            stack[-1].append(t)
    return stack[0]


class LList(list):
    def __init__(self, line):
        super().__init__()
        self.line = line


def lisp_walk(x):
    if isinstance(x, list):
        yield x
        for y in x:
            yield from lisp_walk(y)
