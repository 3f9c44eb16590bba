"""Language bindings against the C interface they wrap.

Rule 1 (signatures): every native function declared or wrapped by a binding exists in voikko.h, with as many parameters and compatible
parameter and result types; Python functions with pointer, size or void results declare restype.
Rule 2 (constants): option numbers used by the option setters, return codes, token types and sentence types equal those of
voikko_defines.h and voikko_enums.h; boolean and integer options go to the corresponding C function, with the caller's value.
Rule 3 (wiring): fields of dictionaries and grammar errors are filled from the corresponding native accessor.
Rule 4 (answers): the spell methods, evaluated for each of the four native results and every outcome of the other conditions, say true exactly
for VOIKKO_SPELL_OK.
"""
import ast
import os
import re
from rules.C10 import documented
from vlib import bind as B
from vlib.model import AnalysisError, SRC

NEEDS_MODEL = False
RULE = 'declarations, option numbers, enumerations and field wiring of the Python, Java, C#, JavaScript and Common Lisp bindings compared with the clang AST of voikko.h and with voikko_defines.h'
ASSUMPTIONS = ['option methods are recognised by the name of the option they set', 'JNA, ctypes, P/Invoke, cwrap and CFFI type mappings as documented by those libraries']

PROP = {
    'id': 'C11', 'title': 'Language bindings agree with the C interface',
    'statement': 'The Python, Java, C#, JavaScript and Common Lisp bindings declare the functions of the C interface with the number and types of parameters and results that voikko.h gives; their option setters pass the '
                 'number of the option they are named after and the value of the caller, to the boolean or integer setter as appropriate; their token types, sentence types and return codes have the values of '
                 'voikko_enums.h and voikko_defines.h; a word is reported as correct exactly when the native check returned VOIKKO_SPELL_OK; and the fields of the dictionaries and grammar errors they return come from the native accessors of the same meaning.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all functions, options, enumeration values and result fields of all bindings'},
    'why_tests_cant': 'Each binding has its own small test set (some are not run at all), wrong widths or swapped fields are invisible for most values, and rarely used options are not tested.',
    'anchors': {'files': ['libvoikko/python/libvoikko.py', 'libvoikko/java/src/main/java/org/puimula/libvoikko/Libvoikko.java', 'libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java',
                          'libvoikko/cs/libvoikko/Voikko.cs', 'libvoikko/js/libvoikko_api.js', 'libvoikko/cl/constants.lisp', 'libvoikko/src/voikko.h', 'libvoikko/src/voikko_defines.h', 'libvoikko/src/voikko_enums.h'],
                'mechanism': [{'name': 'foreign function declarations', 'where': 'libvoikko/python/libvoikko.py VoikkoLibrary, libvoikko/java Libvoikko.java, libvoikko/cs Voikko.cs, libvoikko/js'},
                              {'name': 'option setters', 'where': 'Voikko classes of the bindings'}],
                'observe_at': ['libvoikko.Voikko', 'org.puimula.libvoikko.Voikko']}}


def const_int(s, env):
    s = s.strip()
    try:
        return int(s, 0)
    except ValueError:
        return env.get(s.split('.')[-1])


def py_env(tree):
    env = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
            for t in n.targets:
                k = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
                if k:
                    env[k] = n.value.value
    return env


def tok_env(ts):
    env = {}
    for i in range(len(ts) - 3):
        if ts[i + 1][0] == '=' and re.match(r'^-?\d+$', ts[i + 2][0]) and ts[i + 3][0] in (';', ','):
            env[ts[i][0]] = int(ts[i + 2][0])
    return env


PYT = {'int': {'c_int'}, 'size': {'c_size_t'}, 'size*': {'POINTER(c_size_t)', 'c_void_p'}, 'void': {'None'},
       'str': {'c_char_p', 'POINTER(c_char)', 'c_void_p'}, 'str*': {'POINTER(c_char_p)', 'POINTER(POINTER(c_char))', 'c_void_p'},
       'wstr': {'c_wchar_p', 'POINTER(c_wchar)', 'c_void_p'}, 'wstr*': {'POINTER(c_wchar_p)', 'POINTER(POINTER(c_wchar))', 'c_void_p'},
       'obj': {'c_void_p'}, 'obj*': {'POINTER(c_void_p)', 'c_void_p'}}
JVT = {'int': {'int'}, 'size': {'SizeT'}, 'size*': {'SizeTByReference', 'Pointer'}, 'void': {'void'},
       'str': {'byte[]', 'ByteBuffer', 'Pointer', 'ByteArray'}, 'str*': {'Pointer', 'PointerByReference'}, 'wstr': {'Pointer', 'WString'}, 'wstr*': {'Pointer', 'PointerByReference'},
       'obj': {'Pointer', 'VoikkoHandle', 'VoikkoGrammarError'}, 'obj*': {'Pointer', 'PointerByReference'}}
CST = {'int': {'int'}, 'size': {'IntPtr', 'UIntPtr'}, 'size*': {'ref IntPtr', 'ref UIntPtr', 'out IntPtr', 'out UIntPtr'}, 'void': {'void'},
       'str': {'IntPtr', 'byte[]'}, 'str*': {'IntPtr', 'ref IntPtr', 'out IntPtr'}, 'wstr': {'IntPtr'}, 'wstr*': {'IntPtr'}, 'obj': {'IntPtr'}, 'obj*': {'IntPtr'}}
JST = {'void': {'null'}, 'str': {'string', 'number'}}
CLT = {'int': {':int'}, 'size': {':size', ':unsigned-long', ':ulong', 'size-t'}, 'void': {':void'}, 'str': {':string', ':pointer'}}


def ok_type(tab, ct, bt, default):
    return bt in tab.get(ct, default)


def signature(rep, api, lang, where, name, ret, params, tab, default):
    """ret, params: binding types"""
    if name not in api:
        rep.bad('unknown-function', where, '%s binding: %s is not declared in voikko.h' % (lang, name), '%s|%s' % (lang, name))
        return
    rep.count('declarations compared')
    cr, cp = api[name]
    if len(cp) != len(params):
        rep.bad('signature', where, '%s binding: %s is declared with %d parameters, voikko.h has %d' % (lang, name, len(params), len(cp)), '%s|%s|n' % (lang, name))
        return
    for i, (a, b) in enumerate(zip(cp, params)):
        if not ok_type(tab, B.ctype(a), b, default):
            rep.bad('signature', where, '%s binding: parameter %d of %s is declared as %s, in voikko.h it is %s' % (lang, i + 1, name, b, a), '%s|%s|%d' % (lang, name, i))
    if not ok_type(tab, B.ctype(cr), ret, default):
        rep.bad('signature', where, '%s binding: the result of %s is declared as %s, in voikko.h it is %s' % (lang, name, ret, cr), '%s|%s|r' % (lang, name))


def check_python_sigs(rep, api, tree):
    sig = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and t.attr in ('argtypes', 'restype') and isinstance(t.value, ast.Attribute):
                    d = sig.setdefault(t.value.attr, {})
                    d['line'] = n.lineno
                    if t.attr == 'argtypes' and isinstance(n.value, (ast.List, ast.Tuple)):
                        d['a'] = [ast.unparse(x) for x in n.value.elts]
                    elif t.attr == 'restype':
                        d['r'] = ast.unparse(n.value)
    used = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and re.match(r'voikko', n.func.attr):
            used.setdefault(n.func.attr, []).append(n)
    rep.need(len(sig), 5, 'ctypes declarations')
    for name, d in sorted(sig.items()):
        where = '%s:%d' % (B.rel(B.PY), d['line'])
        if 'a' not in d:
            continue
        r = d.get('r', 'c_int')
        signature(rep, api, 'Python', where, name, r, d['a'], PYT, set())
        if name in B.RELEASE and r in ('c_char_p', 'c_wchar_p'):
            rep.bad('signature', where, 'Python binding: the result of %s is declared as %s, which ctypes converts, so that the pointer to release is lost' % (name, r), 'Python|%s|conv' % name)
    for name, cs in sorted(used.items()):
        if name not in api:
            if name.startswith('voikko') and name not in ('voikkoDeps',):
                rep.bad('unknown-function', '%s:%d' % (B.rel(B.PY), cs[0].lineno), 'Python binding calls %s, which is not in voikko.h' % name, 'Python|%s|call' % name)
            continue
        for c in cs:
            rep.count('native call sites')
            if not any(isinstance(a, ast.Starred) for a in c.args) and len(c.args) != len(api[name][1]):
                rep.bad('signature', '%s:%d' % (B.rel(B.PY), c.lineno), 'Python binding calls %s with %d arguments, it takes %d' % (name, len(c.args), len(api[name][1])), 'Python|%s|callargs' % name)
        if name not in sig or 'r' not in sig[name]:
            if B.ctype(api[name][0]) not in ('int', 'void') and not dynamic_sigs(tree):
                rep.bad('signature', '%s:%d' % (B.rel(B.PY), cs[0].lineno), 'Python binding: %s is called without a declared result type, its %s would be truncated to int' % (name, api[name][0]), 'Python|%s|norestype' % name)


def dynamic_sigs(tree):
    """are declarations made in a way that this rule does not follow (setattr, loops over tables)?"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'setattr'):
            return True
        if isinstance(n, ast.Attribute) and n.attr in ('argtypes', 'restype') and not isinstance(n.value, ast.Attribute):
            return True
    return False


def btype(s):
    """type of 'type name' in a Java or C# parameter"""
    s = s.strip()
    s = re.sub(r'^(final|params)\s+', '', s)
    mo = re.match(r'^(.*?[\]>*\s])\s*(\w+)$', s)
    return (mo.group(1) if mo else s).strip()


def rtype(head):
    return re.sub(r'\b(public|private|protected|static|abstract|extern|unsafe|internal|synchronized|final|native)\b', '', head).strip()


def squash(n):
    return re.sub(r'[^A-Z0-9]', '', re.sub(r'^(set_|set|put_)', '', n, flags=re.I).upper())


def check_options(rep, lang, methods, env, opts, aliases):
    names = {}
    for name, num, kind, default in opts:
        names[re.sub(r'[^A-Z0-9]', '', re.sub(r'^VOIKKO_(OPT_)?', '', name))] = (name, num, kind)
    byname = {}
    for m in methods:
        byname.setdefault(m.name.lstrip('_'), []).append(m)

    def flat(body):
        for s in body:
            yield s
            for x in s[1:]:
                if isinstance(x, list):
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], list):
                            yield from flat(y[1])
                        elif isinstance(y, tuple):
                            yield from flat([y])
                        elif isinstance(y, list):
                            yield from flat(y)

    def kind_of(fn, depth=0):
        """'bool'/'int' for a function that sets an option given by its parameter"""
        fn = aliases.get(fn, fn)
        if fn == 'voikkoSetBooleanOption':
            return 'bool'
        if fn == 'voikkoSetIntegerOption':
            return 'int'
        if depth > 3:
            return None
        for m in byname.get(fn.lstrip('_'), ()):
            for s in flat(m.body):
                for e in s[1:]:
                    if isinstance(e, str):
                        for rc, cn, a, _, _ in B.calls(e):
                            if cn.lstrip('_') != fn.lstrip('_') and len(m.params) >= 2 and any(p in a for p in m.params):
                                k = kind_of(cn, depth + 1)
                                if k:
                                    return k
        return None

    def option_calls(body):
        for s in body:
            for e in s[1:]:
                if isinstance(e, str):
                    for rc, cn, a, _, _ in B.calls(e):
                        k = kind_of(cn)
                        if k:
                            yield k, cn, a
    seen = set()
    for m in methods:
        k = names.get(squash(m.name))
        if k is None:
            continue
        name, num, kind = k
        oc = list(option_calls(flat(m.body)))
        if not oc:
            continue
        seen.add(name)
        rep.count('option methods')
        for okind, fn, a in oc:
            a = a[1:] if aliases.get(fn, fn) in ('voikkoSetBooleanOption', 'voikkoSetIntegerOption') else a
            if len(a) < 2:
                continue
            n = const_int(a[0], env)
            if n is None:
                rep.note('%s.%s: option number %s not resolved' % (lang, m.name, a[0]))
                continue
            if n != num:
                rep.bad('option-number', m.where(), '%s binding: %s sets option %d, %s is %d' % (lang, m.name, n, name, num), '%s|%s|num' % (lang, m.name))
            if okind != kind:
                rep.bad('option-kind', m.where(), '%s binding: %s sets %s through the %s setter' % (lang, m.name, name, 'boolean' if okind == 'bool' else 'integer'), '%s|%s|kind' % (lang, m.name))
            ps = [p for p in m.params if p not in ('self', 'cls')]
            if ps and ps[-1] not in B.words(a[1]) and not derived(m, a[1], ps[-1]):
                rep.bad('option-value', m.where(), '%s binding: %s passes %s, not the value given by the caller' % (lang, m.name, a[1]), '%s|%s|value' % (lang, m.name))
            elif ps and re.match(r'^(!|not )', a[1]):
                rep.bad('option-value', m.where(), '%s binding: %s passes the negated value' % (lang, m.name), '%s|%s|neg' % (lang, m.name))
            elif ps and kind != 'bool' and re.search(r'\b(max|min|abs|Max|Min|Abs)\(|\b%s\s*[-+*/&|^%%]|[-+*/&|^%%~]\s*%s\b' % (re.escape(ps[-1]), re.escape(ps[-1])), a[1]):
                rep.bad('option-value', m.where(), '%s binding: %s passes %s, not the value given by the caller' % (lang, m.name, a[1]), '%s|%s|value' % (lang, m.name))
    rep.need(len(seen), 8, 'option methods of the %s binding' % lang)
    # suggestion strategy
    ocr = [n for n in opts if 'OCR' in n[0]][0]
    for m in methods:
        if squash(m.name) != 'SUGGESTIONSTRATEGY':
            continue

        def branch(body, label):
            for s in body:
                if s[0] == 'if':
                    lab = strategy(s[1])
                    neg = '!=' in s[1] or re.match(r'^(!|not )', s[1])
                    branch(s[2], lab if not neg else {'OCR': 'TYPO', 'TYPO': 'OCR'}.get(lab))
                    branch(s[3], {'OCR': 'TYPO', 'TYPO': 'OCR'}.get(lab) if not neg else lab)
                elif s[0] == 'switch':
                    for labs, b in s[2]:
                        branch(b, strategy(labs[0]) if len(labs) == 1 else None)
                elif s[0] in ('try', 'lock', 'loop'):
                    for x in s[1:]:
                        if isinstance(x, list):
                            branch([y for y in x if isinstance(y, tuple)], label)
                else:
                    for k, fn, a in option_calls([s]):
                        a = a[1:] if aliases.get(fn, fn).startswith('voikkoSet') else a
                        if len(a) < 2:
                            continue
                        n = const_int(a[0], env)
                        if n is not None and n != ocr[1]:
                            rep.bad('option-number', m.where(), '%s binding: %s sets option %d, %s is %d' % (lang, m.name, n, ocr[0], ocr[1]), '%s|%s|num' % (lang, m.name))
                        v = a[1].lower()
                        if label and v in ('true', 'false', '1', '0') and (v in ('true', '1')) != (label == 'OCR'):
                            rep.bad('option-value', m.where(), '%s binding: %s passes %s for strategy %s' % (lang, m.name, a[1], label), '%s|%s|%s' % (lang, m.name, label))
                        elif label is None and strategy(a[1]) and re.search(r'==', a[1]) and strategy(a[1]) != 'OCR':
                            rep.bad('option-value', m.where(), '%s binding: %s passes %s' % (lang, m.name, a[1]), '%s|%s|expr' % (lang, m.name))
                        rep.count('strategy branches')
        branch(m.body, None)
    # conversion of booleans
    for m in methods:
        if m.name.lstrip('_').lower() == 'booltoint' and m.params:
            p = [x for x in m.params if x != 'self'][-1]
            bad = False
            for s in m.body:
                if s[0] == 'return':
                    e = s[1].replace(' ', '')
                    mo = re.match(r'^\(?(!?)\(?%s\)?\?(\d+):(\d+)\)?$' % re.escape(p), e)
                    if mo:
                        t, f = (mo.group(2), mo.group(3)) if not mo.group(1) else (mo.group(3), mo.group(2))
                        bad = int(t) == 0 or int(f) != 0
                elif s[0] == 'if' and s[1].replace(' ', '') in (p, 'not' + p, '!' + p):
                    rv = [x[1] for x in s[2] if x[0] == 'return'] + [x[1] for x in s[3] if x[0] == 'return']
                    if len(rv) == 2 and all(re.match(r'^\d+$', x) for x in rv):
                        t, f = rv if s[1] == p else rv[::-1]
                        bad = int(t) == 0 or int(f) != 0
            if bad:
                rep.bad('option-value', m.where(), '%s binding: %s does not map true to a non-zero and false to zero' % (lang, m.name), '%s|bool' % lang)
            rep.count('boolean conversions')


def derived(m, e, p):
    """is e a local computed from parameter p?"""
    ws = B.words(e)
    for _ in range(3):
        for s in m.body:
            if s[0] == 'set' and s[1] in ws:
                ws |= B.words(s[2])
    return p in ws


def strategy(s):
    o, t = 'OCR' in s, 'TYPO' in s
    return 'OCR' if o and not t else 'TYPO' if t and not o else None


def enum_tokens(ts, b, name):
    """[(constant, value)] of enum `name` in a Java or C# file"""
    for i, (x, _) in enumerate(ts):
        if x == 'enum' and ts[i + 1][0] == name:
            k = i
            while ts[k][0] != '{':
                k += 1
            out = []
            nxt = 0
            j = k + 1
            while j < b.m[k]:
                if ts[j][0] == ';':
                    break
                if re.match(r'^[A-Za-z_]\w*$', ts[j][0]):
                    nm = ts[j][0]
                    val = nxt
                    ident = None
                    if ts[j + 1][0] == '=':
                        val = int(ts[j + 2][0], 0)
                        j += 2
                    elif ts[j + 1][0] == '(':
                        a = [y[0] for y in ts[j + 2:b.m[j + 1]]]
                        if len(a) == 1 and a[0].isdigit():
                            ident = int(a[0])
                        j = b.m[j + 1]
                    out.append((nm, val, ident))
                    nxt = val + 1
                j += 1
            return out
    return None


def compare_enum(rep, lang, where, got, want, what):
    """got: [(name, value)], want: C constant names with their prefix"""
    pre = want[0].rsplit('_', 1)[0] + '_' if '_' in want[0] else ''
    w = {c.split('_', 1)[1]: i for i, c in enumerate(want)}
    for n, v in got:
        rep.count('enumeration constants')
        if n in w and w[n] != v:
            rep.bad('enum', where, '%s binding: %s.%s is %d, in voikko_enums.h it is %d' % (lang, what, n, v, w[n]), '%s|%s|%s' % (lang, what, n))
    miss = set(w) - {n for n, _ in got}
    if miss:
        rep.bad('enum', where, '%s binding: %s lacks %s' % (lang, what, sorted(miss)), '%s|%s|missing' % (lang, what))


FIELD = [('code', r'code'), ('start', r'start'), ('length', r'len'), ('description', r'desc'), ('language', r'lang'), ('script', r'script'), ('variant', r'variant'), ('suggestions', r'sugg')]


def meaning(name):
    n = name.lower()
    if 'shortdesc' in n or 'description' in n:
        return 'description'
    for k, r in FIELD:
        if re.search(r, n):
            return k
    return None


ORIGIN = {'voikkoGetGrammarErrorCode': 'code', 'voikkoGetGrammarErrorStartPos': 'start', 'voikkoGetGrammarErrorLength': 'length', 'voikkoGetGrammarErrorShortDescription': 'description',
          'voikko_dict_language': 'language', 'voikko_dict_script': 'script', 'voikko_dict_variant': 'variant', 'voikko_dict_description': 'description'}


def origins(m, aliases):
    """local variable -> set of native accessors its value comes from"""
    o = {}

    def of(e):
        r = set()
        for _, cn, a, _, _ in B.calls(e):
            c = aliases.get(cn, cn)
            if c in ORIGIN:
                r.add(c)
        for w in B.words(e):
            r |= o.get(w, set())
        return r

    def go(body):
        for s in body:
            if s[0] == 'set':
                x = of(s[2])
                if x and re.match(r'^\w+$', s[1]):
                    o[s[1]] = x
            for y in s[1:]:
                if isinstance(y, list):
                    for z in y:
                        if isinstance(z, tuple) and isinstance(z[0], str):
                            go([z])
                        elif isinstance(z, list):
                            go(z)
    for _ in range(2):
        go(m.body)
    return of


def exprs(body):
    for s in body:
        for y in s[1:]:
            if isinstance(y, str):
                yield y
            elif isinstance(y, list):
                for z in y:
                    if isinstance(z, tuple) and isinstance(z[0], str):
                        yield from exprs([z])
                    elif isinstance(z, tuple) and isinstance(z[0], list):
                        yield from exprs(z[1])
                    elif isinstance(z, list):
                        yield from exprs(z)


def check_wiring(rep, lang, methods, ctors, aliases):
    for m in methods:
        of = origins(m, aliases)
        for e in exprs(m.body):
            for rc, cn, a, _, _ in B.calls(e):
                if cn not in ctors:
                    continue
                for i, x in enumerate(a):
                    kw = re.match(r'^(\w+)=(?!=)(.*)$', x, re.S)
                    pn = kw.group(1) if kw else ctors[cn][i] if i < len(ctors[cn]) else None
                    if pn is None:
                        continue
                    src = of(kw.group(2) if kw else x)
                    want = meaning(pn)
                    for s in src:
                        rep.count('result fields')
                        if want is not None and ORIGIN[s] != want:
                            rep.bad('wiring', m.where(), '%s binding: %s of %s is filled from %s' % (lang, pn, cn, s), '%s|%s|%s' % (lang, cn, pn))
    # constructors and accessors
    for m in methods:
        if m.cls in ctors and (m.name == m.cls or m.name == '__init__'):
            for s in m.body:
                if s[0] == 'set' and re.match(r'^(this|self)\.\w+$', s[1]) and s[2] in m.params:
                    a, b = meaning(s[1].split('.')[1]), meaning(s[2])
                    if a and b and a != b:
                        rep.bad('wiring', m.where(), '%s binding: %s is set from parameter %s' % (lang, s[1], s[2]), '%s|%s|%s|ctor' % (lang, m.cls, s[1]))
                    rep.count('result fields')
        elif m.cls in ctors and (m.name.startswith('get')) and len(m.body) == 1 and m.body[0][0] == 'return' and re.match(r'^(this\.)?\w+$', m.body[0][1]):
            a, b = meaning(m.name), meaning(m.body[0][1].split('.')[-1])
            if a and b and a != b:
                rep.bad('wiring', m.where(), '%s binding: %s.%s returns %s' % (lang, m.cls, m.name, m.body[0][1]), '%s|%s|%s|get' % (lang, m.cls, m.name))
            rep.count('result fields')


def return_codes():
    with open(os.path.join(SRC, 'voikko_defines.h'), encoding='utf-8') as f:
        return {mo.group(1): int(mo.group(2)) for mo in re.finditer(r'#define\s+(VOIKKO_\w+)\s+(\d+)', f.read())}


def load():
    out = {}
    ms, tree = B.py_methods()
    out['Python'] = (ms, tree)
    for lang, d, key in (('Java', B.JAVA, 'java'), ('C#', B.CS, 'csharp')):
        ms, files = [], {}
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.java') or fn.endswith('.cs'):
                a, decl, ts, b = B.class_methods(key, os.path.join(d, fn))
                ms += a
                files[fn] = (decl, ts, b)
        out[lang] = (ms, files)
    ms, wraps, ts, b = B.js_methods()
    out['JavaScript'] = (ms, (wraps, ts, b))
    return out


OPS = {'spell': 'voikkoSpell', 'suggest': 'voikkoSuggest', 'grammarerrors': 'voikkoNextGrammarError', 'analyze': 'voikkoAnalyzeWord', 'tokens': 'voikkoNextToken', 'sentences': 'voikkoNextSentenceStart',
       'gethyphenationpattern': 'voikkoHyphenate', 'hyphenate': 'voikkoInsertHyphens', 'attributevalues': 'voikkoGetAttributeValues', 'listdicts': 'voikko_list_dicts', 'getversion': 'voikkoGetVersion',
       'listsupportedspellinglanguages': 'voikkoListSupportedSpellingLanguages', 'listsupportedhyphenationlanguages': 'voikkoListSupportedHyphenationLanguages',
       'listsupportedgrammarcheckinglanguages': 'voikkoListSupportedGrammarCheckingLanguages'}


def natives(m, by, aliases, seen):
    """native functions that a method reaches through methods and closures of its class"""
    if id(m) in seen:
        return set()
    seen.add(id(m))
    out = set()
    todo = [m] + list(getattr(m, 'inner', {}).values() if isinstance(getattr(m, 'inner', None), dict) else [])
    for f in todo:
        for e in exprs(f.body):
            for w in B.words(e):
                n = aliases.get(w, w)
                if n.startswith('voikko'):
                    out.add(n)
                for g in by.get(w.lstrip('_'), ()):
                    out |= natives(g, by, aliases, seen)
    return out


def check_operations(rep, lang, methods, aliases):
    by = {}
    for x in methods:
        if x.cls in ('Voikko', '', None) or lang == 'JavaScript':
            by.setdefault(x.name.lstrip('_'), []).append(x)
    for x in methods:
        want = OPS.get(x.name.lower()) if not x.name.startswith('_') and (x.cls in ('Voikko', '', None) or lang == 'JavaScript') else None
        if want is None:
            continue
        got = natives(x, by, aliases, set())
        rep.count('operations')
        if not got:
            continue
        ok = {want} | ({'voikkoHyphenate'} if want == 'voikkoInsertHyphens' else set())
        if not any(g.startswith(w) for g in got for w in ok):
            rep.bad('operation', x.where(), '%s binding: %s uses %s instead of %s' % (lang, x.name, '/'.join(sorted(got)), want), '%s|%s|op' % (lang, x.name))
        for o in set(OPS.values()) - ok:
            hit = [g for g in got if re.match(re.escape(o) + r'(Cstr|Ucs4)?$', g)]
            if hit:
                rep.bad('operation', x.where(), '%s binding: %s uses %s' % (lang, x.name, hit[0]), '%s|%s|op2' % (lang, x.name))


class Undecided(Exception):
    pass


def spell_value(e, vals, env, aliases, R, assign, called):
    """Value of an expression of a spell method when the native check returned R.
    Atoms that are not understood take the value given by assign; Undecided if one
    of them depends on R."""
    ts = re.findall(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|[A-Za-z_$][\w$]*|\d+|===|!==|==|!=|<=|>=|&&|\|\||\S', e)
    pos = [0]

    def peek():
        return ts[pos[0]] if pos[0] < len(ts) else None

    def adv():
        pos[0] += 1
        return ts[pos[0] - 1]

    def ternary():
        c = orx()
        if peek() == '?':
            adv()
            a = ternary()
            if adv() != ':':
                raise Undecided()
            b = ternary()
            return lambda: a() if c() else b()
        if peek() == 'if':
            adv()
            k = orx()
            if adv() != 'else':
                raise Undecided()
            b = ternary()
            return lambda: c() if k() else b()
        return c

    def orx():
        l = andx()
        while peek() in ('||', 'or'):
            adv()
            l = (lambda a, b: lambda: a() or b())(l, andx())
        return l

    def andx():
        l = notx()
        while peek() in ('&&', 'and'):
            adv()
            l = (lambda a, b: lambda: a() and b())(l, notx())
        return l

    def notx():
        if peek() in ('!', 'not'):
            adv()
            a = notx()
            return lambda: not a()
        return cmpx()

    def cmpx():
        l = prim()
        op = peek()
        if op in ('==', '===', '!=', '!==', '<', '>', '<=', '>=', 'is'):
            adv()
            if op == 'is' and peek() == 'not':
                adv()
                op = '!='
            r = prim()
            f = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}[{'===': '==', '!==': '!=', 'is': '=='}.get(op, op)]

            def ev():
                a, b = l(), r()
                if isinstance(a, tuple) or isinstance(b, tuple):
                    return atom('%s%s%s' % (a, op, b))
                return f(a, b)
            return ev

        def ev1():
            a = l()
            return atom(str(a)) if isinstance(a, tuple) else a
        return ev1

    def atom(t):
        if t not in assign:
            assign[t] = None
            raise KeyError(t)
        if assign[t] is None:
            raise KeyError(t)
        return assign[t]

    def prim():
        t = peek()
        if t is None:
            raise Undecided()
        if t == '(':
            adv()
            v = ternary()
            if adv() != ')':
                raise Undecided()
            if peek() not in (None, ')', '==', '===', '!=', '!==', '<', '>', '<=', '>=', 'is', '&&', 'and', '||', 'or', '?', ':', 'if', 'else'):
                raise Undecided()
            return v
        if t == '-' and pos[0] + 1 < len(ts) and ts[pos[0] + 1].isdigit():
            adv()
            n = -int(adv())
            return lambda: n
        if re.match(r'^\d+$', t):
            adv()
            return lambda: int(t)
        if t in ('true', 'True', 'false', 'False'):
            adv()
            return lambda: t[0] in 'tT'
        if not re.match(r'^[A-Za-z_$"\']', t):
            raise Undecided()
        # a chain a.b(c).d
        start = pos[0]
        adv()
        while peek() in ('.', '(', '['):
            if adv() == '.':
                adv()
            else:
                d = 1
                while d:
                    x = peek()
                    if x is None:
                        raise Undecided()
                    adv()
                    d += 1 if x in '([' else -1 if x in ')]' else 0
        ch = ts[start:pos[0]]
        txt = ''.join(ch)
        names = [x for x in ch if re.match(r'^[A-Za-z_$]', x)]
        head = []
        for x in ch:
            if x in '([':
                break
            head.append(x)
        last = head[-1]
        isnat = [x for x in names if aliases.get(x, x).startswith('voikkoSpell')]
        if isnat:
            k = ch.index(isnat[0])
            if ch[k + 1:k + 2] == ['(']:
                d = 0
                for i, x in enumerate(ch[k + 1:]):
                    d += 1 if x in '([' else -1 if x in ')]' else 0
                    if d == 0:
                        break
                if k + 1 + i == len(ch) - 1:
                    def nat():
                        called.append(1)
                        return R
                    return nat
            raise Undecided()
        if any(x in vals and vals[x] is not None and not (len(ch) == 1) for x in names if x not in head[:-1]):
            raise Undecided()
        if len(ch) == 1 and t in vals:
            v = vals[t]
            return lambda: v if v is not None else ('?', t)
        if '(' not in ch and last in env and isinstance(env[last], int):
            n = env[last]
            return lambda: n
        return lambda: ('?', txt)
    v = ternary()
    if pos[0] != len(ts):
        raise Undecided()
    return v()


def spell_paths(m, env, aliases, R):
    """results of the spell method when the native function was called and returned R:
    True, False or 'throw', for every choice of the conditions that do not depend on it"""
    out = set()
    todo = [{}]
    n = 0
    while todo:
        assign = todo.pop()
        n += 1
        if n > 400:
            raise Undecided()
        vals, called = {}, []

        def ev(e):
            return spell_value(e, vals, env, aliases, R, assign, called)

        def go(body):
            for s in body:
                if s[0] == 'return':
                    return ('r', ev(s[1]) if s[1] else None)
                if s[0] == 'throw':
                    return ('r', 'throw')
                if s[0] == 'if':
                    r = go(s[2] if ev(s[1]) else s[3])
                    if r:
                        return r
                elif s[0] == 'set':
                    if len(s) > 3 and s[3]:
                        raise Undecided()
                    if re.match(r'^\w+$', s[1]):
                        uses = any(aliases.get(w, w).startswith('voikkoSpell') or vals.get(w) is not None for w in B.words(s[2]))
                        vals[s[1]] = ev(s[2]) if uses or re.match(r'^(true|True|false|False|-?\d+)$', s[2]) else None
                elif s[0] == 'expr':
                    if any(aliases.get(w, w).startswith('voikkoSpell') for w in B.words(s[1])):
                        raise Undecided()
                elif s[0] in ('try', 'lock', 'with'):
                    inner = [x for x in s[1:] if isinstance(x, list) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str)]
                    if not inner:
                        continue
                    r = go(inner[0])
                    if r:
                        return r
                else:
                    raise Undecided()
            return None
        try:
            r = go(m.body)
        except KeyError as k:
            for b in (True, False):
                a = {x: y for x, y in assign.items() if y is not None}
                a[k.args[0]] = b
                todo.append(a)
            continue
        if called:
            v = r[1] if r else None
            out.add(v if isinstance(v, str) else bool(v))
    return out


def check_spell(rep, lang, methods, env, aliases):
    for m in methods:
        if m.name.lower() != 'spell':
            continue
        try:
            res = {R: spell_paths(m, env, aliases, R) for R in (0, 1, 2, 3)}
        except Undecided:
            res = {}
        if not res or not res[1]:
            rep.note('%s.%s: how the result of the check is turned into an answer was not resolved' % (lang, m.name))
            continue
        rep.count('spell results')
        for R in (0, 2, 3):
            if True in res[R]:
                rep.bad('spell-result', m.where(), '%s binding: %s accepts the word when libvoikko returns %d' % (lang, m.name, R), '%s|spell|%d' % (lang, R))
        if res[1] != {True}:
            rep.bad('spell-result', m.where(), '%s binding: %s does not accept the word when libvoikko returns VOIKKO_SPELL_OK' % (lang, m.name), '%s|spell|ok' % lang)


def run(m, rep, tier):
    api, enums = B.c_api()
    rep.need(len(api), 30, 'functions of voikko.h')
    tok, sen = enums['voikko_token_type'], enums['voikko_sentence_type']
    opts = documented()
    codes = return_codes()
    L = load()
    for lang in ('Python', 'Java', 'C#'):
        check_operations(rep, lang, L[lang][0], {})
    check_operations(rep, 'JavaScript', L['JavaScript'][0], {k: v[0] for k, v in L['JavaScript'][1][0].items()})
    # Python
    ms, tree = L['Python']
    check_python_sigs(rep, api, tree)
    env = py_env(tree)
    check_options(rep, 'Python', ms, env, opts, {})
    check_spell(rep, 'Python', ms, env, {})
    for cls, want in (('Token', tok), ('Sentence', sen)):
        c = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == cls]
        if not c:
            continue
        got = [(t.id, n.value.value) for n in c[0].body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int) for t in n.targets if isinstance(t, ast.Name)]
        where = '%s:%d' % (B.rel(B.PY), c[0].lineno)
        if got:
            compare_enum(rep, 'Python', where, got, want, cls)
        for n in c[0].body:
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.List, ast.Tuple)) and n.value.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.value.elts):
                nm = [x.value for x in n.value.elts]
                if len(set(nm) & {x.split('_', 1)[1] for x in want}) >= 2:
                    compare_enum(rep, 'Python', where, list(zip(nm, range(len(nm)))), want, cls + '.' + ast.unparse(n.targets[0]))
    ctors = {x.cls: [p for p in x.params if p != 'self'] for x in ms if x.name == '__init__' and x.cls in ('Dictionary', 'GrammarError')}
    check_wiring(rep, 'Python', ms, ctors, {})
    # Java
    for lang, file, tab in (('Java', 'Libvoikko.java', JVT), ('C#', 'Voikko.cs', CST)):
        ms, files = L[lang]
        n = 0
        d = B.JAVA if lang == 'Java' else B.CS
        env = {}
        for fn, (decl, ts, b) in files.items():
            env.update(tok_env(ts))
            for cls, name, head, params, line in decl:
                if name.startswith('voikko'):
                    n += 1
                    signature(rep, api, lang, '%s:%d' % (B.rel(os.path.join(d, fn)), line), name, rtype(head), [btype(p) for p in params], tab, set())
        rep.need(n, 10, '%s declarations' % lang)
        for k, v in sorted(codes.items()):
            if k in env:
                rep.count('return codes')
                if env[k] != v:
                    rep.bad('constant', B.rel(os.path.join(d, file)), '%s binding: %s is %d, in voikko_defines.h it is %d' % (lang, k, env[k], v), '%s|%s' % (lang, k))
        check_options(rep, lang, ms, env, opts, {})
        check_spell(rep, lang, ms, env, {})
        for en, want in (('TokenType', tok), ('SentenceStartType', sen)):
            for fn, (decl, ts, b) in files.items():
                e = enum_tokens(ts, b, en)
                if e:
                    compare_enum(rep, lang, B.rel(os.path.join(d, fn)), [(a, v) for a, v, i in e], want, en)
                    ids = [(a, i) for a, v, i in e if i is not None]
                    if len(ids) == len(e):
                        compare_enum(rep, lang, B.rel(os.path.join(d, fn)), ids, want, en + ' id')
        ctors = {}
        for x in ms:
            if x.name == x.cls and x.cls in ('Dictionary', 'VoikkoDictionary', 'GrammarError') and len(x.params) > len(ctors.get(x.cls, ())):
                ctors[x.cls] = x.params
        check_wiring(rep, lang, ms, ctors, {})
    # JavaScript
    ms, (wraps, ts, b) = L['JavaScript']
    rep.need(len(wraps), 10, 'cwrap declarations')
    aliases = {k: v[0] for k, v in wraps.items()}
    for al, (name, ret, params, line) in sorted(wraps.items()):
        signature(rep, api, 'JavaScript', '%s:%d' % (B.rel(B.JS), line), name, ret, params, JST, {'number'})
        if name in B.RELEASE and ret == 'string':
            rep.bad('signature', '%s:%d' % (B.rel(B.JS), line), 'JavaScript binding: the result of %s is converted to a string, so that the pointer to release is lost' % name, 'JavaScript|%s|conv' % name)
    for x in ms:
        for e in exprs(x.body):
            for rc, cn, a, _, _ in B.calls(e):
                if cn in aliases and aliases[cn] in api:
                    rep.count('native call sites')
                    if len(a) != len(api[aliases[cn]][1]):
                        rep.bad('signature', x.where(), 'JavaScript binding calls %s with %d arguments, it takes %d' % (aliases[cn], len(a), len(api[aliases[cn]][1])), 'JavaScript|%s|callargs' % cn)
    check_options(rep, 'JavaScript', ms, tok_env(ts), opts, aliases)
    check_spell(rep, 'JavaScript', ms, tok_env(ts), aliases)
    for i, (x, line) in enumerate(ts):
        if x == '[' and i in b.m:
            el = [y[0].strip('"\'') for y in ts[i + 1:b.m[i]] if y[0] != ',']
            for want, what in ((tok, 'token types'), (sen, 'sentence types')):
                if len(set(el) & {c.split('_', 1)[1] for c in want}) >= 3:
                    compare_enum(rep, 'JavaScript', '%s:%d' % (B.rel(B.JS), line), list(zip(el, range(len(el)))), want, what)
    check_js_literals(rep, ms, ts, b, aliases)
    # Common Lisp
    n = 0
    cenv = {}
    for fn in sorted(os.listdir(B.CL)):
        if not fn.endswith('.lisp'):
            continue
        forms = B.lisp_read(os.path.join(B.CL, fn))
        for x in B.lisp_walk(forms):
            if len(x) > 1 and isinstance(x[0], str) and x[0].endswith('foreign-funcall') and isinstance(x[1], str) and x[1].startswith('"'):
                name = x[1].strip('"')
                rest = x[2:]
                n += 1
                signature(rep, api, 'Common Lisp', '%s:%d' % (B.rel(os.path.join(B.CL, fn)), x.line), name, rest[-1] if len(rest) % 2 else ':void', [rest[i] for i in range(0, len(rest) - 1, 2)], CLT, {':pointer'})
                if name in B.RELEASE and rest[-1] == ':string' and len(rest) % 2:
                    rep.bad('signature', '%s:%d' % (B.rel(os.path.join(B.CL, fn)), x.line), 'Common Lisp binding: the result of %s is converted to a string, so that the pointer to release is lost' % name, 'CL|%s|conv' % name)
            if len(x) == 3 and x[0] == 'defconstant' and isinstance(x[2], str) and re.match(r'^\d+$', x[2]):
                k = x[1].strip('+').replace('-', '_').upper()
                if k in codes:
                    rep.count('return codes')
                    if codes[k] != int(x[2]):
                        rep.bad('constant', '%s:%d' % (B.rel(os.path.join(B.CL, fn)), x.line), 'Common Lisp binding: %s is %s, in voikko_defines.h it is %d' % (x[1], x[2], codes[k]), 'CL|' + k)
            if len(x) == 3 and isinstance(x[0], str) and x[0].startswith(':') and x[1] == '.' and isinstance(x[2], str) and re.match(r'^\d+$', x[2]):
                cenv[x[0][1:].replace('-', '').upper()] = (int(x[2]), '%s:%d' % (B.rel(os.path.join(B.CL, fn)), x.line))
    rep.need(n, 10, 'Common Lisp foreign calls')
    for name, num, kind, default in opts:
        k = re.sub(r'[^A-Z0-9]', '', re.sub(r'^VOIKKO_(OPT_)?', '', name))
        if k in cenv:
            rep.count('option methods')
            if cenv[k][0] != num:
                rep.bad('option-number', cenv[k][1], 'Common Lisp binding: %s has number %d, in voikko_defines.h it is %d' % (name, cenv[k][0], num), 'CL|%s' % name)


def check_js_literals(rep, ms, ts, b, aliases):
    for m in ms:
        of = origins(m, aliases)
        i, e = m.span
        for k in range(i, e - 2):
            mo = re.match(r'^["\'](\w+)["\']$', ts[k][0])
            if mo and ts[k + 1][0] == ':' and ts[k + 2][0] != 'function':
                j = k + 2
                while j < e and ts[j][0] not in (',', '}'):
                    j = b.m[j] + 1 if ts[j][0] in '([{' and j in b.m else j + 1
                src = of(B.join(ts[k + 2:j]))
                want = meaning(mo.group(1))
                for s in src:
                    rep.count('result fields')
                    if want and ORIGIN[s] != want:
                        rep.bad('wiring', '%s:%d' % (B.rel(B.JS), ts[k][1]), 'JavaScript binding: %s is filled from %s' % (mo.group(1), s), 'JavaScript|%s' % mo.group(1))
