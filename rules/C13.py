"""The UTF-8 functions of the C interface are the wide-character functions on the decoded text.

Provenance of results, path by path (vlib/prov.py), for every exported pair ...Cstr / ...Ucs4 and for every function of the deprecated interface:
Rule 1: the wide function is called with the decoded whole text, its length in characters, and the other arguments unchanged; what it
returns (and stores through its arguments) is what the UTF-8 function returns, element by element and in order for arrays of texts.
Rule 2: a path that does not call it returns the documented failure value, and only because the text is null or empty, is not valid UTF-8, or
has more characters than the documented limit. No other input is treated specially.
Rule 3: when only the beginning of a text is decoded, the result is used only if it ends before the end of the decoded part.
Rule 4: the conversions decode only validated bytes, one character each, in order, and terminate the result; encoding likewise.
Rule 5: a function of the deprecated interface returns what its successor returns for the same arguments.
"""
import re
from rules import common as C
from vlib.model import AnalysisError
from vlib.prov import Prov, show, unknown
from vlib.sym import subterms

RULE = 'provenance of arguments and results along every path of the UTF-8 and the deprecated functions (loops unrolled up to 20 rounds): same call, decoded text, unchanged arguments, unchanged result; exceptions only for null, empty, malformed or too long text'
ASSUMPTIONS = ['texts contain no NUL character', 'memory allocation does not fail', 'the bundled utf8 library (libvoikko/src/utf8) validates and decodes correctly']

PROP = {
    'id': 'C13', 'title': 'UTF-8 functions give the same answers as wide-character functions',
    'statement': 'For every valid UTF-8 text (words up to the documented 255 characters) the byte-string function of an operation (spelling, suggestions, hyphenation, analysis, tokens, sentences, grammar errors) gives the result that the wide-character function gives for the '
                 'decoded text: same verdict, same lengths and positions (in characters), same suggestions in the same order, whatever the length of the text in bytes. Malformed UTF-8 anywhere in the decoded text is reported with the '
                 'documented failure value (VOIKKO_CHARSET_CONVERSION_FAILED for spelling, a null or empty result otherwise); no other text is treated specially. The functions of the deprecated interface give what their successors give.',
    'quantifier': {'over': ['inputs'], 'text': 'all byte strings, text lengths and further arguments'},
    'why_tests_cant': 'Tests call mostly one of the two families, with short texts; long tokens, long non-ASCII words and malformed bytes in long texts are not sampled.',
    'anchors': {'files': ['libvoikko/src/spellchecker/spell.cpp', 'libvoikko/src/spellchecker/suggestions.cpp', 'libvoikko/src/hyphenator/interface.cpp', 'libvoikko/src/morphology/interface.cpp', 'libvoikko/src/tokenizer/interface.cpp',
                          'libvoikko/src/sentence/interface.cpp', 'libvoikko/src/grammar/interface.cpp', 'libvoikko/src/compatibility/interface.cpp', 'libvoikko/src/utils/StringUtils.cpp'],
                'mechanism': [{'name': 'decode, delegate, release', 'where': 'the ...Cstr functions'}, {'name': 'StringUtils::ucs4FromUtf8 / utf8FromUcs4', 'where': 'libvoikko/src/utils/StringUtils.cpp'}],
                'observe_at': ['voikkoSpellCstr', 'voikkoSuggestCstr', 'voikkoHyphenateCstr', 'voikkoAnalyzeWordCstr', 'voikkoNextTokenCstr', 'voikkoNextSentenceStartCstr', 'voikkoNextGrammarErrorCstr']}}

LIMIT = 255
MARGIN = 2          # characters that must have been seen after the end of a token that was found in a partly decoded text


def conv_of(t, T, L):
    """(is the decoding of the whole text, bound on the number of characters or None)"""
    if t[0] != 'call' or t[1] != 'ucs4FromUtf8' or not t[2] or t[2][0] != T:
        return None
    a = t[2]
    if len(a) == 1:
        return (L[0] == 'call', None)
    if a[1] != L:
        return (False, None)
    return (True, a[2] if len(a) > 2 and a[2] != L else None)       # there are not more characters than bytes


def run(m, rep, tier):
    exp = {f.name: f for f in m.exported()}

    def inline(g):
        if g.name == 'ucs4FromUtf8' and len(g.params) == 1:
            return True
        if g.name in ('ucs4FromUtf8', 'utf8FromUcs4', 'convertCStringToMalloc', 'convertCStringArrayToMalloc') or g.name in exp:
            return False
        return len(g.blocks) <= 30 and not g.d.get('virtual')

    pr = Deepest([Prov(m, inline, unroll=u) for u in ((20, 7) if tier == 'quick' else (32, 20, 9))])
    pairs = 0
    for n, f in sorted(exp.items()):
        g = None
        if n.endswith('Cstr'):
            g = exp.get(n[:-4] + 'Ucs4')
        elif n.endswith('_cstr') and not deprecated_successor(n, exp):
            g = exp.get(n[:-5] + '_ucs4')
        if g is None or len(f.params) != len(g.params) or 'free' in n.lower():
            continue
        pairs += 1
        check_pair(m, rep, pr, f, g, exp)
    rep.need(pairs, 8, 'pairs of UTF-8 and wide-character functions')
    nd = 0
    for n, f in sorted(exp.items()):
        s = deprecated_successor(n, exp)
        if s:
            nd += 1
            check_deprecated(m, rep, pr, f, s, exp)
    rep.need(nd, 10, 'deprecated functions with a successor')
    check_struct(m, rep, pr, exp)
    check_conversions(m, rep, tier)
    rep.cov['paths cut'] = pr.cut


class Deepest:
    """the deepest unrolling whose paths are enumerated completely"""

    def __init__(self, ps):
        self.ps = ps
        self.cut = 0

    def run(self, f):
        for p in self.ps:
            p.cut = 0
            r = p.run(f)
            if not p.cut:
                return r
        self.cut += 1
        return r

    def __getattr__(self, n):
        return getattr(self.ps[-1], n)


SPECIAL = {'voikko_set_bool_option': 'voikkoSetBooleanOption', 'voikko_set_int_option': 'voikkoSetIntegerOption'}


def deprecated_successor(n, exp):
    if not n.startswith('voikko_') or 'free' in n or n in ('voikko_init', 'voikko_init_with_path', 'voikko_terminate', 'voikko_next_grammar_error_ucs4', 'voikko_next_grammar_error_cstr'):
        return None
    if n in SPECIAL:
        return exp.get(SPECIAL[n])
    s = 'voikko' + ''.join(x.capitalize() for x in n.split('_')[1:])
    return exp.get(s)


def is_text(t, wide):
    t = t.replace('const ', '', 1).strip() if t.startswith('const ') else None
    return t is not None and t.replace(' ', '') == ('wchar_t*' if wide else 'char*')


def failure(f, reason):
    """documented value for a text that is not processed"""
    if f.name == 'voikkoSpellCstr':
        return {'malformed': 3, 'null': 1, 'empty': 1, 'long': 0}[reason]
    return 0


def check_pair(m, rep, pr, f, g, exp):
    tp = None
    lenp = None
    for k in range(len(f.params)):
        a, b = f.vars[f.params[k]]['t'], g.vars[g.params[k]]['t']
        if is_text(a, False) and is_text(b, True):
            tp = k
            if k + 1 < len(f.params) and f.vars[f.params[k + 1]]['t'].replace('const ', '') in ('size_t', 'unsigned long'):
                lenp = k + 1
    T = ('p', tp) if tp is not None else None
    L = ('p', lenp) if lenp is not None else ('call', 'strlen', (T,), 0)
    rep.count('utf8_functions')
    rep.sample('pairs', '%s -> %s' % (f.name, g.name), 30)
    for st in pr.run(f):
        rep.count('paths')
        evs = [t for t in st.trace if t[0] == g.name]
        last = None
        for name, args, res, callee, where in evs:
            rep.count('delegations')
            last = res
            ok = len(args) == len(g.params)
            for k in range(len(args)):
                if unknown(args[k]):
                    rep.note('%s: argument %d of %s not resolved' % (f.name, k + 1, g.name))
                elif k == tp:
                    c = conv_of(args[k], T, L)
                    if c is None or not c[0]:
                        if args[k] == ('c', 0) and all(x == ('c', 0) for x in args[1:]):
                            ok = True       # "nothing" result of the struct-returning functions
                            break
                        rep.bad('text', where, '%s passes %s to %s instead of its whole decoded text' % (f.name, show(args[k]), g.name), '%s|text' % f.name)
                elif k == lenp:
                    if args[k] != ('call', 'wcslen', (args[tp],), 0):
                        rep.bad('length', where, '%s passes %s to %s as the length of the text, which is not its number of characters' % (f.name, show(args[k]), g.name), '%s|len' % f.name)
                elif args[k] != ('p', k) and not (k == 0 and mentions(args[k], ('p', 0))):
                    rep.bad('argument', where, '%s passes %s to %s in place of its own argument %d' % (f.name, show(args[k]), g.name, k + 1), '%s|arg%d' % (f.name, k))
        # the decoded text is passed before it is released
        reason = why_not(st, T, L, f)
        if evs and not (tp is not None and evs[-1][1][tp] == ('c', 0)):
            check_result(m, rep, st, f, g, last, evs, tp)
            if tp is not None:
                c = conv_of(evs[-1][1][tp], T, L)
                if c and c[1] is not None:
                    check_prefix(rep, st, f, g, last, c[1], evs[-1])
        elif tp is None:
            rep.bad('shortcut', f.where(), '%s returns %s without consulting %s' % (f.name, show(st.ret) if st.ret else 'nothing', g.name), '%s|none' % f.name)
        else:
            if reason is None and any(unknown(x) for a in st.facts for x in a[1:]):
                rep.note('%s: condition of a path that does not call %s not resolved' % (f.name, g.name))
                continue
            if reason is None:
                # the result of a former call after a failed retry
                rep.bad('shortcut', f.where(), '%s returns %s without consulting %s, although the text is neither null, empty, malformed nor too long (%s)' % (
                    f.name, show(st.ret) if st.ret else 'nothing', g.name, facts_text(st)), '%s|shortcut' % f.name)
                continue
            want = failure(f, reason)
            rep.count('failure_paths')
            if evs:
                r = last            # struct result of the "nothing" call
                if st.ret != r:
                    rep.bad('failure-value', f.where(), '%s does not return the empty result for a text that is %s' % (f.name, reason), '%s|%s' % (f.name, reason))
            elif st.ret != ('c', want) and st.ret is not None and st.ret[0] == 'c':
                rep.bad('failure-value', f.where(), '%s returns %s for a text that is %s, documented is %d' % (f.name, show(st.ret), reason, want), '%s|%s' % (f.name, reason))
            elif st.ret is not None and st.ret[0] in ('new', 's', 'p'):
                rep.bad('failure-value', f.where(), '%s returns a result for a text that is %s, documented is none' % (f.name, reason), '%s|%s' % (f.name, reason))
            elif st.ret is not None and st.ret[0] != 'c':
                rep.note('%s: value returned for %s text not resolved' % (f.name, reason))


def mentions(t, x):
    return any(y == x for y in subterms(t)) if t[0] != 'call' else x in t[2] or any(mentions(a, x) for a in t[2])


def facts_text(st):
    return '; '.join('%s %s %s' % (show(a[1]), a[0] if v else ('!=' if a[0] == '==' else '>='), show(a[2])) for a, v in list(st.facts.items())[-4:])


def zero(st, t):
    for a in (('==', ('c', 0), t), ('==', t, ('c', 0))):
        if st.facts.get(a) is True:
            return True
    return False


def why_not(st, T, L, f):
    if T is None:
        return None
    if zero(st, T):
        return 'null'
    if zero(st, ('[]', T, ('c', 0))) or zero(st, L):
        return 'empty'
    convs = [t[2] for t in st.trace if t[0] == 'ucs4FromUtf8' and t[1] and t[1][0] == T]
    for c in convs:
        r = conv_of(c, T, L)
        if r and r[0] and zero(st, c):
            return 'malformed'
    for (op, a, b), v in st.facts.items():
        if op == '<' and a[0] == 'c' and b[0] == 'call' and b[1] == 'wcslen' and b[2][0] in convs and v and a[1] >= LIMIT:
            return 'long'
        if op == '<' and b[0] == 'c' and a[0] == 'call' and a[1] == 'wcslen' and a[2][0] in convs and not v and b[1] > LIMIT:
            return 'long'
        if op == '==' and v and ('c', 0) in (a, b):
            x = b if a == ('c', 0) else a
            if x[0] == 'call' and x[1] == 'wcslen' and x[2][0] in convs:
                return 'empty'
    return None


def check_result(m, rep, st, f, g, last, evs, tp):
    ret = st.ret
    rep.count('result_paths')
    if ret == last:
        pass
    elif ret == ('c', 0) and zero(st, last):
        pass
    elif ret is not None and ret[0] == 'call' and ret[1] == 'utf8FromUcs4' and ret[2] == (last,):
        pass
    elif ret is not None and (ret[0] == 'new' or ret == ('c', 0)) and g.d.get('ret', '').replace(' ', '') == 'wchar_t**':
        check_array(rep, st, f, last, ret)
    elif ret is not None and ret[0] in ('c', 'call', 'p', 'fld', '+', '*', 'cmp', 'not', '[]', 's'):
        # spelled out: the same constant that the wide function was found to return
        if ret[0] == 'c' and any(v and op == '==' and last in (a, b) and ret in (a, b) for (op, a, b), v in st.facts.items()):
            pass
        elif ret[0] == 'c' and retried(st, evs, tp):
            pass
        else:
            rep.bad('result', f.where(), '%s returns %s although %s returned something else for the decoded text (%s)' % (f.name, show(ret), g.name, facts_text(st)), '%s|result' % f.name)
    else:
        rep.note('%s: origin of the result not resolved' % f.name)
    # what the wide function stored through its arguments is not changed afterwards
    ev = evs[-1]
    for k, a in enumerate(ev[1]):
        t = f.vars[f.params[k]]['t'].replace(' ', '') if k < len(f.params) else ''
        if a[0] == 'p' and k and t.endswith('*') and not t.startswith('const') and 'Handle' not in t:
            v = st.mem.get(('[]', a, ('c', 0)))
            rep.count('stored_results')
            if v != ('out', ev[2], k) and not retried(st, evs, tp):
                rep.bad('stored-result', f.where(), '%s stores %s through its argument %d, not what %s stored there' % (f.name, show(v) if v else 'nothing', k + 1, g.name), '%s|out%d' % (f.name, k))


def retried(st, evs, tp):
    """a longer part of the text was decoded after the last call and turned out to be malformed"""
    cs = [t[2] for t in st.trace if t[0] == 'ucs4FromUtf8']
    return bool(cs) and tp is not None and cs[-1] != evs[-1][1][tp] and zero(st, cs[-1])


def check_prefix(rep, st, f, g, last, bound, ev):
    """only a prefix of at most `bound` characters was decoded"""
    rep.count('partly_decoded')
    if zero(st, last) or retried(st, [ev], [k for k, a in enumerate(ev[1]) if a[0] == 'call' and a[1] == 'ucs4FromUtf8'][0]):
        return
    outs = [('out', ev[2], k) for k, a in enumerate(ev[1]) if a[0] == 'p' and k]
    best = None
    for (op, a, b), v in st.facts.items():
        if op != '<':
            continue
        for x, y, strict in ((a, b, True),) if v else ((b, a, False),):
            # x < y  or  x <= y
            parts = x[1] if x[0] == '+' else (x,)
            o = [p for p in parts if p in outs]
            c = sum(p[1] for p in parts if p[0] == 'c')
            rest = [p for p in parts if p not in outs and p[0] != 'c']
            bparts = y[1] if y[0] == '+' else (y,)
            if o and not rest:
                if y == bound:
                    d = 0
                elif y[0] == 'c' and bound[0] == 'c':
                    d = bound[1] - y[1]
                elif y[0] == '+' and bound in bparts and all(p == bound or p[0] == 'c' for p in bparts):
                    d = -sum(p[1] for p in bparts if p[0] == 'c')
                else:
                    continue
                mg = c + d + (1 if strict else 0)
                best = mg if best is None else max(best, mg)
    if best is None or best < MARGIN:
        rep.bad('prefix', ev[4], '%s uses a result of %s for the first %s characters of the text %s: it can be cut off or changed by the end of the decoded part' % (
            f.name, g.name, show(bound), 'without testing where it ends' if best is None else 'that ends up to %d character(s) before their end' % max(best, 0)), '%s|prefix' % f.name)


def check_array(rep, st, f, last, ret):
    """ret[k] = encoding of the k-th element of `last` that can be encoded, then null"""
    rep.count('result_arrays')
    n = None
    for i in range(8):
        z = [st.facts.get(a) for a in (('==', ('[]', last, ('c', i)), ('c', 0)), ('==', ('c', 0), ('[]', last, ('c', i))))]
        if True in z:
            n = i
            break
        if False not in z:
            break
    if n is None:
        rep.note('%s: number of elements not resolved' % f.name)
        return
    encs = {}
    for t in st.trace:
        if t[0] == 'utf8FromUcs4' and t[1] and t[1][0][0] == '[]' and t[1][0][1] == last and t[1][0][2][0] == 'c':
            encs[t[1][0][2][1]] = t[2]
    want = []
    for i in range(n):
        if i not in encs:
            rep.bad('suggestion-lost', f.where(), '%s does not encode element %d of %d that the wide-character function returned' % (f.name, i + 1, n), '%s|lost' % f.name)
            return
        if not zero(st, encs[i]):
            want.append(encs[i])
    if ret == ('c', 0):
        if want:
            rep.bad('suggestion-lost', f.where(), '%s returns nothing although %d element(s) were encoded' % (f.name, len(want)), '%s|dropped' % f.name)
        return
    got = {l[2]: v for l, v in st.mem.items() if l[0] == '[]' and l[1] == ret}
    if any(k[0] != 'c' for k in got):
        rep.note('%s: stores with unknown index' % f.name)
        return
    for k, w in enumerate(want):
        v = got.get(('c', k))
        if v != w:
            rep.bad('suggestion-order', f.where(), '%s returns %s as element %d where the wide-character function gives %s' % (f.name, show(v) if v else 'nothing', k + 1, show(w[2][0])), '%s|order' % f.name)
            return
    if got.get(('c', len(want))) != ('c', 0):
        rep.bad('suggestion-order', f.where(), '%s does not end the array after its last element' % f.name, '%s|end' % f.name)


def check_deprecated(m, rep, pr, f, s, exp):
    rep.count('deprecated_functions')
    rep.sample('deprecated', '%s -> %s' % (f.name, s.name), 30)
    for st in pr.run(f):
        rep.count('paths')
        evs = [t for t in st.trace if t[0] == s.name]
        if not evs:
            if f.name == 'voikko_set_int_option' and any(op == '==' and v and ('p', 1) in (a, b) and ('c', 5) in (a, b) for (op, a, b), v in st.facts.items()) and st.ret == ('c', 1):
                continue
            rep.bad('deprecated', f.where(), '%s returns %s without calling %s (%s)' % (f.name, show(st.ret) if st.ret else 'nothing', s.name, facts_text(st)), '%s|none' % f.name)
            continue
        name, args, res, callee, where = evs[-1]
        for k, a in enumerate(args):
            if k == 0:
                if not mentions(a, ('p', 0)) and not unknown(a):
                    rep.bad('deprecated', where, '%s does not use the handle it was given' % f.name, '%s|handle' % f.name)
            elif a != ('p', k) and not unknown(a):
                rep.bad('deprecated', where, '%s passes %s to %s in place of its own argument %d' % (f.name, show(a), s.name, k + 1), '%s|arg%d' % (f.name, k))
        r = st.ret
        if r == res or r == ('c', 0) and zero(st, res):
            continue
        if r is not None and r[0] == 'out' and r[1][1].startswith('convertCString') and r[1][2] and r[1][2][0] == res:
            continue
        if r is not None and unknown(r):
            rep.note('%s: origin of the result not resolved' % f.name)
            continue
        rep.bad('deprecated', f.where(), '%s returns %s, not the result of %s' % (f.name, show(r) if r else 'nothing', s.name), '%s|result' % f.name)


FIELDS = {'error_code': 'voikkoGetGrammarErrorCode', 'startpos': 'voikkoGetGrammarErrorStartPos', 'errorlen': 'voikkoGetGrammarErrorLength'}


def check_struct(m, rep, pr, exp):
    f = exp.get('voikko_next_grammar_error_ucs4')
    g = exp.get('voikkoNextGrammarErrorUcs4')
    if f is None or g is None:
        return
    for st in pr.run(f):
        rep.count('paths')
        evs = [t for t in st.trace if t[0] == g.name]
        if not evs:
            rep.bad('deprecated', f.where(), '%s returns without calling %s' % (f.name, g.name), '%s|none' % f.name)
            continue
        args, res = evs[-1][1], evs[-1][2]
        for k, a in enumerate(args):
            if k and a != ('p', k) and not unknown(a):
                rep.bad('deprecated', evs[-1][4], '%s passes %s to %s in place of its own argument %d' % (f.name, show(a), g.name, k + 1), '%s|arg%d' % (f.name, k))
        flds = {l[2].split('::')[-1]: v for l, v in st.mem.items() if l[0] == 'fld' and l[1] == st.ret}
        for n, acc in FIELDS.items():
            v = flds.get(n)
            want = ('c', 0) if zero(st, res) else ('call', acc, (res,), 0)
            rep.count('struct_fields')
            if v is None and not flds:
                rep.note('%s: fields of the result not resolved' % f.name)
                break
            if v != want and (v is None or v[0] in ('c', 'call', 'p', 'x')):
                rep.bad('deprecated', f.where(), '%s: %s of the result is %s, expected %s' % (f.name, n, show(v) if v and v[0] != 'x' else 'not set', show(want)), '%s|%s' % (f.name, n))


def check_conversions(m, rep, tier):
    fs = [f for f in m.fns.values() if f.name in ('ucs4FromUtf8', 'utf8FromUcs4') and f.cls and f.cls.endswith('StringUtils')]
    rep.need(len(fs), 4, 'conversion functions')

    def inline(g):
        return len(g.blocks) <= 30 and g.file.startswith('utils/')
    pr = Prov(m, inline, unroll=4)
    for f in fs:
        if f.name == 'ucs4FromUtf8':
            check_decode(rep, pr, f)
        elif len(f.params) <= 2:
            check_encode(rep, pr, f)


def strlen_of(p):
    return ('call', 'strlen', (p,), 0)


def check_decode(rep, pr, f):
    from vlib.sym import norm
    P = ('p', 0)
    n = len(f.params)
    L = ('p', 1) if n > 1 else strlen_of(P)
    end = norm('+', P, L)
    done = 0
    for st in pr.run(f):
        if st.ret is None or st.ret[0] != 'new':
            continue
        done += 1
        rep.count('conversion_paths')
        checked = []
        decoded = []
        valid_all = False
        for name, args, res, callee, where in st.trace:
            if name == 'distance' and 'unchecked' not in callee:
                if args == (P, end):
                    valid_all = True
                elif args and args[0] == P:
                    rep.bad('validation', where, '%s validates %s, not the whole text' % (f.q, show(args[1])), f.q + '|range%d' % n)
                    valid_all = True
            elif name == 'next' and 'unchecked' not in callee:
                checked.append(res)
                if valid_all is False and any(x[0] == P for x in [args]) is None:
                    pass
                decoded.append((args, res, True, where))
            elif name == 'next':
                decoded.append((args, res, False, where))
        unck = [d for d in decoded if not d[2]]
        use = unck or decoded
        if unck and not valid_all and len(checked) < len(unck):
            rep.bad('validation', unck[0][3], '%s decodes bytes that have not been validated' % f.q, f.q + '|unchecked%d' % n)
        # chain and placement
        got = {l[2]: v for l, v in st.mem.items() if l[0] == '[]' and l[1] == st.ret}
        for k, (args, res, c, where) in enumerate(use):
            want = P if k == 0 else ('out', use[k - 1][1], 0)
            if unknown(args[0]):
                break
            if args[0] != want:
                rep.bad('conversion', where, '%s does not decode the characters one after the other from the start' % f.q, f.q + '|chain%d' % n)
                break
            if got.get(('c', k)) != res:
                rep.bad('conversion', where, '%s does not store character %d at position %d' % (f.q, k, k), f.q + '|place%d' % n)
                break
        term = [i for i, v in got.items() if v == ('c', 0)]
        k = len(use)
        ok = False
        for i in term:
            if i == ('c', k):
                ok = True
            elif st.facts.get(('<', ('c', k), i)) is False or (k == 0 and zero(st, i)):
                ok = True
        if not ok:
            rep.bad('conversion', f.where(), '%s does not end the result after the last decoded character' % f.q, f.q + '|end%d' % n)
        # room for the terminator
        size = st.ret[2]
        for i in term:
            if size == i or size == norm('+', i, ('c', -1)):
                rep.bad('conversion', f.where(), '%s stores the terminator behind the block it allocated' % f.q, f.q + '|room%d' % n)
    if not done:
        rep.note('%s: no path resolved' % f.q)


def check_encode(rep, pr, f):
    P = ('p', 0)
    n = len(f.params)
    L = ('p', 1) if n > 1 else ('call', 'wcslen', (P,), 0)
    for st in pr.run(f):
        if st.ret is None or st.ret[0] != 'new':
            continue
        rep.count('conversion_paths')
        ap = [t for t in st.trace if t[0] == 'append']
        for k, (name, args, res, callee, where) in enumerate(ap):
            if 'unchecked' in callee:
                rep.bad('validation', where, '%s encodes values that have not been validated' % f.q, f.q + '|unchecked%d' % n)
            if unknown(args[0]):
                break
            if args[0] != ('[]', P, ('c', k)):
                rep.bad('conversion', where, '%s encodes %s as character %d' % (f.q, show(args[0]), k), f.q + '|chain%d' % n)
                break
            if args[1] != (st.ret if k == 0 else ap[k - 1][2]):
                rep.bad('conversion', where, '%s does not append the characters one after the other' % f.q, f.q + '|place%d' % n)
                break
        tail = ap[-1][2] if ap else st.ret
        if st.mem.get(('[]', tail, ('c', 0))) != ('c', 0):
            rep.bad('conversion', f.where(), '%s does not terminate the result' % f.q, f.q + '|end%d' % n)
        k = len(ap)
        if st.facts.get(('<', ('c', k), L)) is not False and not (k == 0 and zero(st, L)):
            if any(op == '<' and L in (a, b) for (op, a, b) in st.facts) or L in [x for a in st.facts for x in a]:
                rep.bad('conversion', f.where(), '%s stops before all characters are encoded (%s)' % (f.q, facts_text(st)), f.q + '|all%d' % n)
        size = st.ret[2]
        parts = size[1] if size[0] == '+' else (size,)
        coef = 0
        for p in parts:
            if p == L:
                coef += 1
            elif p[0] == '*' and L in p[1]:
                c = [x[1] for x in p[1] if x[0] == 'c']
                coef += c[0] if c else 1
        if coef and coef < 4:
            rep.bad('conversion', f.where(), '%s allocates %d byte(s) for each character, UTF-8 needs up to 4' % (f.q, coef), f.q + '|room%d' % n)
