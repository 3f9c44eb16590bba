"""Results that may be absent are tested before they are used.

Rule 1 (path-sensitive, all library functions): the result of a function that returns a fresh block or null - the text conversions above
all, which fail on malformed UTF-8 and on values outside Unicode - is not dereferenced, and not passed to something that accesses it, on
a path where it may be null. A conversion of text that another conversion produced cannot fail and is exempt.
Rule 2: the same for functions that look something up and return null when it is not there (attribute values, cached errors, tokens,
mapped files). Attributes that an analyzer adds to every analysis before it puts it into the list are exempt.
"""
from rules import common as C
from rules.C08 import ownership
from vlib.flow import dominates
from vlib.nullflow import NullFlow

RULE = 'path-sensitive nullness of the results of converting and looking-up functions at every call site'
ASSUMPTIONS = ['memory allocation does not fail',
               'Finnish components run on an analyzer that supplies the attributes every Finnish analysis has (backends in a dictionary fit together)',
               'parameters of exported functions that must not be null by their documentation are not null']

PROP = {
    'id': 'C07', 'title': 'Text that cannot be converted and data that is absent never crash an operation',
    'statement': 'Every operation copes with text that cannot be converted (malformed UTF-8, character values outside Unicode, in words, paragraphs and dictionary files alike), and with analyses that lack an attribute, '
                 'by returning its documented failure or empty result: the absent result of a conversion or lookup is never accessed.',
    'quantifier': {'over': ['inputs'], 'text': 'all byte strings and wide strings given to any operation, dictionary files with malformed text, and words whose analyses lack an attribute that their kind of word need not have'},
    'why_tests_cant': 'Malformed text and attribute combinations are unbounded; the tests use well-formed words of the standard vocabulary.',
    'anchors': {'files': ['libvoikko/src/utils/StringUtils.cpp', 'libvoikko/src/morphology/Analysis.cpp', 'libvoikko/src/fst', 'libvoikko/src/grammar', 'libvoikko/src/spellchecker', 'libvoikko/src/hyphenator'],
                'mechanism': [{'name': 'ucs4FromUtf8 / utf8FromUcs4 return 0', 'where': 'libvoikko/src/utils/StringUtils.cpp'},
                              {'name': 'Analysis::getValue returns 0', 'where': 'libvoikko/src/morphology/Analysis.cpp'}],
                'observe_at': ['all functions of voikko.h']}}


def is_conv(t):
    """text conversion: one character pointer type in, another out"""
    pt = [t.vars[v]['t'].replace('const', '').replace(' ', '') for v in t.params[:1]]
    rt = t.d['ret'].replace('const', '').replace(' ', '')
    return bool(pt) and {pt[0], rt} == {'char*', 'wchar_t*'} and rt


def origin_call(f, i, depth=0):
    """calls that a value stems from (single assignments of locals)"""
    i = f.strip(i)
    nd = f.nodes[i]
    if nd.get('callee') and nd['k'] != 'CXXOperatorCallExpr':
        return [(f, nd)]
    if nd['k'] == 'DeclRefExpr' and nd.get('dk') == 'var' and depth < 3:
        out = []
        for x in f.nodes:
            if x['k'] == 'DeclStmt':
                for d in x['decls']:
                    if d.get('v') == nd['v'] and 'init' in d:
                        out += origin_call(f, d['init'], depth + 1) or [None]
            elif x['k'] == 'BinaryOperator' and x['op'] == '=' and f.var(x['lhs']) == nd['v']:
                out += origin_call(f, x['rhs'], depth + 1) or [None]
        return out
    return []


def well_formed(m, f, call, depth=0):
    """the text converted at this call was itself produced by the opposite conversion, in f or in every caller"""
    ts = m.targets(call)
    if not ts or not all(is_conv(t) for t in ts) or not call.get('args'):
        return False
    return produced(m, f, call['args'][0], is_conv(ts[0]), 0)


def produced(m, f, i, want, depth):
    """want: type that the conversion yields; the text must come from a conversion of that type"""
    v = f.var(i)
    if v is not None and v in f.params:
        k = f.params.index(v)
        sites = [(g, nd) for g in m.fns.values() for nd in g.nodes if nd.get('callee') and f in m.targets(nd)]
        return depth < 3 and bool(sites) and f not in m.exported() and all(len(nd.get('args', ())) > k and produced(m, g, nd['args'][k], want, depth + 1) for g, nd in sites)
    oc = origin_call(f, i)
    if not oc or None in oc:
        return False
    for g, nd in oc:
        ts = m.targets(nd)
        if not ts or not all(is_conv(t) and is_conv(t) != want for t in ts):
            return False
    return True


def guaranteed_keys(m):
    """(type, value) of attribute keys added on every path before an analysis is put into the result list"""
    out = set()
    for f in m.fns.values():
        per = []
        for nd in f.nodes:
            if nd.get('cn') in ('push_back', 'push_front') and nd.get('args') and 'obj' in nd:
                v = f.var(nd['args'][0])
                if v is None or not f.vars[v]['t'].replace('class ', '').endswith('*'):
                    continue
                keys = set()
                for x in f.nodes:
                    if x.get('callee') and 'obj' in x and len(x.get('args', ())) == 2 and f.var(x['obj']) == v and m.targets(x) and key_of(f, x) is not None and dominates(f, x['i'], nd['i']):
                        keys.add(key_of(f, x))
                if keys:
                    per.append(keys)
        if per:
            out |= set.intersection(*per)
    return out


def key_of(f, call):
    """constant enumerator given as first argument"""
    if not call.get('args'):
        return None
    a = f.nodes[f.strip(call['args'][0])]
    c = f.const(call['args'][0])
    t = (call.get('pt') or [''])[0]
    if c is not None and t.endswith('Key'):
        return (t, c)
    return None


def run(m, rep, tier):
    o, found = ownership(m)
    n = 0
    for (kind, _, _), (kind, f, nd, msg) in sorted(found.items()):
        if kind != 'null':
            continue
        call = None
        for x in f.nodes:
            if x.get('callee') and ('%s (line %d)' % (x.get('cn') or 'a call', x['l'])) in msg:
                call = x
                if well_formed(m, f, x):
                    break
        if call is not None and well_formed(m, f, call):
            rep.count('conversions_of_well_formed_text')
            continue
        rep.bad('unchecked-result', f.where(nd), msg, '%s|%s|%s' % (f.q, call.get('cn') if call else '', nd.get('cn') or nd['k']))
    conv = 0
    for f in m.fns.values():
        if f.file.startswith('tools/'):
            continue
        for nd in f.nodes:
            if nd.get('callee') and m.targets(nd) and any('N' in o.summary(t).ret and any(isinstance(r, tuple) and r[0] == 'F' for r in o.summary(t).ret) for t in m.targets(nd)):
                rep.count('calls_returning_block_or_null')
                if any(is_conv(t) for t in m.targets(nd)):
                    conv += 1
    rep.count('text_conversions', conv)
    rep.need(conv, 8, 'text conversions that can fail')
    # lookups
    keys = guaranteed_keys(m)
    rep.count('attributes_every_analysis_has', len(keys))
    nf = NullFlow(m, lambda t: o.summary(t).needs)
    for f in m.fns.values():
        if f.file.startswith('tools/'):
            continue
        for nd in f.nodes:
            if not nd.get('callee'):
                continue
            ts = [t for t in m.targets(nd) if t.d['ret'].rstrip().endswith('*')]
            if not ts:
                continue
            r = set().union(*[o.summary(t).ret for t in ts])
            if 'N' not in r or any(isinstance(x, tuple) and x[0] == 'F' for x in r):
                continue
            k = key_of(f, nd)
            if k in keys:
                rep.count('lookups_always_present')
                continue
            if nd.get('args') and (nd.get('pt') or [''])[0].endswith('Key') and k is None:
                rep.count('lookups_by_listed_key')
                continue
            rep.count('lookups_followed')
            n += 1
            for x, how in nf.run(f, nd['i']):
                rep.bad('unchecked-lookup', f.where(x), 'the result of %s (line %d) may be null here and is %s' % (nd.get('cn'), nd['l'], how), '%s|%s|%s|%s' % (f.q, nd.get('cn'), k, x.get('cn') or x['k']))
    rep.need(n, 15, 'lookups that may find nothing')
