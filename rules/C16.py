"""No function of the library writes behind the end of a block of memory it allocated.

Rule: for every write through a pointer or subscript and every copying library call, the index (a linear form over parameters, text lengths,
container sizes and loop counters) is compared with the size of the block the pointer was given; obligations about parameters are decided at the callers.
An obligation is violated when the constraints of the path allow, for values that the caller of the library controls or on every execution of the path, an index that is not less than the size.
"""
from vlib.zone import Zone, name

RULE = 'abstract interpretation with linear constraints over block sizes, text lengths and loop counters; obligations on parameters carried to the call sites'
ASSUMPTIONS = ['texts given to the library are terminated or have the length that is given with them', 'int and size_t arithmetic on lengths does not overflow']

PROP = {
    'id': 'C16', 'title': 'Memory blocks are large enough for what is written',
    'statement': 'Whatever the length and content of the texts it is given, the library never writes behind the end of a block of memory it has allocated for a copy or a result: '
                 'buffers for copied, converted, normalised, hyphenated and suggested words have room for every character that can be written to them and for the terminating null character, '
                 'and arrays of results have room for every element and the terminating null pointer.',
    'quantifier': {'over': ['inputs'], 'text': 'all texts and lengths, all numbers of results'},
    'why_tests_cant': 'Writing one element behind a block is usually without consequence, because blocks are rounded up; the inputs for which a buffer becomes too small are rare ones (a word of only soft hyphens or ligatures, the longest word, one element more).',
    'anchors': {'files': ['libvoikko/src/utils/StringUtils.cpp', 'libvoikko/src/character/charset.cpp', 'libvoikko/src/spellchecker/suggestions.cpp', 'libvoikko/src/spellchecker/spell.cpp', 'libvoikko/src/spellchecker/suggestion',
                          'libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp', 'libvoikko/src/morphology', 'libvoikko/src/grammar', 'libvoikko/src/compatibility/interface.cpp', 'libvoikko/src/setup/interface.cpp'],
                'mechanism': [{'name': 'buffers', 'where': 'libvoikko/src'}],
                'observe_at': ['every exported function that returns or copies text']}}


def run(m, rep, tier):
    z = Zone(m)
    n = 0
    for f in list(m.fns.values()):
        if f.file.startswith('tools/') or 'hfst/' in f.file:
            continue
        n += 1
        try:
            s = z.analyse(f)
        except RecursionError:
            rep.note('not analysed (recursion): %s' % f.q)
            continue
        if s is not None and s.fail:
            rep.note('not analysed: %s: %s' % (f.q, s.fail))
    rep.count('functions', n)
    for (k, i), (v, w) in sorted(z.results.items(), key=lambda p: (p[0][0], p[0][1])):
        f = m.fns[k]
        rep.count('writes_' + v)
        if v in ('proved', 'passed'):
            rep.sample(v, '%s %s' % (f.where(f.nodes[i]), w or ''))
        elif v in ('undecided', 'unknown'):
            rep.note('%s: %s %s' % (v, f.where(f.nodes[i]), w or ''))
    for site, f, i, T, w, what, chain in z.viol:
        g, j = site
        wit = 'on every execution of this path' if w == {'always': True} else 'for example ' + ', '.join('%s = %s' % (a if isinstance(a, str) else name(a), v) for a, v in w.items())
        rep.bad('overflow', g.where(g.nodes[j]), '%s: index - size + 1 = %r can be positive, %s%s' % (what, T, wit, '' if not chain else '; called from ' + ' <- '.join(str(m.fns[c[0]].q if c[0] in m.fns else c[0]) for c in chain)), '%s|%s|%s' % (g.q, what, f.q))
    rep.need(sum(rep.cov.get('writes_' + v, 0) for v in ('proved', 'passed')), 60, 'bounded writes')
