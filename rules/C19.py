"""Texts that are given with a length are not read beyond it; reads in blocks stay within the block.

Rule: every read through a pointer or subscript, every scan for a terminator and every library call that reads a number of characters gives an obligation
index < size.  The size of a text parameter of an exported function is the length given with it, or the length of the text and its terminator when no length is given.
Obligations about parameters of internal functions are carried to the callers.  A scan for the terminator of a text that is given with a length is a violation: there need not be one.
"""
from vlib.zone import Zone, READS, name

RULE = 'abstract interpretation with linear constraints over text lengths, block sizes and loop counters; obligations on parameters carried to the exported functions'
ASSUMPTIONS = ['texts without a length parameter are terminated', 'int and size_t arithmetic on lengths does not overflow']

PROP = {
    'id': 'C19', 'title': 'Texts given with a length are not read beyond it',
    'statement': 'The functions that take a text and its length (finding the next token, the next sentence and the next grammar error) read no character behind that length, whatever the text ends with: '
                 'the text need not be terminated, and what follows it in memory never influences the result. The same holds for the words inside such a text that are passed on to spell checking and analysis. '
                 'Terminated texts are not read behind their terminator.',
    'quantifier': {'over': ['inputs'], 'text': 'all texts, all lengths, all positions of words and punctuation at the end of the text'},
    'why_tests_cant': 'Test texts are string literals or buffers with a terminator, which stops most over-reads or makes them harmless; only a text that ends with the right character at the end of a buffer shows them.',
    'anchors': {'files': ['libvoikko/src/tokenizer/Tokenizer.cpp', 'libvoikko/src/sentence/Sentence.cpp', 'libvoikko/src/grammar/GrammarChecker.cpp', 'libvoikko/src/grammar/FinnishAnalysis.cpp', 'libvoikko/src/spellchecker/VfstSpeller.cpp',
                          'libvoikko/src/spellchecker/AnalyzerToSpellerAdapter.cpp', 'libvoikko/src/morphology', 'libvoikko/src/utils/StringUtils.cpp'],
                'mechanism': [{'name': 'text and length parameters', 'where': 'libvoikko/src'}],
                'observe_at': ['voikkoNextTokenUcs4', 'voikkoNextSentenceStartUcs4', 'voikkoNextGrammarErrorUcs4', 'the Cstr variants of these']}}


def run(m, rep, tier):
    z = Zone(m, reads=True)
    n = 0
    for f in list(m.fns.values()):
        if f.file.startswith('tools/') or 'hfst/' in f.file:
            continue
        n += 1
        try:
            s = z.analyse(f)
        except RecursionError:
            rep.note('not analysed (recursion): %s' % f.q)
            continue
        if s is not None and s.fail:
            rep.note('not analysed: %s: %s' % (f.q, s.fail))
    rep.count('functions', n)
    for (k, i), (v, w) in sorted(z.results.items(), key=lambda p: (p[0][0], p[0][1])):
        f = m.fns[k]
        rep.count('accesses_' + v)
        if v in ('proved', 'passed'):
            rep.sample(v, '%s %s' % (f.where(f.nodes[i]), w or ''))
        elif v in ('undecided', 'unknown'):
            rep.note('%s: %s %s' % (v, f.where(f.nodes[i]), w or ''))
    for site, f, i, T, w, what, chain in z.viol:
        if what not in READS:
            continue
        g, j = site
        wit = 'on every execution of this path' if w == {'always': True} else 'for example ' + ', '.join('%s = %s' % (a if isinstance(a, str) else name(a), v) for a, v in w.items())
        rep.bad('over-read', g.where(g.nodes[j]), '%s: index - size + 1 = %r can be positive, %s%s' % (what, T, wit, '' if not chain else '; called from ' + ' <- '.join(str(m.fns[c[0]].q if c[0] in m.fns else c[0]) for c in chain)), '%s|%s|%s' % (g.q, what, f.q))
    rep.need(sum(rep.cov.get('accesses_' + v, 0) for v in ('proved', 'passed')), 100, 'bounded accesses')
