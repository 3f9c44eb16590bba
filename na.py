def p(id, title, statement, over, text, why, files, mech):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}


NOT_APPLICABLE = [
    {'prop': p('N01', 'Spelling verdicts are linguistically correct',
               'Every correctly spelled word of the dictionary language is accepted and every misspelled one is rejected.',
               ['inputs'], 'all words of the language', 'Tests sample a word list; the language is infinite.',
               ['voikko-fi', 'libvoikko/src/spellchecker'], [('lexicon and transducer traversal', 'voikko-fi/vvfst')]),
     'reason': 'The verdict is defined by the compiled lexicon (data), so it quantifies over the runtime content of a transducer; no static argument over the C++ source bounds it.'},
    {'prop': p('N03', 'The best suggestions come first',
               'Suggestions are ordered from the most to the least probable correction, and every suggestion offered is itself accepted by the speller.',
               ['inputs'], 'all misspelled words', 'Ranking is sampled by a handful of tests.',
               ['libvoikko/src/spellchecker/suggestion'], [('suggestion strategies and priorities', 'libvoikko/src/spellchecker/suggestion')]),
     'reason': 'Ordering by runtime priorities of dynamically generated candidates is a numeric property of run-time values.'},
]
