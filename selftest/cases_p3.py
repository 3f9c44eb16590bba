"""Third planter round: C03, C04, C05, C06, C07, C13, C15, C18 from the statements."""
CASES = []
S = 'src/'


def bug(prop, title, *edits):
    CASES.append((prop, 'bug', 'p3: ' + title, list(edits)))


def same(prop, title, *edits):
    CASES.append((prop, 'same', 'p3: ' + title, list(edits)))


UT = S + 'fst/UnweightedTransducer.cpp'
WT = S + 'fst/WeightedTransducer.cpp'
SET = S + 'setup/setup.cpp'
TI = S + 'tokenizer/interface.cpp'
GI = S + 'grammar/interface.cpp'
VS = S + 'spellchecker/VfstSuggestion.cpp'
bug('C03', 'prepare resumes same length', (UT, '''		configuration->stackDepth = 0;
		configuration->flagDepth = 0;
		configuration->inputDepth = 0;
''', '''		configuration->stackDepth = 0;
		configuration->flagDepth = 0;
		if ((size_t)configuration->inputLength != inputLen) {
			configuration->inputDepth = 0;
		}
'''))
bug('C03', 'flags cleared only if used', (UT, '		if (flagDiacriticFeatureCount) {\n			// previous', '		if (flagDiacriticFeatureCount && configuration->flagDepth > 0) {\n			// previous'))
bug('C03', 'half of the flags', (UT, 'memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));', 'memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount);'))
bug('C03', 'up does not restore on epsilon', (UT, 'else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {', 'else if (flagDiacriticFeatureCount && previousInputSymbol > 1) {'))
bug('C03', 'input depth undone late', (UT, 'if (previousInputSymbol >= firstNormalChar) {\n					configuration->inputDepth--;', 'if (previousInputSymbol > firstNormalChar) {\n					configuration->inputDepth--;'))
bug('C03', 'suggestion without prepare', (VS, 'if (acceptor->prepare(acceptorConf, errorModelBuffer, wcslen(errorModelBuffer))) {', 'if (wcslen(errorModelBuffer) == 0 || acceptor->prepare(acceptorConf, errorModelBuffer, wcslen(errorModelBuffer))) {'))
bug('C04', 'early return keeps dot', (S + 'sentence/Sentence.cpp', '		options->ignore_dot = ignore_dot_saved;', '		if (ignore_dot_saved == 1) {\n			options->ignore_dot = ignore_dot_saved;\n		}'))
bug('C04', 'gc', (S + 'grammar/FinnishAnalysis.cpp', '		voikkoOptions->ignore_dot = ignore_dot_saved;', '		voikkoOptions->ignore_dot = (ignore_dot_saved && tt != TOKEN_NONE);'))
bug('C13', 'five becomes zero', (TI, '*tokenlen + 5 < maxChars', '*tokenlen < maxChars'))
bug('C13', 'text cut', (TI, '		maxChars *= 2;\n', '		maxChars *= 2;\n		if (maxChars > 10000) {\n			break;\n		}\n'))
bug('C13', 'gc bytes', (GI, '	size_t wtextlen = wcslen(textUcs4);', '	size_t wtextlen = textlen;'))
bug('C13', 'gc start', (GI, '	                         wtextlen, startpos, skiperrors);', '	                         wtextlen, startpos ? startpos - 1 : 0, skiperrors);'))
bug('C18', 'terminate skips', (SET, '	handle->speller->terminate();\n	delete handle->speller;\n	handle->morAnalyzer', '	delete handle->speller;\n	handle->morAnalyzer'))
bug('C18', 'error message dangling', (SET, '		*error = e.what();', '		*error = string(e.what()).c_str();'))
bug('C18', 'error not reset', (SET, '	*error = 0;\n	return options;', '	return options;'))
bug('C18', 'init leaks hyphenator', (SET, '''		if (options->hyphenator) {
			options->hyphenator->terminate();
			delete options->hyphenator;
			options->hyphenator = 0;
		}
		if (options->suggestionGenerator) {''', '''		if (options->suggestionGenerator) {'''))
bug('C18', 'init order', (SET, '			options->speller->terminate();\n			delete options->speller;\n			options->speller = 0;', '			delete options->speller;\n			options->speller = 0;'))
bug('C07', 'gc conversion', (GI, '	if (textUcs4 == 0) {\n		return 0;\n	}\n', ''))
bug('C07', 'token conversion', (TI, '	if (text_ucs4 == 0) {\n		return TOKEN_NONE;\n	}\n', ''))
bug('C07', 'symbol', (UT, '			if (!ucs4Symbol) {\n				throw setup::DictionaryException("Malformed symbol in transducer file");\n			}\n', ''))
bug('C06', 'weights in locale', (S + 'morphology/VfstAnalyzer.cpp', '			ss.imbue(std::locale::classic());\n', ''))
bug('C05', 'static output buffer', (VS, '	map<wstring, int> suggestionWeights;', '	static map<wstring, int> suggestionWeights;\n	suggestionWeights.clear();'))
bug('C03', 'weights kept', (VS, '	map<wstring, int> suggestionWeights;', '	static map<wstring, int> suggestionWeights;'))
bug('C08', 'suggestions lost on abort', (VS, '		s->addSuggestion(sugg.suggestion, sugg.weight);', '		if (!s->shouldAbort()) {\n			s->addSuggestion(sugg.suggestion, sugg.weight);\n		}'))
bug('C17', 'malformed symbol', (UT, 'throw setup::DictionaryException("Malformed symbol in transducer file");', 'throw std::runtime_error("Malformed symbol in transducer file");'), (UT, '#include <cstring>\n', '#include <cstring>\n#include <stdexcept>\n'))
same('C08', 'queue else', (VS, '		s->addSuggestion(sugg.suggestion, sugg.weight);', '		if (s->shouldAbort()) {\n			delete[] sugg.suggestion;\n		}\n		else {\n			s->addSuggestion(sugg.suggestion, sugg.weight);\n		}'))
same('C08', 'queue before pop', (VS, '		queue.pop();\n		s->addSuggestion(sugg.suggestion, sugg.weight);', '		wchar_t * text = sugg.suggestion;\n		queue.pop();\n		s->addSuggestion(text, sugg.weight);'))
same('C08', 'queue pop last', (VS, '		queue.pop();\n		s->addSuggestion(sugg.suggestion, sugg.weight);', '		s->addSuggestion(sugg.suggestion, sugg.weight);\n		queue.pop();'))
SE = S + 'sentence/Sentence.cpp'
D = '	voikko_token_type token = TOKEN_WORD;'
I = (SE, '#include "sentence/Sentence.hpp"', '#include "sentence/Sentence.hpp"\n#include <list>\n#include <map>')
bug('C03', 'thread local counter', (SE, D, '	static thread_local int calls = 0;\n	calls++;\n	if (calls > 100) textlen = textlen / 2;\n' + D))
bug('C03', 'static list summed', (SE, D, '	static thread_local std::list<size_t> seenLengths;\n	seenLengths.push_back(textlen);\n	for (std::list<size_t>::iterator it = seenLengths.begin(); it != seenLengths.end(); ++it) { if (*it > 100000) { textlen = *it < textlen ? *it : textlen; } }\n' + D), I)
same('C03', 'static statistics', (SE, D, '	static int calls = 0;\n	calls++;\n' + D))
same('C03', 'static list cleared', (SE, D, '	static std::list<size_t> l;\n	l.clear();\n	l.push_back(textlen);\n	if (*l.begin() == 0) textlen = 0;\n' + D), I)
same('C03', 'static table once', (SE, D, '	static std::list<size_t> l;\n	if (l.empty()) {\n		for (size_t k = 0; k < 3; k++) l.push_back(k);\n	}\n	for (std::list<size_t>::iterator it = l.begin(); it != l.end(); ++it) { if (*it > 4) textlen = 0; }\n' + D), I)
same('C03', 'static memo', (SE, D, '	static std::map<size_t, size_t> memo;\n	std::map<size_t, size_t>::iterator it = memo.find(textlen);\n	if (it == memo.end()) { memo[textlen] = textlen; }\n	textlen = memo[textlen];\n' + D), I)
