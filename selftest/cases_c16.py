"""Variants for C16 (blocks large enough for what is written)."""
CASES = []
S = 'src/'
G, H, P, U = S + 'spellchecker/suggestion/SuggestionGenerator', S + 'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp', S + 'spellchecker/', S + 'utils/StringUtils.cpp'


def bug(t, *e):
    CASES.append(('C16', 'bug', t, list(e)))


def same(t, *e):
    CASES.append(('C16', 'same', t, list(e)))


bug('lower', (S + 'morphology/VfstAnalyzer.cpp', 'new wchar_t[wlen]', 'new wchar_t[wlen - 1]'))
bug('analyses', (S + 'morphology/interface.cpp', 'new voikko_mor_analysis*[analyses->size() + 1]', 'new voikko_mor_analysis*[analyses->size()]'))
bug('values', (S + 'morphology/interface.cpp', 'new char*[attributeValues.size() + 1]', 'new char*[attributeValues.size()]'))
bug('tstr', (S + 'grammar/FinnishAnalysis.cpp', 'new wchar_t[tokenlen + 1]', 'new wchar_t[tokenlen]'))
bug('suggestion 2', (S + 'grammar/FinnishRuleEngine/checks.cpp', 'suggestions[0] = new char[2];', 'suggestions[0] = new char[1];', 1))
bug('suggDot', (S + 'grammar/FinnishRuleEngine/checks.cpp', 'suggDot = new wchar_t[e->error.legacyError.errorlen]', 'suggDot = new wchar_t[e->error.legacyError.errorlen - 1]'))
bug('cap', (S + 'grammar/FinnishRuleEngine/CapitalizationCheck.cpp', 'new wchar_t[word->tokenlen]', 'new wchar_t[word->tokenlen - 1]', 1))
bug('paragraph', (S + 'grammar/GrammarChecker.cpp', 'new wchar_t[textlen + 1]', 'new wchar_t[textlen]'))
bug('sugg array', (S + 'grammar/interface.cpp', 'new char*[sugg_count + 1]', 'new char*[sugg_count]'))
bug('sugg text', (S + 'grammar/interface.cpp', 'new char[strlen(c_error->getSuggestions()[i]) + 1]', 'new char[strlen(c_error->getSuggestions()[i])]'))
bug('cache entry', (S + 'grammar/CacheEntry.cpp', 'new char*[suggestionCount + 1]', 'new char*[suggestionCount]'))
bug('hfst hyph', (S + 'hyphenator/HfstHyphenator.cpp', 'new char[wlen + 1]', 'new char[wlen]'))
bug('hyph 1', (H, '		char * hyphenation = new char[wlen + 1];', '		char * hyphenation = new char[wlen];', 1))
bug('hyph inters', (H, 'intersection = new char[len + 1]', 'intersection = new char[len]', 1))
bug('hyph inters 2', (H, 'intersection = new char[len + 1]', 'intersection = new char[len]', 2))
bug('hyph result', (H, 'result = new char[len + 1]', 'result = new char[len]', 1))
bug('hyph result 2', (H, 'result = new char[len + 1]', 'result = new char[len]', 2))
bug('hyph all', (H, 'new char*[MAX_ANALYSIS_COUNT + 1]', 'new char*[MAX_ANALYSIS_COUNT]'))
bug('hyph copy', (H, 'new wchar_t[nchars + 1]', 'new wchar_t[nchars]'))
bug('variant 4', (S + 'compatibility/interface.cpp', 'new char[2 * variantLen + 5]', 'new char[2 * variantLen + 4]'))
bug('c array', (S + 'compatibility/interface.cpp', 'malloc((suggCount + 1) * sizeof(char *))', 'malloc(suggCount * sizeof(char *))'))
bug('c text', (S + 'compatibility/interface.cpp', 'malloc((strlen(suggestions[i]) + 1) * sizeof(char))', 'malloc(strlen(suggestions[i]) * sizeof(char))'))
bug('tweaks', (P + 'FinnishSpellerTweaksWrapper.cpp', 'new wchar_t[wlen]', 'new wchar_t[wlen - 1]', 1))
bug('tweaks 2', (P + 'FinnishSpellerTweaksWrapper.cpp', 'new wchar_t[wlen]', 'new wchar_t[wlen - 2]', 2))
for n, o, w in (('ReplaceTwo', 'wlen + 1', 'wlen'), ('Replacement', 's->getWordLength() + 1', 's->getWordLength()'), ('SoftHyphens', 'wlen', 'wlen - 2'), ('DeleteTwo', 'newLength', 'newLength - 1'),
                ('InsertSpecial', 's->getWordLength() + 2', 's->getWordLength() + 1'), ('MultiReplacement', 's->getWordLength() + 1', 's->getWordLength()'), ('Deletion', 's->getWordLength()', 's->getWordLength() - 1'),
                ('Swap', 's->getWordLength() + 1', 's->getWordLength()'), ('Insertion', 's->getWordLength() + 2', 's->getWordLength() + 1')):
    bug('gen ' + n, (G + n + '.cpp', 'new wchar_t[%s]' % o, 'new wchar_t[%s]' % w))
bug('split 1', (G + 'SplitWord.cpp', 'new wchar_t[s->getWordLength() + 1]', 'new wchar_t[s->getWordLength()]'))
bug('split 2', (G + 'SplitWord.cpp', 'new wchar_t[s->getWordLength() + 2]', 'new wchar_t[s->getWordLength() + 1]'))
for k in (1, 2, 3):
    bug('case %d' % k, (G + 'CaseChange.cpp', 'new wchar_t[wlen + 1]', 'new wchar_t[wlen]', k))
bug('sugg out', (P + 'suggestions.cpp', 'new wchar_t*[returnedSuggestionCount + 1]', 'new wchar_t*[returnedSuggestionCount]'))
bug('sugg dot', (P + 'suggestions.cpp', 'new wchar_t[sugglen + 1 + (doAddDot ? 1 : 0)]', 'new wchar_t[sugglen + 1]'))
bug('sugg cstr', (P + 'suggestions.cpp', 'new char*[scount + 1]', 'new char*[scount]'))
bug('cache words', (P + 'SpellerCache.cpp', '6544 << sizeParam', '6144 << sizeParam'))
bug('cache results', (P + 'SpellerCache.cpp', 'new char[1008 * sizeof(char) << sizeParam]', 'new char[1000 * sizeof(char) << sizeParam]'))
bug('spell buffer', (P + 'spell.cpp', 'new wchar_t[len + 2]', 'new wchar_t[len]'))
bug('spell buffer 1', (P + 'spell.cpp', 'new wchar_t[nchars + 1]', 'new wchar_t[nchars]'))
bug('dicts', (S + 'setup/interface.cpp', 'new voikko_dict*[dictList.size() + 1]', 'new voikko_dict*[dictList.size()]'))
bug('langs', (S + 'setup/interface.cpp', 'new char*[allLanguages.size() + 1]', 'new char*[allLanguages.size()]'))
bug('lang', (S + 'setup/interface.cpp', 'new char[lang.size() + 1]', 'new char[lang.size()]'))
bug('normalise', (S + 'character/charset.cpp', 'new wchar_t[len * 3 + 1]', 'new wchar_t[len * 2 + 1]'))
bug('normalise 2', (S + 'character/charset.cpp', 'new wchar_t[len * 3 + 1]', 'new wchar_t[len * 3]'))
bug('ucs4', (U, 'new wchar_t[chars + 1]', 'new wchar_t[chars]'))
bug('utf8', (U, 'new char[wlen * 6 + 1]', 'new char[wlen * 3 + 1]'))
bug('utf8 1', (U, 'new char[wlen * 6 + 1]', 'new char[wlen * 6]'))
bug('copy', (U, 'wchar_t * copied = new wchar_t[len + 1];', 'wchar_t * copied = new wchar_t[len];'))
bug('copy c', (U, 'char * copied = new char[len + 1];', 'char * copied = new char[len];'))
bug('malloc str', (U, '(char *) malloc((strLen + 1) * sizeof(char))', '(char *) malloc(strLen * sizeof(char))', 1))
bug('malloc arr', (U, 'malloc((numberOfStrings + 1) * sizeof(char *))', 'malloc(numberOfStrings * sizeof(char *))'))
bug('malloc arr size', (U, 'malloc((numberOfStrings + 1) * sizeof(char *))', 'malloc((numberOfStrings + 1) * sizeof(char))'))
bug('strip', (U, 'new wchar_t[origLength + 1]', 'new wchar_t[origLength]'))

# the size is right, more is written
CH, SP, TW, CI = S + 'character/charset.cpp', P + 'spell.cpp', P + 'FinnishSpellerTweaksWrapper.cpp', S + 'compatibility/interface.cpp'
bug('soft hyphens kept', (G + 'SoftHyphens.cpp', "			if (word[i] != L'\\u00AD') {\n				buffer[j++] = word[i];\n			}", "			buffer[j++] = (word[i] != L'\\u00AD') ? word[i] : L'-';"))
bug('tweaks terminator', (TW, "		buffer[wlen - 1] = L'\\0';", "		buffer[wlen] = L'\\0';", 1))
bug('tweaks copy', (TW, 'wcsncpy(buffer + leading_len, hyphen_pos + 1, wlen - leading_len - 1);', 'wcsncpy(buffer + leading_len, hyphen_pos, wlen - leading_len + 1);', 1))
bug('deletetwo terminator', (G + 'DeleteTwo.cpp', 'wcsncpy(buffer + i, word + (i + 2), newLength - i);', "wcsncpy(buffer + i, word + (i + 2), newLength - i);\n			buffer[newLength] = L'\\0';"))
bug('split terminator', (G + 'SplitWord.cpp', 'w2len + 1);', "w2len + 1);\n			suggestion[w2start + w2len + 1] = L'\\0';"))
bug('insertion terminator', (G + 'Insertion.cpp', "buffer[s->getWordLength()+1] = L'\\0';", "buffer[s->getWordLength()+2] = L'\\0';"))
bug('variant hyphen first', (CI, "	language[pos] = '\\0';", "	language[pos++] = '-';\n	language[pos++] = 'x';\n	language[pos] = '\\0';"))
bug('suggest terminator', (P + 'suggestions.cpp', 'suggestions[returnedSuggestionCount] = 0;', 'suggestions[returnedSuggestionCount + 1] = 0;'))
bug('copy terminator', (U, '	memcpy(copied, original, len + 1);' , '	memcpy(copied, original, len + 2);') if False else (U, 'wchar_t * copied = new wchar_t[len + 1];', 'wchar_t * copied = new wchar_t[len];\n	copied[len] = 0;'))
bug('paragraph copy', (S + 'grammar/GrammarChecker.cpp', 'memcpy(cache.paragraph, text, textlen * sizeof(wchar_t));', 'memcpy(cache.paragraph, text, (textlen + 2) * sizeof(wchar_t));'))
bug('analyses limit off', (H, 'if (++analysisCount == MAX_ANALYSIS_COUNT) {', 'if (++analysisCount > MAX_ANALYSIS_COUNT) {'))
bug('analyses no limit', (H, 'if (++analysisCount == MAX_ANALYSIS_COUNT) {', 'if (++analysisCount == 10 * MAX_ANALYSIS_COUNT) {'))
bug('tokens limit', (S + 'grammar/FinnishAnalysis.cpp', 'i < Sentence::MAX_TOKENS_IN_SENTENCE', 'i <= Sentence::MAX_TOKENS_IN_SENTENCE'))
bug('hyphenation dot', (H, "			result[len - 1] = ' ';", "			result[len + 1] = ' ';"))
bug('ucs4 terminator', (U, "ucs4Buffer[chars] = L'\\0'" , "ucs4Buffer[chars + 1] = L'\\0'"))
bug('malloc copies terminator twice', (CI, 'gError.suggestions[suggCount] = 0;', 'gError.suggestions[suggCount + 1] = 0;'))
bug('lang array one less', (S + 'setup/interface.cpp', '	size_t n = 0;\n	for (set<string>::iterator', '	size_t n = 1;\n	languages[0] = 0;\n	for (set<string>::iterator'))
bug('mor entries', (S + 'morphology/interface.cpp', 'new voikko_mor_analysis*[analyses->size() + 1]', 'new voikko_mor_analysis*[8]'))

same('utf8 four bytes', (U, 'new char[wlen * 6 + 1]', 'new char[wlen * 4 + 1]'))
same('status exact', (P + 'suggestion/SuggestionStatus.cpp', 'new Suggestion[maxSuggestions + 1]', 'new Suggestion[maxSuggestions]'))
same('normalise by index', (CH, "	*ptr = L'\\0';\n	return buffer;", "	const size_t used = ptr - buffer;\n	buffer[used] = L'\\0';\n	return buffer;"))
same('normalise larger', (CH, 'new wchar_t[len * 3 + 1]', 'new wchar_t[(len + 1) * 3]'))
same('suggestions while', (P + 'suggestions.cpp', '	for (size_t i = 0; i < returnedSuggestionCount; i++) {', '	size_t i = 0;\n	while (i != returnedSuggestionCount) {'), (P + 'suggestions.cpp', '		suggestions[i] = buffer;\n', '		suggestions[i] = buffer;\n		++i;\n'), (P + 'suggestions.cpp', 'suggestions[returnedSuggestionCount] = 0;', 'suggestions[i] = 0;'))
same('sugg dot both', (P + 'suggestions.cpp', 'new wchar_t[sugglen + 1 + (doAddDot ? 1 : 0)]', 'new wchar_t[doAddDot ? sugglen + 2 : sugglen + 1]'))
same('sugg dot sizes', (P + 'suggestions.cpp', 'wchar_t * buffer = new wchar_t[sugglen + 1 + (doAddDot ? 1 : 0)];', 'size_t room = sugglen + 1;\n		if (doAddDot) {\n			room++;\n		}\n		wchar_t * buffer = new wchar_t[room];'))
same('variant wide', (CI, 'new char[2 * variantLen + 5]', 'new char[5 + variantLen + (variantLen + 7) / 8]'))
same('tweaks memmove', (TW, 'wcsncpy(buffer, word, leading_len);', 'wmemcpy(buffer, word, leading_len);', 1))
same('paragraph wmemcpy', (S + 'grammar/GrammarChecker.cpp', 'memcpy(cache.paragraph, text, textlen * sizeof(wchar_t));', 'wmemcpy(cache.paragraph, text, textlen);'))
same('soft hyphen exact', (G + 'SoftHyphens.cpp', 'new wchar_t[wlen]', 'new wchar_t[wlen + 1]'))
same('analyses limit less', (H, 'if (++analysisCount == MAX_ANALYSIS_COUNT) {', 'analysisCount++;\n		if (analysisCount >= MAX_ANALYSIS_COUNT) {'))
same('lang push', (S + 'setup/interface.cpp', '		languages[n] = new char[lang.size() + 1];\n		strcpy(languages[n], lang.c_str());\n		n++;', '		char * l = new char[lang.size() + 1];\n		strcpy(l, lang.c_str());\n		languages[n++] = l;'))
same('values while', (S + 'morphology/interface.cpp', '	for (const wchar_t * s : attributeValues) {\n		values[i++] = utils::StringUtils::utf8FromUcs4(s);\n	}', '	for (std::list<const wchar_t *>::const_iterator it = attributeValues.begin(); it != attributeValues.end(); ++it) {\n		values[i] = utils::StringUtils::utf8FromUcs4(*it);\n		i++;\n	}'))
same('copied by loop', (S + 'grammar/FinnishAnalysis.cpp', 'memcpy(tstr, pos, tokenlen * sizeof(wchar_t));', 'for (size_t c = 0; c < tokenlen; c++) {\n			tstr[c] = pos[c];\n		}'))
same('terminated first', (S + 'grammar/FinnishAnalysis.cpp', 'memcpy(tstr, pos, tokenlen * sizeof(wchar_t));', 'std::fill(tstr, tstr + tokenlen + 1, 0);\n		memcpy(tstr, pos, tokenlen * sizeof(wchar_t));'))
