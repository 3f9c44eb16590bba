"""Second set of source variants, written from the property statements alone."""
import sys
_c = sys.modules.get('cases') or __import__('cases')
bug, same, S = _c.bug, _c.same, _c.S

SP = S + 'spellchecker/spell.cpp'
SU = S + 'spellchecker/suggestions.cpp'
SC = S + 'spellchecker/SpellerCache.cpp'
SET = S + 'setup/setup.cpp'
TW = S + 'spellchecker/FinnishSpellerTweaksWrapper.cpp'
GC = S + 'grammar/GrammarChecker.cpp'
GI = S + 'grammar/interface.cpp'
MI = S + 'morphology/interface.cpp'
HI = S + 'hyphenator/interface.cpp'
HY = S + 'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp'
VA = S + 'morphology/VfstAnalyzer.cpp'
AN = S + 'morphology/Analysis.cpp'

# ---------------------------------------------------------------- C01
bug('C01', 'failed verdicts remembered', (SC, "if (wlen > 10 || (result != SPELL_OK && result != SPELL_CAP_FIRST)) {", "if (wlen > 10) {"))
bug('C01', 'lookup one longer than store', (SC, "	if (wlen > 10) {\n		return false;", "	if (wlen > 11) {\n		return false;"))
bug('C01', 'last letter not compared', (SC, "return wcsncmp(words + cacheOffset, word, wlen) == 0;", "return wcsncmp(words + cacheOffset, word, wlen - 1) == 0;"))
bug('C01', 'only words cleared partly', (SC, "memset(words, 0, 6544 * sizeof(wchar_t) << sizeParam);", "memset(words, 0, 6544 << sizeParam);"))
bug('C01', 'key without hyphen', (SP, "		cache->setSpellResult(buffer, len, result);", "		size_t keyLen = (len > 1 && buffer[len - 1] == L'-') ? len - 1 : len;\n		cache->setSpellResult(buffer, keyLen, result);"))
bug('C01', 'result weakened after lookup', (SP, "		spellresult result = hyphenAwareSpell(voikkoOptions, buffer, len);\n		cache->setSpellResult", "		spellresult result = hyphenAwareSpell(voikkoOptions, buffer, len);\n		if (result == SPELL_CAP_FIRST && voikkoOptions->accept_first_uppercase == 0) {\n			result = SPELL_CAP_ERROR;\n		}\n		cache->setSpellResult"))
bug('C01', 'clear only on enabling missing hyphens', (SET, "			if (handle->spellerCache) {\n				handle->spellerCache->clear();", "			if (handle->spellerCache && newValue != 0) {\n				handle->spellerCache->clear();"))
bug('C01', 'clear keeps results of short words', (SC, "	memset(words, 0, 6544 * sizeof(wchar_t) << sizeParam);", "	memset(words + 80, 0, 6464 * sizeof(wchar_t) << sizeParam);"))
bug('C01', 'hash order differs in lookup', (SC, "bool SpellerCache::isInCache(const wchar_t * word, size_t wlen) const {\n	if (wlen > 10) {\n		return false;\n	}\n	int hashCode = voikko_hash(word, wlen, VOIKKO_HASH_ORDERS[wlen] + sizeParam);", "bool SpellerCache::isInCache(const wchar_t * word, size_t wlen) const {\n	if (wlen > 10) {\n		return false;\n	}\n	int hashCode = voikko_hash(word, wlen, VOIKKO_HASH_ORDERS[wlen]);"))
bug('C01', 'offset table wrong', (SC, "1*784, 1*1424,", "1*784, 1*1396,"))
bug('C01', 'result not written for first-cap', (SC, "	spellResults[resultOffset] = (result == SPELL_OK) ? 'p' : 'i';", "	if (result == SPELL_OK) {\n		spellResults[resultOffset] = 'p';\n	}\n	else if (spellResults[resultOffset] == 0) {\n		spellResults[resultOffset] = 'i';\n	}"))
bug('C01', 'memo of last word in wrapper', (TW, "spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen) {", "static wchar_t lastWord[64];\nstatic spellresult lastResult = SPELL_FAILED;\nspellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen) {\n	if (wlen < 64 && wcsncmp(word, lastWord, wlen) == 0 && lastWord[wlen] == 0 && lastResult == SPELL_OK) return lastResult;"), (TW, "		spellresult resultWoShy = spellWithoutSoftHyphen(buffer, j);", "		spellresult resultWoShy = spellWithoutSoftHyphen(buffer, j);\n		wcsncpy(lastWord, buffer, 63);\n		lastResult = resultWoShy;"))
bug('C10', 'cache disabled keeps old', (SET, "					delete options->spellerCache;\n					if (value >= 0) {", "					if (value >= 0) {\n						delete options->spellerCache;"), (SET, "					} else {\n						options->spellerCache = 0;\n					}", "					}"))
# ---------------------------------------------------------------- C02
bug('C02', 'text compared up to NUL', (GC, "	    memcmp(cache.paragraph, text, textlen * sizeof(wchar_t)) != 0) {", "	    wcsncmp(cache.paragraph, text, textlen) != 0) {"))
bug('C02', 'half compared', (GC, "memcmp(cache.paragraph, text, textlen * sizeof(wchar_t)) != 0", "memcmp(cache.paragraph, text, textlen) != 0"))
bug('C02', 'option set without clear for bulleted lists', (SET, "			return setGrammarOption(options, value,\n			       &(options->accept_bulleted_lists_in_gc));", "			options->accept_bulleted_lists_in_gc = (value ? 1 : 0);\n			return 1;"))
bug('C02', 'speller option does not clear grammar', (SET, "				handle->spellerCache->clear();\n			}\n			handle->grammarChecker->cache.clear();", "				handle->spellerCache->clear();\n				handle->grammarChecker->cache.clear();\n			}"))
bug('C02', 'clear only when paragraph differs in length', (GC, "	cache.clear();\n	cache.paragraph =", "	if (cache.paragraphLength != textlen || !cache.firstError) {\n		cache.clear();\n	}\n	cache.paragraph ="))
bug('C02', 'errors left when paragraph is short', (S + 'grammar/GcCache.cpp', "	CacheEntry * entry = firstError;\n	while (entry) {\n		CacheEntry * next", "	if (!paragraphLength) return;\n	CacheEntry * entry = firstError;\n	while (entry) {\n		CacheEntry * next"))
# ---------------------------------------------------------------- C04
bug('C04', 'suggest switches missing hyphens', (SU, "	generator->generate(&status);\n", "	int savedHyphens = options->accept_missing_hyphens;\n	options->accept_missing_hyphens = 0;\n	generator->generate(&status);\n	if (status.getSuggestionCount() == 0) {\n		delete[] nword;\n		return 0;\n	}\n	options->accept_missing_hyphens = savedHyphens;\n"))
bug('C04', 'hyphenate toggles ignore dot', (HI, "	char * hyphenation = options->hyphenator->hyphenate(word, wlen);", "	options->hyphenator->setIgnoreDot(wlen > 2 && options->ignore_dot);\n	char * hyphenation = options->hyphenator->hyphenate(word, wlen);"))
bug('C04', 'analysis in gc with option', (S + 'grammar/FinnishAnalysis.cpp', "voikkoOptions->ignore_dot = ignore_dot_saved;", "if (voikkoOptions->accept_titles_in_gc) voikkoOptions->ignore_dot = ignore_dot_saved;"))
bug('C04', 'spell normalises option', (SP, "	casetype caps = voikko_casetype(nword, nchars);\n", "	casetype caps = voikko_casetype(nword, nchars);\n	if (voikkoOptions->ignore_dot > 1) voikkoOptions->ignore_dot = 1;\n	if (nchars > 200) voikkoOptions->accept_missing_hyphens = 0;\n"))
# ---------------------------------------------------------------- C05
bug('C05', 'static last handle option', (SP, "VOIKKOEXPORT int voikkoSpellUcs4(VoikkoHandle * voikkoOptions, const wchar_t * word) {", "static int dotMode = 0;\nVOIKKOEXPORT int voikkoSpellUcs4(VoikkoHandle * voikkoOptions, const wchar_t * word) {\n	dotMode = voikkoOptions->ignore_dot;"))
bug('C05', 'setlocale around conversion', (VA, '#include "morphology/VfstAnalyzer.hpp"', '#include "morphology/VfstAnalyzer.hpp"\n#include <clocale>'), (VA, "			ss.imbue(std::locale::classic());", "			ss.imbue(std::locale::classic());\n			setlocale(LC_NUMERIC, \"C\");"))
bug('C05', 'static map of attribute values filled lazily', (MI, "	char ** values = new char*[attributeValues.size() + 1];", "	static std::list<const wchar_t *> lastValues;\n	lastValues = attributeValues;\n	char ** values = new char*[lastValues.size() + 1];"))
bug('C05', 'global default dictionary path changed by init', (SET, "VOIKKOEXPORT VoikkoHandle * voikkoInit(const char ** error,", "static string lastPath;\nVOIKKOEXPORT VoikkoHandle * voikkoInit(const char ** error,"), (SET, "		Dictionary dict;\n		if (path) {\n", "		Dictionary dict;\n		if (path) {\n			lastPath = path;\n"))
bug('C05', 'static mutable member buffer', (S + 'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp', "	wchar_t * wordCopy = new wchar_t[nchars + 1];\n	if (wordCopy == 0) {\n		return;\n	}\n", "	static wchar_t wordBuf[512];\n	wchar_t * wordCopy = nchars < 500 ? wordBuf : new wchar_t[nchars + 1];\n"))
# ---------------------------------------------------------------- C06
bug('C06', 'iswdigit', (S + 'character/SimpleChar.cpp', '#include "character/SimpleChar.hpp"', '#include "character/SimpleChar.hpp"\n#include <cwctype>'), (S + 'character/SimpleChar.cpp', "bool SimpleChar::isUpper(wchar_t input) {", "bool SimpleChar::isUpper(wchar_t input) {\n	if (input > 0xFFFF) return iswupper(input) != 0;"))
bug('C06', 'ordering by pointer', (S + 'spellchecker/suggestion/SuggestionStatus.cpp', None, None) if False else (VA, "			ss.imbue(std::locale::classic());\n", "			ss.imbue(std::locale());\n"))
bug('C06', 'wcscoll', (MI, "	Analyzer * analyzer = options->morAnalyzer;", "	if (wcscoll(word, L\"zz\") > 0 && word[0] == 0x2028) return 0;\n	Analyzer * analyzer = options->morAnalyzer;"), (MI, "#include <cstring>", "#include <cstring>\n#include <cwchar>"))
bug('C06', 'time dependent limit', (SU, "	SuggestionStatus status(nword, wlen, MAX_SUGGESTIONS * 3);", "	time_t t0 = time(0);\n	SuggestionStatus status(nword, wlen, MAX_SUGGESTIONS * 3);\n	if (time(0) > t0 + 5) { delete[] nword; return 0; }"), (SU, "#include <cwchar>", "#include <cwchar>\n#include <ctime>"))
bug('C06', 'mbstowcs', (S + 'spellchecker/HfstSuggestion.cpp', '#include "spellchecker/HfstSuggestion.hpp"', '#include "spellchecker/HfstSuggestion.hpp"\n#include <cstdlib>'), (HI, "	char * result = voikkoHyphenateUcs4(options, word_ucs4);", "	if (len > 200) mbstowcs(word_ucs4, word, len);\n	char * result = voikkoHyphenateUcs4(options, word_ucs4);"))
# ---------------------------------------------------------------- C07
bug('C07', 'spell conversion', (SP, "	if (word_ucs4 == 0) {\n		return VOIKKO_CHARSET_CONVERSION_FAILED;\n	}\n", ""))
bug('C07', 'insert hyphens order', (HI, "	if (!word_ucs4) {\n		return nullptr;\n	}\n	wchar_t * hyphen_ucs4", "	wchar_t * hyphen_ucs4"))
bug('C07', 'suggestion list conversion', (SU, "	if (suggestions_ucs4 == 0) {\n		return 0;\n	}\n	int scount", "	int scount"))
bug('C07', 'hyphenator conversion', (HY, "	if (wordUtf8 == 0) {\n		delete[] allResults;\n		return 0;\n	}\n", ""))
bug('C07', 'structure absent in trailing part', (TW, "if (trailingAttr != 0 && wcscmp(trailingAttr, L\"true\") == 0) {", "if (wcscmp(trailingAttr, L\"true\") == 0) {"))
bug('C07', 'unencodable suggestion', (SU, "		if (suggestion == 0) {\n			continue; /* suggestion cannot be encoded */\n		}\n		suggestions[j++] = suggestion;", "		if (suggestion[0] == '\\0') {\n			delete[] suggestion;\n			continue;\n		}\n		suggestions[j++] = suggestion;"))
bug('C07', 'pattern absent', (HI, "	if (!hyphenationPattern) {\n		delete[] hyphen_ucs4;\n		delete[] word_ucs4;\n		return nullptr;\n	}\n", ""))
# ---------------------------------------------------------------- C08
bug('C08', 'nonword returns early', (SP, "	    (voikkoOptions->ignore_nonwords && voikko_is_nonword(nword, nchars))) {\n		delete[] nword;\n", "	    (voikkoOptions->ignore_nonwords && voikko_is_nonword(nword, nchars))) {\n"))
bug('C08', 'hyphen buffer', (SP, "	spres = voikkoOptions->speller->spell(buffer, newlen);\n	delete[] buffer;\n", "	spres = voikkoOptions->speller->spell(buffer, newlen);\n	if (spres == SPELL_OK) {\n		delete[] buffer;\n	}\n"))
bug('C08', 'buffer lost with extra hyphens', (TW, "			if (spres == SPELL_OK) {\n				delete[] buffer;\n				return spres;", "			if (spres == SPELL_OK) {\n				return spres;"))
bug('C08', 'analyses of trailing part lost', (TW, "					Analyzer::deleteAnalyses(trailingAnalyses);\n					if (isTrailingAcceptable) {", "					if (isTrailingAcceptable) {\n						Analyzer::deleteAnalyses(trailingAnalyses);"))
bug('C08', 'paragraph lost', (GC, "			    sentence->tokens[0].type != TOKEN_WORD) {\n				delete para;\n", "			    sentence->tokens[0].type != TOKEN_WORD) {\n"))
bug('C08', 'analyses of undotted word', (HY, "		*dotRemoved = true;\n		Analyzer::deleteAnalyses(analyses);\n", "		*dotRemoved = true;\n"))
bug('C08', 'hyphenation strings', (HY, "	i = 0;\n	while (hyphenations[i] != 0) {\n		delete[] hyphenations[i++];\n	}\n	delete[] hyphenations;\n	return hyphenation;\n}\n\nstatic char", "	delete[] hyphenations;\n	return hyphenation;\n}\n\nstatic char"))
bug('C08', 'removed hyphenation', (HY, "			delete[] hyphenations[j];\n			hyphenations[j] = hyphenations[--hyphenationCount];", "			hyphenations[j] = hyphenations[--hyphenationCount];"))
bug('C08', 'nword released before case change', (SU, "	wchar_t ** suggestions = getSuggestions(status, add_dots);\n", "	wchar_t ** suggestions = getSuggestions(status, add_dots);\n	if (add_dots) {\n		delete[] nword;\n		nword = 0;\n		return suggestions;\n	}\n	delete[] nword;\n"))
bug('C08', 'const attribute deleted', (AN, "		if (!constAttributes[static_cast<int>(it->first)]) {\n			delete[] it->second;\n		}\n		++it;", "		delete[] it->second;\n		++it;"))
bug('C08', 'attribute kept after removal', (AN, "		else {\n			delete[] valueI->second;\n		}\n		attributes.erase(valueI);", "		attributes.erase(valueI);"))
bug('C08', 'keys leaked on reseal', (AN, "	deleteKeys();\n	keys = new", "	keys = new"))
bug('C08', 'list not deleted', (MI, "	result[i] = 0;\n	delete analyses;", "	result[i] = 0;\n	if (i > 0) delete analyses;"))
bug('C08', 'grammar text', (GI, "	delete[] textUcs4;\n	\n	return e;", "	if (e) {\n		delete[] textUcs4;\n	}\n	return e;"))
# ---------------------------------------------------------------- C09
bug('C09', 'hyphens result malloced', (HI, "	delete[] hyphenationPattern;\n	return utils::StringUtils::utf8FromUcs4(hyphenated.str().c_str());", "	char * copy = static_cast<char *>(malloc(patternLen + 1));\n	if (hyphenated.str().empty()) {\n		copy[0] = '\\0';\n		delete[] hyphenationPattern;\n		return copy;\n	}\n	free(copy);\n	delete[] hyphenationPattern;\n	return utils::StringUtils::utf8FromUcs4(hyphenated.str().c_str());"))
bug('C09', 'suggestion array not terminated', (SU, "	for (; j <= scount; j++) {\n		suggestions[j] = 0;\n	}\n	\n	return suggestions;", "	for (; j < scount; j++) {\n		suggestions[j] = 0;\n	}\n	\n	return suggestions;"))
bug('C09', 'attribute array not terminated', (MI, "	values[i] = nullptr;\n", ""))
bug('C09', 'error suggestions shared with cache', (GI, "		e->getSuggestions()[i] = new char[strlen(c_error->getSuggestions()[i]) + 1];\n		strcpy(e->getSuggestions()[i], c_error->getSuggestions()[i]);", "		e->getSuggestions()[i] = c_error->getSuggestions()[i];"))
bug('C09', 'error shares suggestion array', (GI, "	e->setSuggestions(new char*[sugg_count + 1]);\n", "	if (sugg_count == 0) return e;\n	e->setSuggestions(new char*[sugg_count + 1]);\n"))
bug('C09', 'mor value is shared', (MI, "	if (value_ucs4) {\n		return utils::StringUtils::utf8FromUcs4(value_ucs4);", "	if (value_ucs4 && value_ucs4[0] == L'\\0') {\n		return const_cast<char *>(\"\");\n	}\n	if (value_ucs4) {\n		return utils::StringUtils::utf8FromUcs4(value_ucs4);"))
bug('C09', 'free analysis skips first', (MI, "	for (voikko_mor_analysis ** i = analysis; *i; i++) {\n		delete *i;", "	for (voikko_mor_analysis ** i = analysis; i[1]; i++) {\n		delete *i;"))
