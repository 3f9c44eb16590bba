"""Bugs written from the text of the properties alone, in the manner of someone who does not know the rules."""
CASES = []


def bug(p, title, *edits):
    CASES.append((p, 'bug', title, [(f if '/' not in f or f.split('/')[0] in ('python', 'java', 'cs', 'js', 'cl', 'src') else 'src/' + f, *r) for f, *r in edits]))


SC, SP, SU = 'spellchecker/SpellerCache.cpp', 'spellchecker/spell.cpp', 'spellchecker/suggestions.cpp'
GC, SE, TW = 'grammar/GrammarChecker.cpp', 'setup/setup.cpp', 'spellchecker/FinnishSpellerTweaksWrapper.cpp'
HY, HI = 'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp', 'hyphenator/interface.cpp'
VS, VG = 'spellchecker/VfstSpeller.cpp', 'spellchecker/VfstSuggestion.cpp'
ST = 'utils/StringUtils.cpp'

# C01
bug('C01', 'p: memcmp in bytes', (SC, 'wcsncmp(words + cacheOffset, word, wlen) == 0', 'memcmp(words + cacheOffset, word, wlen) == 0'))
bug('C01', 'p: old result kept in slot', (SC, "	spellResults[resultOffset] = (result == SPELL_OK) ? 'p' : 'i';", "	if (spellResults[resultOffset] == 0) {\n		spellResults[resultOffset] = (result == SPELL_OK) ? 'p' : 'i';\n	}"))
bug('C01', 'p: clear forgets words', (SC, '	memset(words, 0, 6544 * sizeof(wchar_t) << sizeParam);\n	memset(spellResults', '	memset(spellResults'), (SC, '	words = new wchar_t[6544 << sizeParam];', '	words = new wchar_t[6544 << sizeParam]();'))
bug('C01', 'p: clear only default size', (SC, '	memset(words, 0, 6544 * sizeof(wchar_t) << sizeParam);', '	memset(words, 0, 6544 * sizeof(wchar_t));'))
bug('C01', 'p: cached under dotless key', (SP, '		cache->setSpellResult(buffer, len, result);', "		cache->setSpellResult(buffer, buffer[len - 1] == L'.' ? len - 1 : len, result);"))
bug('C01', 'p: trailing dot ignored in lookup', (SP, '		if (cache->isInCache(buffer, len)) {', "		if (voikkoOptions->ignore_dot && len > 1 && buffer[len - 1] == L'.' && cache->isInCache(buffer, len - 1)) {\n			return cache->getSpellResult(buffer, len - 1);\n		}\n		if (cache->isInCache(buffer, len)) {"))
bug('C01', 'p: extra hyphens option stored directly', (SE, '			return setSpellerOption(options, value,\n			       &(options->accept_extra_hyphens));', '			options->accept_extra_hyphens = (value ? 1 : 0);\n			return 1;'))
bug('C01', 'p: clear only small caches', (SE, '			if (handle->spellerCache) {\n				handle->spellerCache->clear();', '			if (handle->spellerCache && handle->spellerCache->getSizeParam() < 8) {\n				handle->spellerCache->clear();'))
bug('C01', 'p: ignore nonwords consulted below the cache', (SP, '	spellresult spres = voikkoOptions->speller->spell(word, len);\n	if (spres', '	if (voikkoOptions->ignore_numbers && len > 1 && character::SimpleChar::isDigit(word[0])) {\n		return SPELL_OK;\n	}\n	spellresult spres = voikkoOptions->speller->spell(word, len);\n	if (spres'))
bug('C01', 'p: word of length 11 in cache', (SC, '	if (wlen > 10 || (result', '	if (wlen > 11 || (result'), (SC, '	if (wlen > 10) {\n		return false;', '	if (wlen > 11) {\n		return false;'))
bug('C01', 'p: hash without last letter compared by hash', (SC, 'return wcsncmp(words + cacheOffset, word, wlen) == 0;', 'return wcsncmp(words + cacheOffset, word, wlen > 8 ? 8 : wlen) == 0;'))

# C02
bug('C02', 'p: errors consumed', (GC, '	CacheEntry * e = cache.firstError;\n	int preverrors = 0;', '	while (cache.firstError && cache.firstError->error.getStartPos() + 1 < startpos) {\n		CacheEntry * old = cache.firstError;\n		cache.firstError = old->nextError;\n		delete old;\n	}\n	CacheEntry * e = cache.firstError;\n	int preverrors = 0;'))
bug('C02', 'p: compare ignores case of the last character', (GC, 'memcmp(cache.paragraph, text, textlen * sizeof(wchar_t)) != 0', 'memcmp(cache.paragraph, text, (textlen ? textlen - 1 : 0) * sizeof(wchar_t)) != 0'))
bug('C02', 'p: option set when value differs only', (SE, '		else if (!value && (*option)) {\n			*option = 0;\n			handle->grammarChecker->cache.clear();', '		else if (!value && (*option)) {\n			*option = 0;\n			if (handle->spellerCache) {\n				handle->grammarChecker->cache.clear();\n			}'))

# C04
bug('C04', 'p: sentence leaves dot on quotation', ('sentence/Sentence.cpp', '		options->ignore_dot = ignore_dot_saved;\n		if (end_found && !in_quotation) {', '		if (end_found && !in_quotation) {'), ('sentence/Sentence.cpp', '		previous_token_start = slen;\n', '		options->ignore_dot = ignore_dot_saved;\n		previous_token_start = slen;\n'))
bug('C04', 'p: suggestions turn off extra hyphens', (SU, '	generator->generate(&status);\n', '	int extra = options->accept_extra_hyphens;\n	options->accept_extra_hyphens = 0;\n	generator->generate(&status);\n	if (status.getSuggestionCount() > 0) {\n		options->accept_extra_hyphens = extra;\n	}\n'))

# C05/C06
bug('C05', 'p: shared conversion buffer for hyphens', (HI, '	std::wstringstream hyphenated;\n', '	static std::wstringstream hyphenated;\n	hyphenated.str(L"");\n'))
bug('C05', 'p: static transducer cache by name', (VS, '	string splFile = directoryName + "/spl.vfst";\n', '	static string splFile;\n	splFile = directoryName + "/spl.vfst";\n'))
bug('C05', 'p: suggestion cost static', ('spellchecker/suggestion/SuggestionStatus.cpp', 'void SuggestionStatus::charge() {\n', 'static size_t totalCost = 0;\n\nvoid SuggestionStatus::charge() {\n	totalCost++;\n'))
bug('C06', 'p: tolower in names', ('tokenizer/Tokenizer.cpp', 'namespace libvoikko { namespace tokenizer {\n', '#include <cwctype>\nnamespace libvoikko { namespace tokenizer {\nstatic bool isSpaceLike(wchar_t c) { return iswspace(c) != 0; }\n'), ('tokenizer/Tokenizer.cpp', 'get_char_type(text[0])', '(isSpaceLike(text[0]) ? CHAR_WHITESPACE : get_char_type(text[0]))'))
bug('C06', 'p: weight in the global locale', ('morphology/VfstAnalyzer.cpp', '			ss.imbue(std::locale::classic());\n', ''))
bug('C06', 'p: suggestion set of pointers', (VG, 'map<wstring, int>::const_iterator it = suggestionWeights.begin(); it != suggestionWeights.end(); ++it', 'map<wstring, int>::const_iterator it = suggestionWeights.begin(); it != suggestionWeights.end() && !getenv("VOIKKO_NO_SUGGESTIONS"); ++it'))

# C07
bug('C07', 'p: structure of trailing part', (TW, 'if (trailingAttr != 0 && wcscmp', 'if (wcscmp'))
bug('C07', 'p: word conversion in hyphenator', (HY, '	if (wordUtf8 == 0) {\n		delete[] allResults;\n		return 0;\n	}\n', ''))
bug('C07', 'p: soft hyphen positions', (TW, '			if (!hyphenPositions) {\n				return SPELL_FAILED;\n			}\n', ''))
bug('C07', 'p: info flag class', ('morphology/FinnishVfstAnalyzer.cpp', '(!className || wcsncmp(className, L"nimisana", 8) == 0)', '(wcsncmp(className, L"nimisana", 8) == 0)'))
bug('C07', 'p: hyphen null', (HI, '	if (!hyphen_ucs4) {\n		delete[] word_ucs4;\n		return nullptr;\n	}\n', ''))
bug('C07', 'p: pattern null', (HI, '	if (!hyphenationPattern) {\n		delete[] hyphen_ucs4;\n		delete[] word_ucs4;\n		return nullptr;\n	}\n', ''))

# C08
bug('C08', 'p: nword kept on ignored number', (SP, '			if (SimpleChar::isDigit(nword[i])) {\n				delete[] nword;\n', '			if (SimpleChar::isDigit(nword[i])) {\n'))
bug('C08', 'p: two letter word with dot', (SU, '		if (wlen == 2) {\n			delete[] nword;\n', '		if (wlen == 2) {\n'))
bug('C08', 'p: suggestion dropped at limit', ('spellchecker/suggestion/SuggestionStatus.cpp', '	else {\n		delete[] newSuggestion;\n	}\n', ''))
bug('C08', 'p: split suggestion', ('spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp', '			else {\n				delete[] suggestion;\n			}\n', ''))
bug('C08', 'p: queue stops early', (VG, '	while (!queue.empty()) {', '	while (!queue.empty() && !s->shouldAbort()) {'))
bug('C08', 'p: shy buffer', (TW, '		} else {\n			delete[] buffer;\n		}\n		return resultWoShy;', '		}\n		return resultWoShy;'))
bug('C08', 'p: shy buffer used after', (TW, '			delete[] buffer;\n			if (!hyphenPositions) {', '			delete[] buffer;\n			if (!hyphenPositions || buffer[0] == L\'-\') {'))
bug('C08', 'p: shy bad position', (TW, '					delete [] buffer;\n					return SPELL_FAILED;', '					return SPELL_FAILED;'))
bug('C08', 'p: suggestions all unencodable', (SU, '	if (j == 0) {\n		delete[] suggestions;\n', '	if (j == 0) {\n'))
bug('C08', 'p: hyphenation result of unknown word', (HY, '	delete[] wordUtf8;\n\n	removeExtraHyphenations', '	if (analysisCount > 1) {\n		delete[] wordUtf8;\n	}\n\n	removeExtraHyphenations'))
bug('C08', 'p: wordcopy', (HY, '		delete[] hyphenations[i++];\n	}\n	delete[] hyphenations;\n	return hyphenation;', '		delete[] hyphenations[++i];\n	}\n	delete[] hyphenations;\n	return hyphenation;', 1))
bug('C08', 'p: invalid code point', (ST, '		// invalid codepoint\n		delete[] utf8Buffer;\n		return 0;', '		// invalid codepoint\n		return 0;'))
bug('C08', 'p: grammar checker not deleted', ('grammar/FinnishGrammarChecker.cpp', '	delete ruleEngine;\n', ''))
bug('C08', 'p: error model buffer not released', (VG, '	delete[] errorModelBuffer;\n', ''))
bug('C08', 'p: cache results not released', (SC, '	delete[] spellResults;\n', ''))
bug('C08', 'p: results of removed attribute', ('morphology/Analysis.cpp', '		else {\n			delete[] valueI->second;\n		}\n		attributes.erase(valueI);', '		attributes.erase(valueI);'))

# C16
bug('C16', 'p: extra hyphens buffer', (SP, '	wchar_t * buffer = new wchar_t[len + 2];', '	wchar_t * buffer = new wchar_t[len + 1];'))
bug('C16', 'p: utf8 five', (ST, 'new char[wlen * 6 + 1]', 'new char[wlen * 3 + 1]'))

# C17
bug('C17', 'p: checked conversion outside', (ST, '	try {\n		size_t chars = utf8::distance(original, original + byteCount);\n		return doUcs4FromUtf8(original, chars);\n	} catch (...) {\n		// invalid UTF-8 sequence\n		return 0;\n	}', '	size_t chars = utf8::distance(original, original + byteCount);\n	return doUcs4FromUtf8(original, chars);'))
bug('C17', 'p: only catch utf8 not_enough_room', (ST, '	} catch (...) {\n		// invalid codepoint\n		delete[] utf8Buffer;', '	} catch (utf8::not_enough_room &) {\n		// invalid codepoint\n		delete[] utf8Buffer;'))
bug('C17', 'p: zhfst not caught', ('setup/V3DictionaryLoader.cpp', 'catch (...) {', 'catch (hfst_ospell::ZHfstZipReadingError &) {'))
bug('C17', 'p: handler rethrows', (SE, '			catch (DictionaryException &) {\n				return 0;', '			catch (DictionaryException &) {\n				if (value > 1) throw;\n				return 0;'))
bug('C17', 'p: language substring', ('setup/DictionaryFactory.cpp', 'i->first.rfind("-x-standard") == i->first.size() - 11', 'i->first.substr(i->first.size() - 11) == "-x-standard"'))

# C18
bug('C18', 'p: suggestion generator not terminated on failure', (SE, '			options->suggestionGenerator->terminate();\n			delete options->suggestionGenerator;\n			options->suggestionGenerator = 0;', '			delete options->suggestionGenerator;\n			options->suggestionGenerator = 0;'))
bug('C18', 'p: generator kept dangling', (SE, '			options->suggestionGenerator->terminate();\n			delete options->suggestionGenerator;\n			options->suggestionGenerator = generator;', '			options->suggestionGenerator->terminate();\n			delete options->suggestionGenerator;\n			if (generator) {\n				options->suggestionGenerator = generator;\n			}\n			options->suggestionGenerator->terminate();'))
bug('C18', 'p: speller terminate leaves configuration', (VS, '	transducer->terminate();\n	delete transducer;', '	delete transducer;'))
bug('C18', 'p: error not set for null language', (SE, '		*error = "Language must not be null";\n', ''))
bug('C18', 'p: terminate order uses deleted analyzer', (SE, '	delete handle->grammarChecker;\n	handle->hyphenator', '	delete handle->morAnalyzer;\n	delete handle->grammarChecker;\n	handle->hyphenator'), (SE, '	handle->morAnalyzer->terminate();\n	delete handle->morAnalyzer;\n	delete handle->spellerCache', '	handle->morAnalyzer->terminate();\n	delete handle->spellerCache'))
