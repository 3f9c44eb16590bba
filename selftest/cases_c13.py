"""Variants for C13 (UTF-8 functions give the same answers as wide-character functions)."""
CASES = []
S = 'src/'
SP, SU, TI, SI, GI, HI, MI, CI, UT = S + 'spellchecker/spell.cpp', S + 'spellchecker/suggestions.cpp', S + 'tokenizer/interface.cpp', S + 'sentence/interface.cpp', S + 'grammar/interface.cpp', S + 'hyphenator/interface.cpp', S + 'morphology/interface.cpp', S + 'compatibility/interface.cpp', S + 'utils/StringUtils.cpp'


def bug(t, *e):
    CASES.append(('C13', 'bug', t, list(e)))


def same(t, *e):
    CASES.append(('C13', 'same', t, list(e)))


bug('malformed spelled as failed', (SP, "		return VOIKKO_CHARSET_CONVERSION_FAILED;\n	}\n	int result = voikkoSpellUcs4", "		return VOIKKO_SPELL_FAILED;\n	}\n	int result = voikkoSpellUcs4"))
bug('byte limit in spell', (SP, "	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);\n", "	if (strlen(word) > LIBVOIKKO_MAX_WORD_CHARS) {\n		return VOIKKO_SPELL_FAILED;\n	}\n	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);\n"), (SP, '#include "porting.h"', '#include "porting.h"\n#include <cstring>'))
bug('byte limit in suggest', (SU, "	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);\n", "	if (strlen(word) > 255) {\n		return 0;\n	}\n	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);\n"), (SU, '#include "porting.h"', '#include "porting.h"\n#include <cstring>'))
bug('smaller limit in hyphenate', (HI, "	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {\n		delete[] word_ucs4;\n		return 0;\n	}", "	if (wcslen(word_ucs4) >= LIBVOIKKO_MAX_WORD_CHARS) {\n		delete[] word_ucs4;\n		return 0;\n	}"))
bug('one letter fast path', (SP, "	if (word == 0 || word[0] == '\\0') {\n		return VOIKKO_SPELL_OK;\n	}\n	wchar_t * word_ucs4", "	if (word == 0 || word[0] == '\\0' || word[1] == '\\0') {\n		return VOIKKO_SPELL_OK;\n	}\n	wchar_t * word_ucs4"))
bug('sentence byte length', (SI, "voikkoNextSentenceStartUcs4(options, textUcs4, wcslen(textUcs4),", "voikkoNextSentenceStartUcs4(options, textUcs4, textlen < wcslen(textUcs4) * 2 ? wcslen(textUcs4) : textlen / 2,"))
bug('grammar byte length', (GI, "	size_t wtextlen = wcslen(textUcs4);", "	size_t wtextlen = textlen;"))
bug('grammar swapped', (GI, "	                         wtextlen, startpos, skiperrors);\n	delete[] textUcs4;", "	                         wtextlen, skiperrors, startpos);\n	delete[] textUcs4;"))
bug('grammar decode ignores length', (GI, "utils::StringUtils::ucs4FromUtf8(text, textlen);", "utils::StringUtils::ucs4FromUtf8(text);"))
bug('sentence none on malformed is probable', (SI, "	if (textUcs4 == 0) {\n		return SENTENCE_NONE;", "	if (textUcs4 == 0) {\n		return SENTENCE_NO_START;"))
bug('suggestion limit', (SU, "	for (int i = 0; i < scount; i++) {\n		char * suggestion", "	for (int i = 0; i < scount && i < 2; i++) {\n		char * suggestion"))
bug('suggestions stop at unencodable', (SU, "			continue; /* suggestion cannot be encoded */", "			break; /* suggestion cannot be encoded */"))
bug('suggestions with hole', (SU, "		suggestions[j++] = suggestion;", "		suggestions[i] = suggestion;\n		j++;"))
bug('array not terminated', (SU, "	for (; j <= scount; j++) {", "	for (; j < scount; j++) {"))
bug('token margin dropped', (TI, "*tokenlen + 5 < maxChars", "*tokenlen < maxChars"))
bug('token margin inclusive', (TI, "*tokenlen + 5 < maxChars", "*tokenlen <= maxChars"))
bug('token not retried for words', (TI, "result == TOKEN_NONE || *tokenlen + 5 < maxChars", "result == TOKEN_NONE || result == TOKEN_WHITESPACE || *tokenlen + 5 < maxChars"))
bug('token retried once', (TI, "	while (true) {\n		result =", "	for (int round = 0; round < 2; round++) {\n		result ="), (TI, "	voikko_token_type result;\n	while", "	voikko_token_type result = TOKEN_NONE;\n	while") if False else (TI, "	voikko_token_type result;\n	for", "	voikko_token_type result = TOKEN_NONE;\n	for"))
bug('token text limit', (TI, "	size_t maxChars = 50;", "	if (textlen > 65536) {\n		textlen = 65536;\n	}\n	size_t maxChars = 50;"))
bug('unchecked decode of long prefix', (UT, "				utf8::next(origPtr, original + byteCount);", "				utf8::unchecked::next(origPtr);"))
bug('validation of part', (UT, "		size_t chars = utf8::distance(original, original + byteCount);\n		return", "		size_t chars = utf8::distance(original, original + (byteCount > 3 ? byteCount - 3 : byteCount));\n		return"))
bug('missing terminator', (UT, "		ucs4Buffer[chars] = L'\\0';\n		return ucs4Buffer;", "		if (chars) {\n			ucs4Buffer[chars - 1] = L'\\0';\n		}\n		return ucs4Buffer;"))
bug('encode three bytes', (UT, "new char[wlen * 6 + 1]", "new char[wlen * 3 + 1]"))
bug('encode skips last', (UT, "		for (size_t i = 0; i < wlen; i++) {\n			utfPtr = utf8::append(original[i], utfPtr);\n		}\n		*utfPtr = '\\0';\n		return utf8Buffer;", "		for (size_t i = 0; i + 1 < wlen; i++) {\n			utfPtr = utf8::append(original[i], utfPtr);\n		}\n		*utfPtr = '\\0';\n		return utf8Buffer;"))
bug('encode unchecked', (UT, "			utfPtr = utf8::append(original[i], utfPtr);\n		}\n		*utfPtr", "			utfPtr = utf8::unchecked::append(original[i], utfPtr);\n		}\n		*utfPtr"))
bug('deprecated ucs4 spells via suggest', (CI, "	return voikkoSpellUcs4(handles[handle], word);", "	return voikkoSpellUcs4(handles[handle], word) == 1;"))
bug('deprecated analyses empty word', (CI, "	return voikkoAnalyzeWordUcs4(handles[handle], word);", "	if (!word || !word[0]) {\n		return 0;\n	}\n	return voikkoAnalyzeWordUcs4(handles[handle], word);"))
bug('deprecated token length', (CI, "	return voikkoNextTokenUcs4(handles[handle], text, textlen, tokenlen);", "	return voikkoNextTokenUcs4(handles[handle], text, wcsnlen(text, textlen), tokenlen);"))
bug('deprecated grammar startpos', (CI, "voikkoNextGrammarErrorUcs4(handles[handle], text, textlen, startpos, skiperrors);", "voikkoNextGrammarErrorUcs4(handles[handle], text + startpos, textlen - startpos, 0, skiperrors);"))
bug('deprecated grammar fields', (CI, "		gError.errorlen = voikkoGetGrammarErrorLength(error);", "		gError.errorlen = voikkoGetGrammarErrorStartPos(error);"))
bug('deprecated grammar length unset', (CI, "		gError.errorlen = 0;\n", ""))
bug('analysis value via key', (MI, "		return utils::StringUtils::utf8FromUcs4(value_ucs4);\n	}\n	else {\n		return 0;\n	}", "		return value_ucs4[0] ? utils::StringUtils::utf8FromUcs4(value_ucs4) : 0;\n	}\n	else {\n		return 0;\n	}"))
bug('hyphenate drops empty pattern', (HI, "	char * result = voikkoHyphenateUcs4(options, word_ucs4);\n	delete[] word_ucs4;\n	return result;", "	char * result = voikkoHyphenateUcs4(options, word_ucs4);\n	delete[] word_ucs4;\n	if (result && !strchr(result, '-')) {\n		delete[] result;\n		return 0;\n	}\n	return result;"), (HI, "#include <cstdlib>", "#include <cstdlib>\n#include <cstring>"))
bug('malformed hyphenated as ascii', (HI, "	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);\n	if (word_ucs4 == 0) {\n		return 0;\n	}\n	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {\n		delete[] word_ucs4;\n		return 0;", "	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);\n	if (word_ucs4 == 0) {\n		char * empty = new char[1];\n		empty[0] = '\\0';\n		return empty;\n	}\n	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {\n		delete[] word_ucs4;\n		return 0;"))

same('spell decode helper', (SP, "VOIKKOEXPORT int voikkoSpellCstr(VoikkoHandle * handle, const char * word) {\n	if (word == 0 || word[0] == '\\0') {\n		return VOIKKO_SPELL_OK;\n	}\n", "static bool isBlank(const char * word) {\n	return !word || !*word;\n}\n\nVOIKKOEXPORT int voikkoSpellCstr(VoikkoHandle * handle, const char * word) {\n	if (isBlank(word)) {\n		return VOIKKO_SPELL_OK;\n	}\n"))
same('spell nested', (SP, "	if (word_ucs4 == 0) {\n		return VOIKKO_CHARSET_CONVERSION_FAILED;\n	}\n	int result = voikkoSpellUcs4(handle, word_ucs4);\n	delete[] word_ucs4;\n	return result;", "	int result = VOIKKO_CHARSET_CONVERSION_FAILED;\n	if (word_ucs4) {\n		result = voikkoSpellUcs4(handle, word_ucs4);\n		delete[] word_ucs4;\n	}\n	return result;"))
same('spell too long early', (SP, "	int result = voikkoSpellUcs4(handle, word_ucs4);\n	delete[] word_ucs4;", "	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {\n		delete[] word_ucs4;\n		return VOIKKO_SPELL_FAILED;\n	}\n	int result = voikkoSpellUcs4(handle, word_ucs4);\n	delete[] word_ucs4;"))
same('suggestions terminated once', (SU, "	for (; j <= scount; j++) {\n		suggestions[j] = 0;\n	}\n", "	suggestions[j] = 0;\n"))
same('suggestions inverted test', (SU, "		if (suggestion == 0) {\n			continue; /* suggestion cannot be encoded */\n		}\n		suggestions[j++] = suggestion;", "		if (suggestion != 0) {\n			suggestions[j] = suggestion;\n			++j;\n		}"))
same('suggestions counted by helper', (SU, "	int scount = 0;\n	while (suggestions_ucs4[scount] != 0) {\n		scount++;\n	}\n	\n	char ** suggestions = new", "	int scount = countSuggestions(suggestions_ucs4);\n	char ** suggestions = new"), (SU, "VOIKKOEXPORT char ** voikkoSuggestCstr(", "static int countSuggestions(wchar_t ** all) {\n	int n = 0;\n	for (wchar_t ** s = all; *s; s++) {\n		n++;\n	}\n	return n;\n}\n\nVOIKKOEXPORT char ** voikkoSuggestCstr("))
same('suggestions encoded by helper', (SU, "	int j = 0;\n	for (int i = 0; i < scount; i++) {\n		char * suggestion = utils::StringUtils::utf8FromUcs4(suggestions_ucs4[i]);\n		if (suggestion == 0) {\n			continue; /* suggestion cannot be encoded */\n		}\n		suggestions[j++] = suggestion;\n	}\n", "	int j = encodeAll(suggestions_ucs4, scount, suggestions);\n"), (SU, "VOIKKOEXPORT char ** voikkoSuggestCstr(", "static int encodeAll(wchar_t ** from, int count, char ** to) {\n	int used = 0;\n	for (int i = 0; i < count; ++i) {\n		if (char * encoded = utils::StringUtils::utf8FromUcs4(from[i])) {\n			to[used++] = encoded;\n		}\n	}\n	return used;\n}\n\nVOIKKOEXPORT char ** voikkoSuggestCstr("))
same('token do while', (TI, "	while (true) {\n		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars);\n		if (result == TOKEN_NONE || *tokenlen + 5 < maxChars) {\n			break;\n		}\n		maxChars *= 2;\n	}\n	return result;", "	do {\n		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars);\n		if (result == TOKEN_NONE) {\n			return TOKEN_NONE;\n		}\n		if (maxChars > *tokenlen + 5) {\n			return result;\n		}\n		maxChars += maxChars;\n	} while (true);"))
same('token whole text', (TI, "	size_t maxChars = 50;\n	*tokenlen = 0;\n	voikko_token_type result;\n	while (true) {\n		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars);\n		if (result == TOKEN_NONE || *tokenlen + 5 < maxChars) {\n			break;\n		}\n		maxChars *= 2;\n	}\n	return result;", "	*tokenlen = 0;\n	return doVoikkoNextTokenCstr(options, text, textlen, tokenlen, textlen);"))
same('token limit named', (TI, "		if (result == TOKEN_NONE || *tokenlen + 5 < maxChars) {\n			break;\n		}\n		maxChars *= 2;", "		size_t needed = *tokenlen + 5;\n		bool complete = (needed < maxChars);\n		if (result == TOKEN_NONE || complete) {\n			break;\n		}\n		maxChars = 2 * maxChars;"))
same('sentence goto-free', (SI, "	if (textUcs4 == 0) {\n		return SENTENCE_NONE;\n	}\n	result = voikkoNextSentenceStartUcs4(options, textUcs4, wcslen(textUcs4),\n	                                         sentencelen);\n	delete[] textUcs4;\n	return result;", "	if (textUcs4 != 0) {\n		const size_t chars = wcslen(textUcs4);\n		result = voikkoNextSentenceStartUcs4(options, textUcs4, chars, sentencelen);\n		delete[] textUcs4;\n	}\n	else {\n		result = SENTENCE_NONE;\n	}\n	return result;"))
same('grammar unique ptr', (GI, "	wchar_t * textUcs4 = utils::StringUtils::ucs4FromUtf8(text, textlen);\n	if (textUcs4 == 0) {\n		return 0;\n	}\n	\n	size_t wtextlen = wcslen(textUcs4);\n	VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(options, textUcs4,\n	                         wtextlen, startpos, skiperrors);\n	delete[] textUcs4;\n	\n	return e;", "	std::unique_ptr<wchar_t[]> textUcs4(utils::StringUtils::ucs4FromUtf8(text, textlen));\n	if (!textUcs4) {\n		return 0;\n	}\n	return voikkoNextGrammarErrorUcs4(options, textUcs4.get(), wcslen(textUcs4.get()), startpos, skiperrors);"), (GI, "#include <cstdlib>", "#include <cstdlib>\n#include <memory>\n#include <cwchar>"))
same('word decoder helper', (HI, "VOIKKOEXPORT char * voikkoHyphenateCstr(VoikkoHandle * options, const char * word) {\n	if (word == 0) {\n		return 0;\n	}\n	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);\n	if (word_ucs4 == 0) {\n		return 0;\n	}\n	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {\n		delete[] word_ucs4;\n		return 0;\n	}\n", "static wchar_t * decodeWord(const char * word) {\n	wchar_t * decoded = word ? utils::StringUtils::ucs4FromUtf8(word) : 0;\n	if (decoded && wcslen(decoded) > LIBVOIKKO_MAX_WORD_CHARS) {\n		delete[] decoded;\n		decoded = 0;\n	}\n	return decoded;\n}\n\nVOIKKOEXPORT char * voikkoHyphenateCstr(VoikkoHandle * options, const char * word) {\n	wchar_t * word_ucs4 = decodeWord(word);\n	if (word_ucs4 == 0) {\n		return 0;\n	}\n"))
same('decode in one function', (UT, "		size_t chars = utf8::distance(original, original + byteCount);\n		return doUcs4FromUtf8(original, chars);", "		const char * end = original + byteCount;\n		size_t chars = utf8::distance(original, end);\n		wchar_t * decoded = doUcs4FromUtf8(original, chars);\n		return decoded;"))
same('decode with pointer', (UT, "		for (size_t i = 0; i < chars; i++) {\n			// Using unchecked function because validity was already\n			// checked with utf8::distance.\n			ucs4Buffer[i] = utf8::unchecked::next(origPtr);\n		}\n		ucs4Buffer[chars] = L'\\0';", "		wchar_t * target = ucs4Buffer;\n		for (size_t left = chars; left > 0; left--) {\n			*target = utf8::unchecked::next(origPtr);\n			++target;\n		}\n		*target = L'\\0';"))
same('encode while', (UT, "		for (size_t i = 0; i < wlen; i++) {\n			utfPtr = utf8::append(original[i], utfPtr);\n		}\n		*utfPtr = '\\0';\n		return utf8Buffer;", "		size_t i = 0;\n		while (i < wlen) {\n			utfPtr = utf8::append(original[i], utfPtr);\n			i++;\n		}\n		*utfPtr = '\\0';\n		return utf8Buffer;"))
same('encode pointer loop', (UT, "		for (size_t i = 0; i < wlen; i++) {\n			utfPtr = utf8::append(original[i], utfPtr);\n		}\n		*utfPtr = '\\0';\n		return utf8Buffer;", "		for (const wchar_t * c = original; c != original + wlen; ++c) {\n			utfPtr = utf8::append(*c, utfPtr);\n		}\n		*utfPtr = '\\0';\n		return utf8Buffer;"))
same('encode smaller room', (UT, "new char[wlen * 6 + 1]", "new char[wlen * 4 + 1]"))
same('deprecated handle helper', (CI, "VOIKKOEXPORT int voikko_spell_cstr(int handle, const char * word) {\n	return voikkoSpellCstr(handles[handle], word);", "static VoikkoHandle * get(int handle) {\n	return handles[handle];\n}\n\nVOIKKOEXPORT int voikko_spell_cstr(int handle, const char * word) {\n	return voikkoSpellCstr(get(handle), word);"))
same('deprecated grammar initial values', (CI, "	gError.error_description = 0;\n", "	gError.error_description = 0;\n	gError.error_code = 0;\n	gError.startpos = 0;\n	gError.errorlen = 0;\n	gError.suggestions = 0;\n"), (CI, "	} else {\n		gError.error_code = 0;\n		gError.startpos = 0;\n		gError.errorlen = 0;\n		gError.suggestions = 0;\n	}\n	return gError;", "	}\n	return gError;"))
same('deprecated hyphenate ternary', (MI, "	const wchar_t * value_ucs4 = voikko_mor_analysis_value_ucs4(analysis, key);\n	if (value_ucs4) {\n		return utils::StringUtils::utf8FromUcs4(value_ucs4);\n	}\n	else {\n		return 0;\n	}", "	const wchar_t * value_ucs4 = voikko_mor_analysis_value_ucs4(analysis, key);\n	return value_ucs4 ? utils::StringUtils::utf8FromUcs4(value_ucs4) : 0;"))
