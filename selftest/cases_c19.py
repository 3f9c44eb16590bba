"""Self-test cases for C19: texts given with a length."""
CASES = []
TK, SN, GC, FA = ['src/' + x for x in ('tokenizer/Tokenizer.cpp', 'sentence/Sentence.cpp', 'grammar/GrammarChecker.cpp', 'grammar/FinnishAnalysis.cpp')]
VSP, ADP, ST, FV, FW = ['src/' + x for x in ('spellchecker/VfstSpeller.cpp', 'spellchecker/AnalyzerToSpellerAdapter.cpp', 'utils/StringUtils.cpp', 'morphology/FinnishVfstAnalyzer.cpp', 'spellchecker/FinnishSpellerTweaksWrapper.cpp')]


def bug(t, *e):
    CASES.append(('C19', 'bug', t, list(e)))


def same(t, *e):
    CASES.append(('C19', 'same', t, list(e)))


bug('email dot at end', (TK, 'if (i + 1 == textlen || get_char_type(text[i+1]) == CHAR_WHITESPACE) {\n							if', 'if (get_char_type(text[i+1]) == CHAR_WHITESPACE) {\n							if'))
bug('url dot at end', (TK, "if (text[i] == L'.' && (i + 1 == textlen || get_char_type(text[i+1]) == CHAR_WHITESPACE)) {", "if (text[i] == L'.' && (get_char_type(text[i+1]) == CHAR_WHITESPACE || i + 1 == textlen)) {"))
bug('colon at end', (TK, '						if (wlen + 1 == textlen) return wlen;\n						if (get_char_type(text[wlen+1]) ==\n						    CHAR_LETTER) break;', '						if (get_char_type(text[wlen+1]) ==\n						    CHAR_LETTER) break;'))
bug('hyphen at end quotation first', (TK, '						if (wlen + 1 == textlen) {\n							return wlen + 1;\n						}\n						if (isFinnishQuotationMark(text[wlen+1])) {\n							return wlen + 1;\n						}\n', '						if (isFinnishQuotationMark(text[wlen+1])) {\n							return wlen + 1;\n						}\n						if (wlen + 1 == textlen) {\n							return wlen + 1;\n						}\n'))
bug('dot at end', (TK, '						if (wlen + 1 == textlen) return wlen + adot;\n', ''))
bug('comma at end', (TK, '						if (wlen + 1 == textlen) return wlen;\n						if (get_char_type(text[wlen+1]) ==\n						    CHAR_DIGIT) break;', '						if (get_char_type(text[wlen+1]) ==\n						    CHAR_DIGIT) break;'))
bug('ellipsis', (TK, "textlen >= 3 && text[0]", "textlen >= 2 && text[0]"))
bug('lone hyphen', (TK, '				if (textlen == 1) {\n					*tokenlen = 1;\n					return TOKEN_PUNCTUATION;\n				}\n				size_t wlen = word_length(text + 1, textlen - 1, options);', '				size_t wlen = word_length(text + 1, textlen, options);'))
bug('whitespace run', (TK, 'for (size_t i = 1; i < textlen; i++) {\n				if (get_char_type', 'for (size_t i = 1; i <= textlen; i++) {\n				if (get_char_type'))
bug('url minimum', (TK, 'textlen < 12 || ', 'textlen < 4 || '))
bug('word while', (TK, '	while (wlen < textlen) {', '	while (wlen <= textlen) {'))
bug('empty text', (TK, '	if (textlen == 0) {\n		*tokenlen = 0;\n		return TOKEN_NONE;\n	}\n	switch', '	if (textlen == 0 || text[0] == 0) {\n		*tokenlen = textlen;\n	}\n	switch'))
bug('speller copy', (VSP, '		wchar_t * modifiedWord = new wchar_t[wlen + 1];\n		wcsncpy(modifiedWord, word, wlen);\n		modifiedWord[wlen] = L\'\\0\';\n', '		wchar_t * modifiedWord = StringUtils::copy(word);\n'))
bug('speller wcslen', (VSP, '	spellresult result = doSpell(word, wlen);\n	if', '	if (wlen != wcslen(word)) {\n		wlen = wcslen(word);\n	}\n	spellresult result = doSpell(word, wlen);\n	if'))
bug('cache copies terminator', (GC, 'memcpy(cache.paragraph, text, textlen * sizeof(wchar_t));', 'memcpy(cache.paragraph, text, (textlen + 1) * sizeof(wchar_t));'))
bug('cache copies as string', (GC, '	memcpy(cache.paragraph, text, textlen * sizeof(wchar_t));\n	cache.paragraph[textlen] = L\'\\0\';\n', '	wcscpy(cache.paragraph, text);\n'))
bug('cache compares as string', (GC, 'memcmp(cache.paragraph, text, textlen * sizeof(wchar_t)) != 0', 'wcscmp(cache.paragraph, text) != 0'))
bug('adapter analyses whole text', (ADP, 'analyzer->analyze(word, wlen, false)', 'analyzer->analyze(word, wcslen(word), false)'))
bug('token text to string', (FA, '		wchar_t * tstr = new wchar_t[tokenlen + 1];\n		if (!tstr) break;\n		memcpy(tstr, pos, tokenlen * sizeof(wchar_t));\n		tstr[tokenlen] = L\'\\0\';\n', '		wchar_t * tstr = utils::StringUtils::copy(pos);\n		tstr[tokenlen] = L\'\\0\';\n'))
bug('utf8 conversion counts', (ST, 'utf8::distance(original, original + byteCount)', 'utf8::distance(original, original + strlen(original))'))
same('dot at end in condition', (TK, '						if (wlen + 1 == textlen) return wlen + adot;\n', '						if (wlen + 1 >= textlen) return wlen + adot;\n'))
same('remaining', (TK, '						if (wlen + 1 == textlen) return wlen + adot;\n', '						if (textlen - wlen < 2) return wlen + adot;\n'))
same('next character variable', (TK, '						if (isFinnishQuotationMark(text[wlen+1])) {', '						wchar_t next;\n						next = text[wlen + 1];\n						if (isFinnishQuotationMark(next)) {'))
same('last flag', (TK, '						if (wlen + 1 == textlen) return wlen + adot;\n', '						{ const bool last = wlen == textlen - 1;\n						if (last) return wlen + adot; }\n'))
same('wmemcpy', (VSP, '		wcsncpy(modifiedWord, word, wlen);\n', '		wmemcpy(modifiedWord, word, wlen);\n'))
same('copy loop', (VSP, '		wcsncpy(modifiedWord, word, wlen);\n', '		for (size_t i = 0; i < wlen; i++) {\n			modifiedWord[i] = word[i];\n		}\n'))
same('string', (VSP, '		wcsncpy(modifiedWord, word, wlen);\n', '		std::wstring(word, wlen).copy(modifiedWord, wlen);\n'))
same('nested quotation', (SN, "				if (!in_quotation && slen + 1 < textlen && text[slen + 1] == L',') {", "				const bool more = slen + 1 < textlen;\n				if (!in_quotation && more && text[slen + 1] == L',') {"))
