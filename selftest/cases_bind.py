"""Self-test cases for the bindings (C11, C12)."""
PYF = 'python/libvoikko.py'
JD = 'java/src/main/java/org/puimula/libvoikko/'
J = JD + 'Voikko.java'
CSF = 'cs/libvoikko/Voikko.cs'
JSF = 'js/libvoikko_api.js'


def define(bug, same):
    # ---- C11
    bug('C11', 'python restype', (PYF, 'self.voikkoGetGrammarErrorLength.restype = c_size_t', 'self.voikkoGetGrammarErrorLength.restype = c_int'))
    bug('C11', 'python argtypes int for size', (PYF, 'self.voikkoNextTokenUcs4.argtypes = [c_void_p, c_wchar_p, c_size_t, POINTER(c_size_t)]', 'self.voikkoNextTokenUcs4.argtypes = [c_void_p, c_wchar_p, c_int, POINTER(c_size_t)]'))
    bug('C11', 'python start/len swapped', (PYF, 'startPos=self.__lib.voikkoGetGrammarErrorStartPos(cGrammarError)', 'startPos=self.__lib.voikkoGetGrammarErrorLength(cGrammarError)'))
    bug('C11', 'python script and variant', (PYF, 'script = unicode_str(lib.voikko_dict_script(cDict), "UTF-8")', 'script = unicode_str(lib.voikko_dict_variant(cDict), "UTF-8")'))
    bug('C11', 'java option number', (J, 'setIntegerOption(9, length);', 'setIntegerOption(6, length);'))
    bug('C11', 'js option number', (JSF, 'setBoolOption(3, value);', 'setBoolOption(1, value);'))
    bug('C11', 'js boolean inverted', (JSF, 'return value ? 1 : 0;', 'return value ? 0 : 1;'))
    bug('C11', 'python lists grammar as hyphenation', (PYF, 'return lib.voikkoListSupportedHyphenationLanguages(p)', 'return lib.voikkoListSupportedGrammarCheckingLanguages(p)'))
    same('C11', 'python helper variable', (PYF, '''        return GrammarError(
            errorCode=self.__lib.voikkoGetGrammarErrorCode(cGrammarError),''', '''        code = self.__lib.voikkoGetGrammarErrorCode(cGrammarError)
        return GrammarError(
            errorCode=code,'''))
    same('C11', 'java locals reordered', (J, '''        int errorCode = lib.voikkoGetGrammarErrorCode(cError);
        int startPos = lib.voikkoGetGrammarErrorStartPos(cError).intValue();
''', '''        final int startPos = lib.voikkoGetGrammarErrorStartPos(cError).intValue();
        final int errorCode = lib.voikkoGetGrammarErrorCode(cError);
'''))
    same('C11', 'js boolToInt with if', (JSF, 'return value ? 1 : 0;', '''if (value) {
			return 1;
		}
		return 0;'''))
    same('C11', 'java option constant', (J, 'setIntegerOption(9, length);', 'setIntegerOption(MIN_LEN, length);'), (J, '    private synchronized void setIntegerOption', '    private static final int MIN_LEN = 9;\n\n    private synchronized void setIntegerOption'))
    same('C11', 'python loop rewritten', (PYF, '''        while bool(cLanguages[i]):
            languages.append(unicode_str(cLanguages[i], "UTF-8"))
            i = i + 1
''', '''        while cLanguages[i]:
            lang = cLanguages[i]
            languages.append(unicode_str(lang, "UTF-8"))
            i += 1
'''))
    # ---- C12
    bug('C12', 'python suggest leak on empty', (PYF, '''        i = 0
        while bool(cSuggestions[i]):
            pSuggestions.append(cSuggestions[i])
            i = i + 1

        self.__lib''', '''        if not bool(cSuggestions[0]):
            return pSuggestions
        i = 0
        while bool(cSuggestions[i]):
            pSuggestions.append(cSuggestions[i])
            i = i + 1

        self.__lib'''))
    bug('C12', 'python wrong release', (PYF, 'self.__lib.voikkoFreeErrorMessageCstr(cErrorShortDescription)', 'self.__lib.voikkoFreeCstr(cErrorShortDescription)'))
    bug('C12', 'python description after release', (PYF, '''        shortDescription = unicode_str(string_at(cErrorShortDescription), "UTF-8")
        self.__lib.voikkoFreeErrorMessageCstr(cErrorShortDescription)
''', '''        self.__lib.voikkoFreeErrorMessageCstr(cErrorShortDescription)
        shortDescription = unicode_str(string_at(cErrorShortDescription), "UTF-8")
'''))
    bug('C12', 'python grammar error released before use', (PYF, '''            gError = self.__getGrammarError(cError, language)
            gError.startPos = offset + gError.startPos
            errorList.append(gError)
            self.__lib.voikkoFreeGrammarError(cError)
''', '''            self.__lib.voikkoFreeGrammarError(cError)
            gError = self.__getGrammarError(cError, language)
            gError.startPos = offset + gError.startPos
            errorList.append(gError)
'''))
    bug('C12', 'python handle left', (PYF, '            self.__handle = 0\n\n            # Replace', '\n            # Replace'))
    bug('C12', 'python no dummy', (PYF, '            self.__lib = DummyLib()\n', ''))
    bug('C12', 'python no NUL check', (PYF, '''        if not self.__isValidInput(word):
            return False

        result = self.__lib.voikkoSpell''', '''        result = self.__lib.voikkoSpell'''))
    bug('C12', 'java suggest not synchronized', (J, 'public synchronized List<String> suggest(', 'public List<String> suggest('))
    bug('C12', 'java no handle check', (J, '''    public synchronized List<Token> tokens(String text) {
        requireValidHandle();
''', '''    public synchronized List<Token> tokens(String text) {
'''))
    bug('C12', 'java terminate leaves handle', (J, '''            getLib().voikkoTerminate(handle);
            handle = null;
''', '''            getLib().voikkoTerminate(handle);
'''))
    bug('C12', 'java grammar error leak', (J, '            lib.voikkoFreeGrammarError(cError);\n', ''))
    bug('C12', 'java value leak', (J, '''                lib.voikko_free_mor_analysis_value_cstr(value);
''', '''                if (!key.equals("BASEFORM")) lib.voikko_free_mor_analysis_value_cstr(value);
'''))
    bug('C12', 'java early return', (J, '''        Pointer[] pointerArray = voikkoSuggestCstr.getPointerArray(0);
''', '''        Pointer[] pointerArray = voikkoSuggestCstr.getPointerArray(0);
        if (pointerArray.length == 0) {
            return Collections.emptyList();
        }
'''))
    bug('C12', 'java separator unchecked', (J, 'if (!isValidInput(word) || !isValidInput(separator)) {', 'if (!isValidInput(word)) {'))
    bug('C12', 'java and instead of or', (J, 'if (!isValidInput(word) || !isValidInput(separator)) {', 'if (!isValidInput(word) && !isValidInput(separator)) {'))
    bug('C12', 'c# free twice', (CSF, '				Libvoikko.voikkoFreeCstrArray(voikkoSuggestCstr);\n', '				Libvoikko.voikkoFreeCstrArray(voikkoSuggestCstr);\n				Libvoikko.voikkoFreeCstrArray(voikkoSuggestCstr);\n'))
    bug('C12', 'c# lock removed', (CSF, '''			lock (lockObj)
			{
				requireValidHandle();
				List<Token> result''', '''			{
				requireValidHandle();
				List<Token> result'''))
    bug('C12', 'js wrong free', (JSF, 'c_freeMorAnalysis(cAnalysisList);', 'c_freeCstrArray(cAnalysisList);'))
    bug('C12', 'js requireValidHandle dropped', (JSF, '''		"spell": function(word) {
			requireValidHandle();
''', '''		"spell": function(word) {
'''))
    bug('C12', 'js operands swapped', (JSF, 'return isValidInput(word) && c_spellCstr(handle, word) == 1;', 'return c_spellCstr(handle, word) == 1 && isValidInput(word);'))
    bug('C12', 'js handle not cleared', (JSF, '				handle = null;\n', ''))
    same('C12', 'java try finally', (J, '''        String hyphenated = cHyphenated.toString();
        getLib().voikkoFreeCstr(cHyphenated);
        return hyphenated;
''', '''        try {
            return cHyphenated.toString();
        } finally {
            getLib().voikkoFreeCstr(cHyphenated);
        }
'''))
    same('C12', 'java helper extracted', (J, '''        Pointer[] pointerArray = voikkoSuggestCstr.getPointerArray(0);
        List<String> suggestions = new ArrayList<String>(pointerArray.length);
        for (Pointer cStr : pointerArray) {
            suggestions.add(stringFromPointer(cStr));
        }
        getLib().voikkoFreeCstrArray(voikkoSuggestCstr);
        return suggestions;
    }
''', '''        return takeStrings(voikkoSuggestCstr);
    }

    private List<String> takeStrings(Pointer cStrings) {
        List<String> result = new ArrayList<String>();
        for (Pointer cStr : cStrings.getPointerArray(0)) {
            result.add(stringFromPointer(cStr));
        }
        getLib().voikkoFreeCstrArray(cStrings);
        return result;
    }
'''))
    same('C12', 'java synchronized block', (J, '''    public synchronized boolean spell(String word) {
        requireValidHandle();
        if (!isValidInput(word)) {
            return false;
        }
        int spellResult = getLib().voikkoSpellCstr(handle, s2n(word));
        return (spellResult == Libvoikko.VOIKKO_SPELL_OK);
''', '''    public boolean spell(String word) {
        synchronized (this) {
            requireValidHandle();
            if (isValidInput(word)) {
                int spellResult = getLib().voikkoSpellCstr(handle, s2n(word));
                return (spellResult == Libvoikko.VOIKKO_SPELL_OK);
            }
            return false;
        }
'''))
    same('C12', 'python helper', (PYF, '''        i = 0
        while bool(cSuggestions[i]):
            pSuggestions.append(cSuggestions[i])
            i = i + 1

        self.__lib.voikko_free_suggest_ucs4(cSuggestions)
        return pSuggestions
''', '''        try:
            i = 0
            while cSuggestions[i]:
                pSuggestions.append(cSuggestions[i])
                i += 1
            return pSuggestions
        finally:
            self.__lib.voikko_free_suggest_ucs4(cSuggestions)
'''))
    same('C12', 'python is None test nested', (PYF, '''        if not bool(cAnalysisList):
            return pAnalysisList

        i = 0
        while bool(cAnalysisList[i]):
            cAnalysis = cAnalysisList[i]
            cKeys = self.__lib.voikko_mor_analysis_keys(cAnalysis)
            pAnalysis = {}
            j = 0
            while bool(cKeys[j]):
                key = cKeys[j]
                value = self.__lib.voikko_mor_analysis_value_ucs4(cAnalysis, key)
                pAnalysis[unicode_str(key, 'ASCII')] = value
                j = j + 1
            pAnalysisList.append(pAnalysis)
            i = i + 1

        self.__lib.voikko_free_mor_analysis(cAnalysisList)
        return pAnalysisList
''', '''        if cAnalysisList:
            i = 0
            while cAnalysisList[i]:
                pAnalysisList.append(self.__attributes(cAnalysisList[i]))
                i += 1
            self.__lib.voikko_free_mor_analysis(cAnalysisList)
        return pAnalysisList

    def __attributes(self, cAnalysis):
        cKeys = self.__lib.voikko_mor_analysis_keys(cAnalysis)
        result = {}
        j = 0
        while cKeys[j]:
            result[unicode_str(cKeys[j], 'ASCII')] = self.__lib.voikko_mor_analysis_value_ucs4(cAnalysis, cKeys[j])
            j += 1
        return result
'''))
    same('C12', 'c# nested if', (CSF, '''				if (voikkoSuggestCstr == IntPtr.Zero)
				{
					return suggestions;
				}
				unsafe
				{
					for (byte** cStr = (byte**)voikkoSuggestCstr; *cStr != (byte*)0; cStr++)
					{
						suggestions.Add(ByteArray.n2s(new IntPtr(*cStr)));
					}
				}
				Libvoikko.voikkoFreeCstrArray(voikkoSuggestCstr);
''', '''				if (voikkoSuggestCstr != IntPtr.Zero)
				{
					unsafe
					{
						for (byte** cStr = (byte**)voikkoSuggestCstr; *cStr != (byte*)0; cStr++)
						{
							suggestions.Add(ByteArray.n2s(new IntPtr(*cStr)));
						}
					}
					Libvoikko.voikkoFreeCstrArray(voikkoSuggestCstr);
				}
'''))
    same('C12', 'js if instead of and', (JSF, 'return isValidInput(word) && c_spellCstr(handle, word) == 1;', '''if (!isValidInput(word)) {
				return false;
			}
			var code = c_spellCstr(handle, word);
			return code === 1;'''))
    same('C12', 'js ternary', (JSF, 'return isValidInput(word) && c_spellCstr(handle, word) == 1;', 'return isValidInput(word) ? c_spellCstr(handle, word) == 1 : false;'))
    same('C12', 'js const let arrow', (JSF, '''	var boolToInt = function(value) {
		return value ? 1 : 0;
	};
''', '''	const boolToInt = (value) => {
		return value ? 1 : 0;
	};
'''))
    same('C12', 'python set order', (PYF, '''        if self.__handle:
            self.__lib.voikkoTerminate(self.__handle)
            self.__handle = 0
''', '''        handle = self.__handle
        if handle:
            self.__handle = 0
            self.__lib.voikkoTerminate(handle)
'''))
    same('C12', 'java guard clause', (J, '''        if (handle != null) {
            getLib().voikkoTerminate(handle);
            handle = null;
        }
''', '''        if (handle == null) {
            return;
        }
        final Pointer old = handle;
        handle = null;
        getLib().voikkoTerminate(old);
'''))
    # results that are null for some texts
    bug('C12', 'python null suggestions', (PYF, '''        if not bool(cSuggestions):
            return pSuggestions

''', ''))
    bug('C12', 'python null attribute values', (PYF, '''        if not bool(cValues):
            return None
''', ''))
    bug('C12', 'python null hyphenation', (PYF, '''        if not bool(cHyphenated):
            return word
''', ''))
    bug('C12', 'java null analyses', (J, '''        if (cAnalysisList == null) {
            return analysisList;
        }
''', ''))
    bug('C12', 'java null error suggestions', (J, '''        if (cSuggestions == null) {
            suggestions = Collections.emptyList();
        } else {
            Pointer[] pointerArray = cSuggestions.getPointerArray(0);
            suggestions = new ArrayList<String>(pointerArray.length);
            for (Pointer cStr : pointerArray) {
                suggestions.add(stringFromPointer(cStr));
            }
        }
''', '''        Pointer[] pointerArray = cSuggestions.getPointerArray(0);
        suggestions = new ArrayList<String>(pointerArray.length);
        for (Pointer cStr : pointerArray) {
            suggestions.add(stringFromPointer(cStr));
        }
'''))
    bug('C12', 'cs null suggestions', (CSF, '''				if (voikkoSuggestCstr == IntPtr.Zero)
				{
					return suggestions;
				}
''', ''))
    bug('C12', 'cs null pattern', (CSF, '''				if (cPattern == IntPtr.Zero)
				{
					return new string(' ', word.Length);
				}
''', ''))
    bug('C12', 'js null attribute values', (JSF, '''			if (cValues == 0) {
				return null;
			}
''', ''))
    bug('C12', 'js null analyses', (JSF, '''			if (!cAnalysisList) {
				return analysisList;
			}
''', ''))
    same('C12', 'python null test last', (PYF, '''        if not bool(cHyphenated):
            return word
        hyphenated = string_at(cHyphenated)
''', '''        hyphenated = string_at(cHyphenated) if cHyphenated else None
        if hyphenated is None:
            return word
'''))
    same('C12', 'java null helper', (J, '''        if (cHyphenated == null) {
            return word;
        }
        String hyphenated = cHyphenated.toString();
''', '''        String hyphenated = cHyphenated != null ? cHyphenated.toString() : word;
'''))
    same('C12', 'js null', (JSF, '''			if (!cHyphenated) {
				return word;
			}
			var hyphenated = UTF8ToString(cHyphenated);
''', '''			var hyphenated = cHyphenated === 0 ? word : UTF8ToString(cHyphenated);
'''))
