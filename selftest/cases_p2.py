"""Second planter round for C09 and C11."""
CASES = []
JD = 'java/src/main/java/org/puimula/libvoikko/'
S = 'src/'


def bug(prop, title, *edits):
    CASES.append((prop, 'bug', 'p2: ' + title, list(edits)))


def same(prop, title, *edits):
    CASES.append((prop, 'same', 'p2: ' + title, list(edits)))


SU = S + 'utils/StringUtils.cpp'
bug('C09', 'empty string not converted', (SU, 'void StringUtils::convertCStringToMalloc(char * & cString) {\n	if (!cString) {', 'void StringUtils::convertCStringToMalloc(char * & cString) {\n	if (!cString || cString[0] == \'\\0\') {'))
bug('C09', 'suggestion of deprecated error', (S + 'compatibility/interface.cpp', 'gError.suggestions[i] = static_cast<char *>(malloc((strlen(suggestions[i]) + 1) * sizeof(char)));', 'gError.suggestions[i] = new char[strlen(suggestions[i]) + 1];'))
bug('C09', 'array of deprecated error', (S + 'compatibility/interface.cpp', 'static_cast<char **>(malloc((suggCount + 1) * sizeof(char *)))', 'new char*[suggCount + 1]'))
bug('C09', 'error without first suggestion shares array', (S + 'grammar/interface.cpp', '	if (!c_error->getSuggestions()) {', '	if (!c_error->getSuggestions() || !*c_error->getSuggestions()) {'))
bug('C09', 'dictionaries of the list', (S + 'setup/interface.cpp', 'dicts[n++] = new Dictionary(*i);', 'dicts[n++] = &*i;'))
bug('C09', 'language of local string', (S + 'setup/interface.cpp', '		languages[n] = new char[lang.size() + 1];\n		strcpy(languages[n], lang.c_str());\n', '		languages[n] = const_cast<char *>(lang.c_str());\n'))
bug('C09', 'variant of copy', (S + 'setup/interface.cpp', '	const char * variant = dict->getLanguage().getPrivateUse().c_str();\n	if (variant && variant[0] != \'\\0\') {\n		return variant;\n	}', '	string variant = dict->getLanguage().getPrivateUse();\n	if (!variant.empty()) {\n		return variant.c_str();\n	}'))
bug('C09', 'description by value', (S + 'setup/Dictionary.hpp', 'const std::string & getDescription() const;', 'std::string getDescription() const;'), (S + 'setup/Dictionary.cpp', 'const string & Dictionary::getDescription() const {', 'string Dictionary::getDescription() const {'))
bug('C09', 'message not copied', (S + 'grammar/error.cpp', '	return utils::StringUtils::copy(voikko_error_message_cstr(error->getErrorCode(), language));', '	return voikko_error_message_cstr(error->getErrorCode(), language);'))
bug('C09', 'value of absent key', (S + 'morphology/interface.cpp', '	else {\n		return 0;\n	}\n}\n\nVOIKKOEXPORT void voikko_free_mor', '	else {\n		return const_cast<char *>("");\n	}\n}\n\nVOIKKOEXPORT void voikko_free_mor'))
bug('C09', 'empty hyphenation', (S + 'hyphenator/interface.cpp', '	size_t wlen = wcslen(word);\n	\n', '	size_t wlen = wcslen(word);\n	if (wlen == 0) {\n		static char none[] = "";\n		return none;\n	}\n'))
bug('C09', 'suggestions released with free', (S + 'spellchecker/suggestions.cpp', '		for (char ** p = suggest_result; *p; p++) {\n			delete[] *p;\n		}', '		for (char ** p = suggest_result; *p; p++) {\n			free(*p);\n		}'))
bug('C09', 'hyphenation of deprecated ucs4', (S + 'compatibility/interface.cpp', '	char * hyphenation = voikkoHyphenateUcs4(handles[handle], word);\n	utils::StringUtils::convertCStringToMalloc(hyphenation);\n	return hyphenation;', '	return voikkoHyphenateUcs4(handles[handle], word);'))
bug('C09', 'free keeps array', (S + 'morphology/interface.cpp', '		delete *i;\n	}\n	delete[] analysis;', '		delete *i;\n	}\n	if (*analysis) {\n		delete[] analysis;\n	}'))
bug('C09', 'suggestion list of constants', (S + 'morphology/interface.cpp', '	if (attributeValues.empty()) {\n		return nullptr;\n	}', '	if (attributeValues.empty()) {\n		static char * none[] = { nullptr };\n		return none;\n	}'))
bug('C09', 'grammar error free', (S + 'grammar/interface.cpp', '	delete error;\n', '	free(error);\n'))
bug('C09', 'key array of other analysis', (S + 'morphology/Analysis.cpp', '	return const_cast<const char **>(keys);', '	static const char * none[] = { 0 };\n	return keys ? const_cast<const char **>(keys) : none;'))
CASES.pop()

J = JD + 'Voikko.java'
PYF = 'python/libvoikko.py'
CS = 'cs/libvoikko/Voikko.cs'
JSF = 'js/libvoikko_api.js'
JVF = 'java/src/main/java/org/puimula/libvoikko/Voikko.java'
bug('C11', 'java token order', (JD + 'TokenType.java', '    PUNCTUATION(2),\n    /** Whitespace */\n    WHITESPACE(3),', '    WHITESPACE(3),\n    /** Whitespace */\n    PUNCTUATION(2),'))
bug('C11', 'java sentence order', (JD + 'SentenceStartType.java', '    PROBABLE,', '    PROBABLY,'), (JD + 'SentenceStartType.java', '    POSSIBLE;', '    PROBABLE;'))
bug('C11', 'java constructor fields', (JD + 'GrammarError.java', 'this.startPos = startPos;\n        this.errorLen = errorLen;', 'this.startPos = errorLen;\n        this.errorLen = startPos;'))
bug('C11', 'java getter', (JD + 'GrammarError.java', 'public int getErrorLen() {\n        return errorLen;', 'public int getErrorLen() {\n        return startPos;'))
bug('C11', 'java argument order', (J, 'offset + startPos, errorLength, suggestions', 'errorLength, offset + startPos, suggestions'))
bug('C11', 'java dictionary', (J, 'lib.voikko_dict_variant(cDict).toString(), lib.voikko_dict_description(cDict).toString()', 'lib.voikko_dict_description(cDict).toString(), lib.voikko_dict_variant(cDict).toString()'))
bug('C11', 'java inverted', (J, 'setBoolOption(11, value);', 'setBoolOption(11, !value);'))
bug('C11', 'java ocr', (J, 'setBoolOption(8, true);', 'setBoolOption(8, false);'))
bug('C11', 'python unfinished', (PYF, 'self.setBooleanOption(14, value)', 'self.setBooleanOption(13, value)'))
bug('C11', 'python value', (PYF, 'self.setIntegerOption(17, value)', 'self.setIntegerOption(17, max(0, value))'))
bug('C11', 'python strategy', (PYF, 'self.setBooleanOption(8, True)', 'self.setBooleanOption(8, False)'))
bug('C11', 'python length', (PYF, 'errorLen=self.__lib.voikkoGetGrammarErrorLength(cGrammarError)', 'errorLen=self.__lib.voikkoGetGrammarErrorStartPos(cGrammarError)'))
bug('C11', 'cs option', (CS, 'set { setBoolOption(15, value); }', 'set { setBoolOption(4, value); }'))
bug('C11', 'cs token', ('cs/libvoikko/TokenType.cs', 'PUNCTUATION = 2', 'PUNCTUATION = 3'), ('cs/libvoikko/TokenType.cs', 'WHITESPACE = 3', 'WHITESPACE = 2'))
bug('C11', 'cs fields', ('cs/libvoikko/GrammarError.cs', 'this.errorLen = errorLen;', 'this.errorLen = startPos;'))
bug('C11', 'cs integer to boolean', (CS, 'Libvoikko.voikkoSetIntegerOption(handle, option, val)', 'Libvoikko.voikkoSetBooleanOption(handle, option, val)'))
bug('C11', 'cs type', (CS, 'public static extern int voikkoSetIntegerOption(IntPtr handle, int option, int val);', 'public static extern int voikkoSetIntegerOption(IntPtr handle, int option, byte val);'))
bug('C11', 'js tokens', (JSF, '["NONE", "WORD", "PUNCTUATION", "WHITESPACE", "UNKNOWN"]', '["NONE", "WORD", "WHITESPACE", "PUNCTUATION", "UNKNOWN"]'))
bug('C11', 'js sentences', (JSF, '["NONE", "NO_START", "PROBABLE", "POSSIBLE"]', '["NONE", "NO_START", "POSSIBLE", "PROBABLE"]'))
bug('C11', 'lisp option', ('cl/constants.lisp', '(:accept-titles-in-gc . 13)', '(:accept-titles-in-gc . 14)'))
bug('C11', 'lisp code', ('cl/constants.lisp', '(defconstant +voikko-internal-error+ 2)', '(defconstant +voikko-internal-error+ 3)'))
bug('C11', 'js spell code', (JSF, 'c_spellCstr(handle, word) == 1', 'c_spellCstr(handle, word) != 0'))


bug('C11', 'java spell code', (JVF, 'return (spellResult == Libvoikko.VOIKKO_SPELL_OK);', 'return (spellResult != Libvoikko.VOIKKO_SPELL_FAILED);'))
bug('C11', 'cs spell code', (CS, 'return (spellResult == Libvoikko.VOIKKO_SPELL_OK);', 'return (spellResult > 0);'))
bug('C11', 'python spell code', (PYF, 'elif result == 1:\n            return True', 'elif result == 1 or result == 3:\n            return True'))
bug('C11', 'js spell truthy', (JSF, 'c_spellCstr(handle, word) == 1', 'c_spellCstr(handle, word)'))
same('C11', 'js spell if', (JSF, 'return isValidInput(word) && c_spellCstr(handle, word) == 1;', 'if (!isValidInput(word)) { return false; }\n var r = c_spellCstr(handle, word);\n return r === 1 ? true : false;'))
same('C11', 'python spell one', (PYF, 'if result == 0:\n            return False\n        elif result == 1:\n            return True', 'if result in (0, 1):\n            return bool(result)'))
