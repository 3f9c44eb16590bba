"""Third set of source variants, written from the property statements alone."""
import sys
_c = sys.modules.get('cases') or __import__('cases')
bug, same, S = _c.bug, _c.same, _c.S
U = S + 'fst/UnweightedTransducer.cpp'
W = S + 'fst/WeightedTransducer.cpp'
SP = S + 'spellchecker/spell.cpp'
SU = S + 'spellchecker/suggestions.cpp'
SET = S + 'setup/setup.cpp'
TW = S + 'spellchecker/FinnishSpellerTweaksWrapper.cpp'
GC = S + 'grammar/GrammarChecker.cpp'
GI = S + 'grammar/interface.cpp'
MI = S + 'morphology/interface.cpp'
HI = S + 'hyphenator/interface.cpp'
HY = S + 'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp'
VA = S + 'morphology/VfstAnalyzer.cpp'
FA = S + 'morphology/FinnishVfstAnalyzer.cpp'
AC = S + 'grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp'
VS = S + 'spellchecker/VfstSuggestion.cpp'
SE = S + 'sentence/Sentence.cpp'
V5 = S + 'setup/V5DictionaryLoader.cpp'
CO = S + 'compatibility/interface.cpp'

# ---------------------------------------------------------------- C03
bug('C03', 'flags reset only after completed search', (U, "		if (flagDiacriticFeatureCount) {\n			// previous", "		if (flagDiacriticFeatureCount && inputLen > 1) {\n			// previous"))
bug('C03', 'flag depth kept when nothing pending', (U, "		configuration->flagDepth = 0;\n", "		if (configuration->stackDepth > 0) {\n			configuration->flagDepth = 0;\n		}\n"))
bug('C03', 'restore flag before popping', (U, "					configuration->flagDepth--;\n					configuration->currentFlagValues[configuration->updatedFlagFeature[configuration->flagDepth]] = configuration->updatedFlagValue[configuration->flagDepth];", "					configuration->currentFlagValues[configuration->updatedFlagFeature[configuration->flagDepth]] = configuration->updatedFlagValue[configuration->flagDepth];\n					configuration->flagDepth--;"))
bug('C03', 'flag restored to neutral', (U, "= configuration->updatedFlagValue[configuration->flagDepth];", "= FlagValueNeutral;"))
bug('C03', 'autocorrect prepared once', (AC, "		transducer->prepare(configuration, inputBuffer + position, sentenceLengthUtf - position);\n", "		if (position == 0) transducer->prepare(configuration, inputBuffer + position, sentenceLengthUtf - position);\n"))
bug('C03', 'acceptor not prepared for repeated prefix', (VS, "if (acceptor->prepare(acceptorConf, errorModelBuffer, wcslen(errorModelBuffer))) {", "if (wcslen(errorModelBuffer) == 0 || acceptor->prepare(acceptorConf, errorModelBuffer, wcslen(errorModelBuffer))) {"))
bug('C03', 'weighted input depth pop guarded', (W, "				if (previousInputSymbol >= firstNormalChar) {\n					configuration->inputDepth--;\n				}\n				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {\n					configuration->flagDepth--;\n				}\n			}\n			configuration->currentTransitionStack[configuration->stackDepth]++;\n			nextInMainLoop:", "				if (previousInputSymbol >= firstNormalChar) {\n					if (configuration->inputDepth < configuration->inputLength) {\n						configuration->inputDepth--;\n					}\n				}\n				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {\n					configuration->flagDepth--;\n				}\n			}\n			configuration->currentTransitionStack[configuration->stackDepth]++;\n			nextInMainLoop:"))
bug('C03', 'flag level copied only on update', (W, "		memcpy(currentFlagArray + flagDiacriticFeatureCount, currentFlagArray, diacriticCell);\n		if (update) {", "		if (update) {\n			memcpy(currentFlagArray + flagDiacriticFeatureCount, currentFlagArray, diacriticCell);"))
bug('C03', 'flag level copy too short', (W, "size_t diacriticCell = flagDiacriticFeatureCount * sizeof(uint32_t);", "size_t diacriticCell = flagDiacriticFeatureCount * sizeof(uint16_t);"))
bug('C03', 'speller remembers failures', (S + 'spellchecker/VfstSpeller.hpp', "		wchar_t * outputBuffer;", "		wchar_t * outputBuffer;\n		bool lastFailed = false;"), (S + 'spellchecker/VfstSpeller.cpp', "	spellresult result = doSpell(word, wlen);\n	if (result == SPELL_FAILED && SimpleChar::isLower(word[0])) {", "	spellresult result = doSpell(word, wlen);\n	bool retry = !lastFailed;\n	lastFailed = (result == SPELL_FAILED);\n	if (result == SPELL_FAILED && retry && SimpleChar::isLower(word[0])) {"))
bug('C03', 'hyphenator remembers dot', (S + 'hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp', "		bool ignoreDot;", "		bool ignoreDot;\n		bool dotSeen = false;"), (HY, "	bool dotRemoved = false;\n	char ** hyphenations = splitCompounds(word, wlen, &dotRemoved);\n	if (hyphenations == 0) {\n		return 0;\n	}\n	assert(hyphenations[0]);\n	\n	int i = 0;\n	while (hyphenations[i] != 0) {\n		compoundHyphenation(word, hyphenations[i++], wlen - (dotRemoved ? 1 : 0));\n	}\n	\n	char * hyphenation = intersect", "	bool & dotRemoved = dotSeen;\n	char ** hyphenations = splitCompounds(word, wlen, &dotRemoved);\n	if (hyphenations == 0) {\n		return 0;\n	}\n	assert(hyphenations[0]);\n	\n	int i = 0;\n	while (hyphenations[i] != 0) {\n		compoundHyphenation(word, hyphenations[i++], wlen - (dotRemoved ? 1 : 0));\n	}\n	\n	char * hyphenation = intersect"))
same('C03', 'flag depth reset with flags', (U, "		configuration->flagDepth = 0;\n", ""), (U, "			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));", "			configuration->flagDepth = 0;\n			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));"))
same('C03', 'reset in loop', (U, "			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));", "			for (uint16_t feature = 0; feature < flagDiacriticFeatureCount; feature++) {\n				configuration->currentFlagValues[feature] = 0;\n			}"))
same('C03', 'fill_n', (U, "			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));", "			std::fill_n(configuration->currentFlagValues, flagDiacriticFeatureCount, 0);"), (U, "#include <fcntl.h>", "#include <algorithm>\n#include <fcntl.h>"))

# ---------------------------------------------------------------- C04
bug('C04', 'restored only when token found', (SE, "		options->ignore_dot = ignore_dot_saved;\n		if (end_found", "		if (token != TOKEN_NONE) {\n			options->ignore_dot = ignore_dot_saved;\n		}\n		if (end_found"))
bug('C04', 'saved inside loop after first change', (SE, "	while (token != TOKEN_NONE && textlen > slen) {\n		int ignore_dot_saved = options->ignore_dot;\n		options->ignore_dot = 0;", "	options->ignore_dot = 0;\n	while (token != TOKEN_NONE && textlen > slen) {\n		int ignore_dot_saved = options->ignore_dot;\n		options->ignore_dot = 0;"))
bug('C04', 'boolean restore loses value', (SU, "	generator->generate(&status);\n", "	bool savedHyphens = options->accept_extra_hyphens > 1;\n	options->accept_extra_hyphens = 1;\n	generator->generate(&status);\n	options->accept_extra_hyphens = savedHyphens;\n"))
bug('C04', 'spell forces missing hyphens on retry', (SP, "		spellresult result = hyphenAwareSpell(voikkoOptions, buffer, len);\n		cache->setSpellResult", "		spellresult result = hyphenAwareSpell(voikkoOptions, buffer, len);\n		if (result == SPELL_FAILED && len > 30) {\n			voikkoOptions->accept_missing_hyphens = 0;\n		}\n		cache->setSpellResult"))
bug('C04', 'gc drops bulleted lists', (GC, "	Paragraph * para = paragraphAnalyser->analyseParagraph(text, textlen);\n	if (!para) {\n		return;", "	Paragraph * para = paragraphAnalyser->analyseParagraph(text, textlen);\n	if (!para) {\n		return;") if False else (SE, "	*sentencelen = textlen;\n	return SENTENCE_NONE;", "	*sentencelen = textlen;\n	if (in_quotation) {\n		options->accept_titles_in_gc = 0;\n	}\n	return SENTENCE_NONE;"))
bug('C04', 'analysis resets hyphenator length', (MI, "	Analyzer * analyzer = options->morAnalyzer;", "	if (wcslen(word) < 2) {\n		options->hyphenator->setMinHyphenatedWordLength(2);\n	}\n	Analyzer * analyzer = options->morAnalyzer;"), (MI, '#include "porting.h"', '#include "porting.h"\n#include "hyphenator/Hyphenator.hpp"'))

# ---------------------------------------------------------------- C06
bug('C06', 'swprintf of weight', (VA, "			ss.imbue(std::locale::classic());\n			ss << setprecision(9) << logWeightToProb(weight);\n			string weightStr = ss.str();", "			char weightBuffer[40];\n			snprintf(weightBuffer, sizeof(weightBuffer), \"%.9g\", logWeightToProb(weight));\n			string weightStr = weightBuffer;"), (VA, "#include <cmath>", "#include <cmath>\n#include <cstdio>"))
bug('C06', 'hashing pointer order', (VS, "	bool operator<(const WeightedSuggestion & right) const {\n		return weight > right.weight;", "	bool operator<(const WeightedSuggestion & right) const {\n		if (weight == right.weight) {\n			return suggestion > right.suggestion;\n		}\n		return weight > right.weight;"))
bug('C06', 'reread dictionary on demand', (SU, "	SuggestionStatus status(nword, wlen, MAX_SUGGESTIONS * 3);", "	FILE * blocked = fopen(\"/etc/voikko-blocked\", \"r\");\n	if (blocked) {\n		fclose(blocked);\n		delete[] nword;\n		return 0;\n	}\n	SuggestionStatus status(nword, wlen, MAX_SUGGESTIONS * 3);"), (SU, "#include <cwchar>", "#include <cwchar>\n#include <cstdio>"))
bug('C06', 'iswspace', (S + 'character/charset.cpp', "	if (SimpleChar::isWhitespace(c)) {", "	if (SimpleChar::isWhitespace(c) || (c > 0x2000 && iswspace(c))) {"), (S + 'character/charset.cpp', "#include <cwchar>", "#include <cwchar>\n#include <cwctype>"))
bug('C06', 'uninitialised hyphenation buffer', (HY, "		char * hyphenation = new char[wlen + 1];\n		memset(hyphenation, ' ', wlen);\n		hyphenation[wlen] = '\\0';\n		return hyphenation;\n	}\n	\n	bool dotRemoved = false;\n	char ** hyphenations = splitCompounds(word, wlen, &dotRemoved);\n	if (hyphenations == 0) {\n		return 0;\n	}\n	assert(hyphenations[0]);\n	\n	int i = 0;\n	while (hyphenations[i] != 0) {\n		compoundHyphenation(word, hyphenations[i++], wlen - (dotRemoved ? 1 : 0));\n	}\n	\n	char * hyphenation = intersect", "		char * hyphenation = new char[wlen + 1];\n		hyphenation[wlen] = '\\0';\n		return hyphenation;\n	}\n	\n	bool dotRemoved = false;\n	char ** hyphenations = splitCompounds(word, wlen, &dotRemoved);\n	if (hyphenations == 0) {\n		return 0;\n	}\n	assert(hyphenations[0]);\n	\n	int i = 0;\n	while (hyphenations[i] != 0) {\n		compoundHyphenation(word, hyphenations[i++], wlen - (dotRemoved ? 1 : 0));\n	}\n	\n	char * hyphenation = intersect"))

# ---------------------------------------------------------------- C10
bug('C10', 'negative means false', (SET, "options->ignore_uppercase = (value ? 1 : 0);", "options->ignore_uppercase = (value > 0 ? 1 : 0);"))
bug('C10', 'min length clamped', (SET, "			options->hyphenator->setMinHyphenatedWordLength(value);", "			if (value > 255) {\n				value = 255;\n			}\n			options->hyphenator->setMinHyphenatedWordLength(value);"))
bug('C10', 'min length refused', (SET, "			options->hyphenator->setMinHyphenatedWordLength(value);\n			return 1;", "			if (value < 1) {\n				return 0;\n			}\n			options->hyphenator->setMinHyphenatedWordLength(value);\n			return 1;"))
bug('C10', 'no change returns 0', (SET, "			handle->grammarChecker->cache.clear();\n		}\n		return 1;\n}\n\nVOIKKOEXPORT int voikkoSetBooleanOption", "			handle->grammarChecker->cache.clear();\n			return 1;\n		}\n		return 0;\n}\n\nVOIKKOEXPORT int voikkoSetBooleanOption"))
bug('C10', 'ugly hyphenation also sets unknown', (HY, "	this->uglyHyphenation = uglyHyphenation;", "	this->uglyHyphenation = uglyHyphenation;\n	hyphenateUnknown = hyphenateUnknown && uglyHyphenation;"))
bug('C10', 'ocr resets other option', (SET, "			options->suggestionGenerator = generator;\n			return 1;", "			options->suggestionGenerator = generator;\n			options->ignore_nonwords = 1;\n			return 1;"))
bug('C10', 'tokenizer ignores ignore_dot', (S + 'tokenizer/Tokenizer.cpp', "	if (options->ignore_dot) {", "	if (options->ignore_nonwords) {"))
bug('C10', 'cache only grows', (SET, "				if (options->spellerCache->getSizeParam() != value) {", "				if (options->spellerCache->getSizeParam() < value || value < 0) {"))
bug('C10', 'negative cache keeps', (SET, "				if (options->spellerCache->getSizeParam() != value) {", "				if (value >= 0 && options->spellerCache->getSizeParam() != value) {"))
bug('C10', 'titles default', (SET, "	options->accept_titles_in_gc = 0;", "	options->accept_titles_in_gc = 1;"))

# ---------------------------------------------------------------- C17
bug('C17', 'substr past end', (V5, "		string variantName = dirName.substr(4);", "		string variantName = dirName.substr(5);"))
bug('C17', 'substr of script', (S + 'setup/LanguageTag.cpp', "	if (script.length() == 4) {\n		this->script = script;", "	if (script.length() == 4 || script.substr(4, 1) == \"-\") {\n		this->script = script.substr(0, 4);"))
bug('C17', 'at on attribute map', (S + 'morphology/Analysis.cpp', "	std::map<std::string, voikko_mor_analysis::Key>::const_iterator keyI = STRING_TO_KEY.find(std::string(key));\n	if (keyI == STRING_TO_KEY.end()) {\n		return nullptr;\n	}\n	else {\n		return this->getValue(keyI->second);\n	}", "	return this->getValue(STRING_TO_KEY.at(std::string(key)));"))
bug('C17', 'dictionary_exception in option', (SET, "			catch (DictionaryException &) {\n				return 0;\n			}\n			options->suggestionGenerator->terminate();", "			catch (DictionaryException &) {\n				if (type == spellchecker::suggestion::SUGGESTION_TYPE_STD) {\n					throw;\n				}\n				return 0;\n			}\n			options->suggestionGenerator->terminate();"))
bug('C17', 'exception outside try', (SET, "	try {\n		options->morAnalyzer = 0;\n		options->speller = 0;\n		Dictionary dict;\n		if (path) {\n			dict = DictionaryFactory::load(string(langcode), string(path));\n		}\n		else {\n			dict = DictionaryFactory::load(string(langcode));\n		}\n", "	Dictionary dict;\n	if (path) {\n		dict = DictionaryFactory::load(string(langcode), string(path));\n	}\n	else {\n		dict = DictionaryFactory::load(string(langcode));\n	}\n	try {\n		options->morAnalyzer = 0;\n		options->speller = 0;\n"))
bug('C17', 'throw in terminate', (U, "	UnweightedTransducer::~UnweightedTransducer() {\n", "	static void checkEmpty(size_t n) {\n		if (n == 0) {\n			throw setup::DictionaryException(\"empty\");\n		}\n	}\n	\n	UnweightedTransducer::~UnweightedTransducer() {\n		checkEmpty(symbolToString.size());\n"))
bug('C17', 'std exception for unknown backend', (S + 'morphology/AnalyzerFactory.cpp', 'throw setup::DictionaryException("Failed to create analyzer because of unknown morphology backend");', 'throw std::runtime_error("unknown backend " + morBackend);'), (S + 'morphology/AnalyzerFactory.cpp', '#include "porting.h"', '#include "porting.h"\n#include <stdexcept>'))

# ---------------------------------------------------------------- C18
bug('C18', 'message in local buffer', (SET, "		*error = e.what();\n		delete options;", "		static char message[200];\n		char local[200];\n		snprintf(local, sizeof(local), \"%s\", e.what());\n		*error = local;\n		(void) message;\n		delete options;"), (SET, '#include "setup/setup.hpp"', '#include "setup/setup.hpp"\n#include <cstdio>'))
bug('C18', 'hyphenator not deleted on failure', (SET, "			options->hyphenator->terminate();\n			delete options->hyphenator;\n			options->hyphenator = 0;\n		}", "			options->hyphenator->terminate();\n			options->hyphenator = 0;\n		}"))
bug('C18', 'handle leaked on failure', (SET, "		*error = e.what();\n		delete options;\n		return 0;", "		*error = e.what();\n		return 0;"))
bug('C18', 'generator terminated only', (SET, "			options->suggestionGenerator->terminate();\n			delete options->suggestionGenerator;\n			options->suggestionGenerator = generator;", "			options->suggestionGenerator->terminate();\n			options->suggestionGenerator = generator;"))
bug('C18', 'grammar checker first then throw', (SET, "		options->grammarChecker = grammar::GrammarCheckerFactory::getGrammarChecker(options, dict);\n	}", "		options->grammarChecker = grammar::GrammarCheckerFactory::getGrammarChecker(options, dict);\n		if (dict.getLanguage().getLanguage().empty()) {\n			throw DictionaryException(\"Dictionary has no language\");\n		}\n	}"))
bug('C18', 'terminated after delete order', (SET, "	handle->speller->terminate();\n	delete handle->speller;", "	delete handle->speller;"))
bug('C18', 'cache missing on init', (SET, "	options->spellerCache = new spellchecker::SpellerCache(0);\n	*error = 0;", "	*error = 0;"))
bug('C18', 'generator destroyed before replacement exists', (SET, "			catch (DictionaryException &) {\n				return 0;\n			}\n			options->suggestionGenerator->terminate();", "			catch (DictionaryException &) {\n				options->suggestionGenerator->terminate();\n				delete options->suggestionGenerator;\n				options->suggestionGenerator = 0;\n				return 0;\n			}\n			options->suggestionGenerator->terminate();"))
bug('C18', 'autocorrect transducer unmapped never', (AC, "	if (transducer) {\n		transducer->terminate();\n		delete transducer;\n	}", "	if (transducer && transducer->getFlagDiacriticFeatureCount()) {\n		transducer->terminate();\n	}\n	delete transducer;"))
