S = 'src/'
CASES = []


def bug(p, title, *edits):
    CASES.append((p, 'bug', title, list(edits)))


def same(p, title, *edits):
    CASES.append((p, 'same', title, list(edits)))


# ---- C01
bug('C01', 'all-uppercase option without cache clear', (S + 'setup/setup.cpp', '''			return setSpellerOption(options, value,
			       &(options->accept_all_uppercase));''', '''			options->accept_all_uppercase = (value ? 1 : 0);
			return 1;'''))
bug('C01', 'clear only when enabling', (S + 'setup/setup.cpp', 'if (handle->spellerCache) {', 'if (handle->spellerCache && newValue) {'))
# ---- C02
bug('C02', 'grammar option cleared only when enabling', (S + 'setup/setup.cpp', '''			*option = 0;
			handle->grammarChecker->cache.clear();''', '''			*option = 0;'''))
bug('C02', 'titles option set directly', (S + 'setup/setup.cpp', '''			return setGrammarOption(options, value,
			       &(options->accept_titles_in_gc));''', '''			options->accept_titles_in_gc = (value ? 1 : 0);
			return 1;'''))
bug('C02', 'prefix comparison', (S + 'grammar/GrammarChecker.cpp', '''cache.paragraphLength != textlen ||''', ''))
bug('C02', 'length comparison only', (S + 'grammar/GrammarChecker.cpp', '''cache.paragraphLength != textlen ||
	    memcmp(cache.paragraph, text, textlen * sizeof(wchar_t)) != 0''', 'cache.paragraphLength != textlen'))
bug('C02', 'clear keeps error list', (S + 'grammar/GcCache.cpp', '''	firstError = 0;
}''', '''}'''))
bug('C02', 'no clear before refill', (S + 'grammar/GrammarChecker.cpp', '''	cache.clear();
	cache.paragraph = new''', '''	delete[] cache.paragraph;
	cache.paragraph = new'''))
bug('C02', 'new dependency: sentence rule reads ignore_numbers', (S + 'grammar/FinnishAnalysis.cpp', '''		token->firstLetterLcase = false;
		token->isConjunction''', '''		token->firstLetterLcase = voikkoOptions->ignore_numbers;
		token->isConjunction'''))
bug('C02', 'ignore_dot no longer overridden', (S + 'grammar/FinnishAnalysis.cpp', '''		voikkoOptions->ignore_dot = 0;
''', ''))
same('C02', 'helper for the comparison', (S + 'grammar/GrammarChecker.cpp', '''	if (cache.paragraphLength != textlen ||
	    memcmp(cache.paragraph, text, textlen * sizeof(wchar_t)) != 0) {
		return 0;
	}''', '''	bool same = cache.paragraphLength == textlen &&
	    memcmp(cache.paragraph, text, textlen * sizeof(wchar_t)) == 0;
	if (!same) {
		return 0;
	}'''))
same('C02', 'nested if comparison', (S + 'grammar/GrammarChecker.cpp', '''	if (cache.paragraphLength != textlen ||
	    memcmp(cache.paragraph, text, textlen * sizeof(wchar_t)) != 0) {
		return 0;
	}''', '''	if (cache.paragraphLength != textlen) {
		return 0;
	}
	for (size_t i = 0; i < textlen; i++) {
		if (cache.paragraph[i] != text[i]) {
			return 0;
		}
	}'''))
same('C02', 'simplified setter', (S + 'setup/setup.cpp', '''		if (value && !(*option)) {
			*option = 1;
			handle->grammarChecker->cache.clear();
		}
		else if (!value && (*option)) {
			*option = 0;
			handle->grammarChecker->cache.clear();
		}
		return 1;''', '''		int wanted = value ? 1 : 0;
		if (wanted == *option) {
			return 1;
		}
		*option = wanted;
		handle->grammarChecker->cache.clear();
		return 1;'''))
same('C02', 'guard object for ignore_dot', (S + 'grammar/FinnishAnalysis.cpp', '''		int ignore_dot_saved = voikkoOptions->ignore_dot;
		voikkoOptions->ignore_dot = 0;''', '''		struct G { VoikkoHandle * h; int old; G(VoikkoHandle * x) : h(x), old(x->ignore_dot) { h->ignore_dot = 0; } ~G() { h->ignore_dot = old; } };
		G guard(voikkoOptions);'''), (S + 'grammar/FinnishAnalysis.cpp', '''		voikkoOptions->ignore_dot = ignore_dot_saved;
''', ''))
# ---- C04
bug('C04', 'restore skipped on early return', (S + 'sentence/Sentence.cpp', '''		options->ignore_dot = ignore_dot_saved;
''', '''		if (token == TOKEN_NONE) return SENTENCE_NONE;
		options->ignore_dot = ignore_dot_saved;
'''))
bug('C04', 'restore to constant', (S + 'grammar/FinnishAnalysis.cpp', 'voikkoOptions->ignore_dot = ignore_dot_saved;', 'voikkoOptions->ignore_dot = (ignore_dot_saved == 0);'))
bug('C04', 'hyphenator setting toggled', (S + 'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp', 'if (wlen < minHyphenatedWordLength) {', 'if (wlen > 200) hyphenateUnknown = false;\n	if (wlen < minHyphenatedWordLength) {'))
same('C04', 'guard object', (S + 'grammar/FinnishAnalysis.cpp', '''		int ignore_dot_saved = voikkoOptions->ignore_dot;
		voikkoOptions->ignore_dot = 0;''', '''		struct G { VoikkoHandle * h; int old; G(VoikkoHandle * x) : h(x), old(x->ignore_dot) { h->ignore_dot = 0; } ~G() { h->ignore_dot = old; } };
		G guard(voikkoOptions);'''), (S + 'grammar/FinnishAnalysis.cpp', '''		voikkoOptions->ignore_dot = ignore_dot_saved;
''', ''))
same('C04', 'swap helper', (S + 'grammar/FinnishAnalysis.cpp', '''void FinnishAnalysis::analyseToken(''', '''static int swapDot(VoikkoHandle * h, int v) { int o = h->ignore_dot; h->ignore_dot = v; return o; }
void FinnishAnalysis::analyseToken('''), (S + 'grammar/FinnishAnalysis.cpp', '''		int ignore_dot_saved = voikkoOptions->ignore_dot;
		voikkoOptions->ignore_dot = 0;''', '''		int ignore_dot_saved = swapDot(voikkoOptions, 0);'''), (S + 'grammar/FinnishAnalysis.cpp', '''		voikkoOptions->ignore_dot = ignore_dot_saved;
''', '''		swapDot(voikkoOptions, ignore_dot_saved);
'''))
# ---- C05
bug('C05', 'static scratch buffer', (S + 'spellchecker/spell.cpp', '''	wchar_t * buffer = new wchar_t[nchars + 1];''', '''	static wchar_t shared[256];
	wchar_t * buffer = nchars < 256 ? shared : new wchar_t[nchars + 1];''') if False else (S + 'tokenizer/Tokenizer.cpp', 'voikko_token_type Tokenizer::nextToken(', '''static wchar_t scratch[64];
static void remember(wchar_t * b, const wchar_t * t) { b[0] = t[0]; }
voikko_token_type Tokenizer::nextToken('''), (S + 'tokenizer/Tokenizer.cpp', '''	if (textlen == 0) {''', '''	remember(scratch, text);
	if (textlen == 0) {'''))
bug('C05', 'static local counter', (S + 'hyphenator/Hyphenator.cpp', None, None) if False else (S + 'sentence/Sentence.cpp', '	voikko_token_type token = TOKEN_WORD;', '	static int calls = 0;\n	calls++;\n	voikko_token_type token = TOKEN_WORD;'))
bug('C05', 'static local cache map', (S + 'sentence/Sentence.cpp', '	voikko_token_type token = TOKEN_WORD;', '	static std::list<int> calls;\n	calls.push_back(1);\n	voikko_token_type token = TOKEN_WORD;'), (S + 'sentence/Sentence.cpp', '#include "sentence/Sentence.hpp"', '#include "sentence/Sentence.hpp"\n#include <list>'))
bug('C05', 'strtok in init', (S + 'setup/LanguageTag.cpp', '#include "setup/LanguageTag.hpp"', '#include "setup/LanguageTag.hpp"\n#include <cstring>'), (S + 'setup/LanguageTag.cpp', 'void LanguageTag::setBcp47(const string & bcp) {', 'void LanguageTag::setBcp47(const string & bcp) {\n	char b[10] = "a-b"; strtok(b, "-");'))
same('C05', 'const static local', (S + 'sentence/Sentence.cpp', '	voikko_token_type token = TOKEN_WORD;', '	static const int limit = 3;\n	static const wchar_t * const q = L"ab";\n	(void) limit; (void) q;\n	voikko_token_type token = TOKEN_WORD;'))
bug('C05', 'shared configuration object', (S + 'morphology/VfstAnalyzer.cpp', '	configuration = new WeightedConfiguration(transducer->getFlagDiacriticFeatureCount(), BUFFER_SIZE);', '	static WeightedConfiguration * const shared = new WeightedConfiguration(transducer->getFlagDiacriticFeatureCount(), BUFFER_SIZE);\n	configuration = shared;'))
# ---- C06
bug('C06', 'towlower in case mapping', (S + 'character/SimpleChar.cpp', '#include "character/SimpleChar.hpp"', '#include "character/SimpleChar.hpp"\n#include <cwctype>'), (S + 'character/SimpleChar.cpp', 'wchar_t SimpleChar::lower(wchar_t input) {', 'wchar_t SimpleChar::lower(wchar_t input) {\n	if (input > 0x2000) return towlower(input);'))
bug('C06', 'stream without imbue', (S + 'morphology/VfstAnalyzer.cpp', '			ss.imbue(std::locale::classic());\n', ''))
bug('C06', 'getenv in suggestions', (S + 'spellchecker/suggestions.cpp', 'VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(', '#include <cstdlib>\nstatic bool dbg() { return std::getenv("VOIKKO_X") != 0; }\nVOIKKOEXPORT wchar_t ** voikkoSuggestUcs4('), (S + 'spellchecker/suggestions.cpp', '''	if (options->ignore_dot) {''', '''	if (options->ignore_dot && !dbg()) {'''))
same('C06', 'std::move helpers', (S + 'morphology/VfstAnalyzer.cpp', 'string weightStr = ss.str();', 'string weightStr(ss.str());'))
# ---- C03
U, Wt = S + 'fst/UnweightedTransducer.cpp', S + 'fst/WeightedTransducer.cpp'
FA = S + 'morphology/FinnishVfstAnalyzer.cpp'
bug('C03', 'flag values not reset', (U, '''			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));
''', ''))
bug('C03', 'flag values half reset', (U, '''flagDiacriticFeatureCount * sizeof(uint16_t));
		}
		bool''', '''flagDiacriticFeatureCount);
		}
		bool'''))
bug('C03', 'input depth not reset', (U, '''		configuration->inputDepth = 0;
		configuration->stateIndexStack[0]''', '''		configuration->stateIndexStack[0]'''))
bug('C03', 'current transition not reset', (Wt, '''		configuration->currentTransitionStack[0] = 0;
''', ''))
bug('C03', 'flag depth reset only when input nonempty', (Wt, '''		configuration->flagDepth = 0;
''', '''		if (inputLen) configuration->flagDepth = 0;
'''))
bug('C03', 'flag depth not popped', (U, '''					configuration->flagDepth--;
''', ''))
bug('C03', 'flag popped for epsilon too', (U, '''else if (flagDiacriticFeatureCount && previousInputSymbol != 0)''', '''else if (flagDiacriticFeatureCount)'''))
bug('C03', 'pop boundary', (Wt, '''				if (previousInputSymbol >= firstNormalChar) {
					configuration->inputDepth--;
				}
				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
					configuration->flagDepth--;
				}
			}
			configuration->currentTransitionStack[configuration->stackDepth]++;
		}''', '''				if (previousInputSymbol > firstNormalChar) {
					configuration->inputDepth--;
				}
				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
					configuration->flagDepth--;
				}
			}
			configuration->currentTransitionStack[configuration->stackDepth]++;
		}'''))
bug('C03', 'old flag value saved after update', (U, '''		configuration->updatedFlagValue[configuration->flagDepth] = currentFlagArray[ofv.feature];
		if (update) {
			DEBUG("updating feature " << ofv.feature << " to " << ofv.value)
			currentFlagArray[ofv.feature] = ofv.value;
		}
''', '''		if (update) {
			DEBUG("updating feature " << ofv.feature << " to " << ofv.value)
			currentFlagArray[ofv.feature] = ofv.value;
		}
		configuration->updatedFlagValue[configuration->flagDepth] = currentFlagArray[ofv.feature];
'''))
bug('C03', 'saved only on update', (U, '''		configuration->updatedFlagFeature[configuration->flagDepth] = ofv.feature;
		configuration->updatedFlagValue[configuration->flagDepth] = currentFlagArray[ofv.feature];
		if (update) {''', '''		if (update) {
			configuration->updatedFlagFeature[configuration->flagDepth] = ofv.feature;
			configuration->updatedFlagValue[configuration->flagDepth] = currentFlagArray[ofv.feature];'''))
bug('C03', 'backtrack without flag depth', (Wt, '''				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
					configuration->flagDepth--;
				}
			}
			configuration->currentTransitionStack[configuration->stackDepth]++;
		}''', '''			}
			configuration->currentTransitionStack[configuration->stackDepth]++;
		}'''))
bug('C03', 'weighted flags updated in place', (Wt, '(currentFlagArray + flagDiacriticFeatureCount)[ofv.feature] = ofv.value;', 'currentFlagArray[ofv.feature] = ofv.value;'))
bug('C03', 'prepare skipped for repeated input length', (FA, '''	if (transducer->prepare(configuration, wordLowerUcs4, wlen)) {''', '''	if (wlen == 1 || transducer->prepare(configuration, wordLowerUcs4, wlen)) {'''))
bug('C03', 'remembered last word in the speller', (S + 'spellchecker/VfstSpeller.hpp', '''		fst::WeightedConfiguration * configuration;''', '''		fst::WeightedConfiguration * configuration; size_t lastFailed;'''), (S + 'spellchecker/VfstSpeller.cpp', '''	return result;
}
 
spellresult VfstSpeller::spell''', '''	lastFailed = result == SPELL_FAILED ? wlen : 0;
	return result;
}
 
spellresult VfstSpeller::spell'''))
bug('C03', 'buffer read when nothing found', (S + 'grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp', '''			if (!lowerFirst && position == 0 &&''', '''			if (!lowerFirst && position == 0 && outputBuffer[0] &&'''))
same('C03', 'reset in a helper', (U, '''	bool UnweightedTransducer::prepare(Configuration * configuration, const wchar_t * input, size_t inputLen) const {
		configuration->stackDepth = 0;
		configuration->flagDepth = 0;
		configuration->inputDepth = 0;
		configuration->stateIndexStack[0] = 0;
		configuration->currentTransitionStack[0] = 0;
''', '''	static void resetDepths(Configuration * configuration) {
		configuration->currentTransitionStack[0] = 0;
		configuration->stateIndexStack[0] = 0;
		configuration->inputDepth = 0;
		configuration->flagDepth = 0;
		configuration->stackDepth = 0;
	}
	
	bool UnweightedTransducer::prepare(Configuration * configuration, const wchar_t * input, size_t inputLen) const {
		resetDepths(configuration);
'''))
same('C03', 'loop reset of flags', (U, '''			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));
''', '''			for (uint16_t flag = 0; flag < flagDiacriticFeatureCount; flag++) {
				configuration->currentFlagValues[flag] = 0;
			}
'''))
same('C03', 'pop helper', (U, '''	bool UnweightedTransducer::next(Configuration''', '''	static void popInput(Configuration * configuration, const UnweightedTransducer * t, uint16_t previousInputSymbol, uint16_t first) {
		if (previousInputSymbol < first) {
			if (previousInputSymbol != 0 && t->flagDiacriticFeatureCount) {
				--configuration->flagDepth;
				int depth = configuration->flagDepth;
				configuration->currentFlagValues[configuration->updatedFlagFeature[depth]] = configuration->updatedFlagValue[depth];
			}
			return;
		}
		configuration->inputDepth -= 1;
	}
	
	bool UnweightedTransducer::next(Configuration'''), (U, '''				if (previousInputSymbol >= firstNormalChar) {
					configuration->inputDepth--;
				}
				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
					configuration->flagDepth--;
					configuration->currentFlagValues[configuration->updatedFlagFeature[configuration->flagDepth]] = configuration->updatedFlagValue[configuration->flagDepth];
				}
''', '''				popInput(configuration, this, previousInputSymbol, firstNormalChar);
'''))
same('C03', 'analysis loop rewritten', (FA, '''		while (++analysisCount < MAX_ANALYSIS_COUNT && transducer->next(configuration, outputBuffer, BUFFER_SIZE)) {''', '''		for (;;) {
			if (++analysisCount >= MAX_ANALYSIS_COUNT) {
				break;
			}
			bool found = transducer->next(configuration, outputBuffer, BUFFER_SIZE);
			if (!found) {
				break;
			}'''))
same('C03', 'weighted flags: pointer to next level', (Wt, '''			(currentFlagArray + flagDiacriticFeatureCount)[ofv.feature] = ofv.value;''', '''			uint32_t * nextFlagArray = currentFlagArray + flagDiacriticFeatureCount;
			nextFlagArray[ofv.feature] = ofv.value;'''))
same('C03', 'pop with transition pointer', (Wt, '''				uint16_t previousInputSymbol = (transitionStart + configuration->currentTransitionStack[configuration->stackDepth])->symIn;
				if (previousInputSymbol >= firstNormalChar) {
					configuration->inputDepth--;
				}
				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
					configuration->flagDepth--;
				}
			}
			configuration->currentTransitionStack[configuration->stackDepth]++;
			nextInMainLoop:''', '''				const WeightedTransition * previous = transitionStart + configuration->currentTransitionStack[configuration->stackDepth];
				const bool consumed = previous->symIn >= firstNormalChar;
				if (consumed) {
					configuration->inputDepth--;
				}
				if (!consumed && flagDiacriticFeatureCount > 0 && previous->symIn > 0) {
					configuration->flagDepth--;
				}
			}
			configuration->currentTransitionStack[configuration->stackDepth]++;
			nextInMainLoop:'''))

# ---- C17
bug('C17', 'option handler removed', (S + 'setup/setup.cpp', '''			catch (DictionaryException &) {
				return 0;
			}
			options->suggestionGenerator->terminate();''', '''			catch (std::bad_alloc &) {
				return 0;
			}
			options->suggestionGenerator->terminate();'''))
bug('C17', 'only malformed sequences handled', (S + 'utils/StringUtils.cpp', '''		return doUcs4FromUtf8(original, chars);
	} catch (...) {''', '''		return doUcs4FromUtf8(original, chars);
	} catch (utf8::invalid_utf8 &) {'''))
bug('C17', 'mor- prefix test weakened', (S + 'setup/V5DictionaryLoader.cpp', '''if (dirName.find("mor-") != 0) {''', '''if (dirName.find("mor") != 0) {'''))
bug('C17', 'longer key cut', (S + 'setup/V5DictionaryLoader.cpp', '''line.substr(10)''', '''line.substr(11)'''))
bug('C17', 'tag without script', (S + 'setup/LanguageTag.cpp', '''	if (splitPos != string::npos) {
		// TODO''', '''	if (splitPos != 0) {
		// TODO'''))
bug('C17', 'only zip errors', (S + 'spellchecker/HfstSpeller.cpp', '''catch (...) {''', '''catch (hfst_ospell::ZHfstZipReadingError &) {'''))
bug('C17', 'loader catches zhfst errors only', (S + 'setup/V3DictionaryLoader.cpp', '''catch (...) {''', '''catch (std::exception &) {'''))
bug('C17', 'init catches nothing', (S + 'setup/setup.cpp', '''	catch (DictionaryException & e) {''', '''	catch (std::bad_alloc & e) {'''))
bug('C17', 'at() in suggestions', (S + 'spellchecker/HfstSuggestion.cpp', '''		return;
	}
''', '''		return;
	}
	if (std::wstring(s->getWord()).at(1) == L'x') {
		return;
	}
'''))
bug('C17', 'number parsed from index file', (S + 'setup/V5DictionaryLoader.cpp', '''			description = line.substr(13);''', '''			description = std::to_string(std::stoi(line.substr(13)));'''))
same('C17', 'utf8 base class', (S + 'utils/StringUtils.cpp', '''		return doUcs4FromUtf8(original, chars);
	} catch (...) {''', '''		return doUcs4FromUtf8(original, chars);
	} catch (std::exception &) {'''))
same('C17', 'std::exception in init', (S + 'setup/setup.cpp', '''	catch (DictionaryException & e) {''', '''	catch (std::exception & e) {'''))
same('C17', 'prefix helper', (S + 'setup/V5DictionaryLoader.cpp', '''		if (dirName.find("mor-") != 0) {
			continue;
		}''', '''		if (!hasPrefix(dirName, "mor-")) {
			continue;
		}'''), (S + 'setup/V5DictionaryLoader.cpp', '''void V5DictionaryLoader::findDictionaries''', '''static bool hasPrefix(const string & s, const char * prefix) {
	return s.find(prefix) == 0;
}

void V5DictionaryLoader::findDictionaries'''))
same('C17', 'constants for keys', (S + 'setup/V5DictionaryLoader.cpp', '''		if (line.find("Language: ") == 0) {
			language.setBcp47(string(line.substr(10)));''', '''		static const string LANGUAGE_KEY = "Language: ";
		if (line.find(LANGUAGE_KEY) == 0) {
			language.setBcp47(string(line.substr(LANGUAGE_KEY.length())));'''))
same('C17', 'positive form of tag split', (S + 'setup/LanguageTag.cpp', '''	size_t splitPos = bcp.find("-x-");
	if (splitPos != string::npos) {
		setLanguageAndScript(bcp.substr(0, splitPos));
		setPrivateUse(bcp.substr(splitPos + 3));
	}
	else {
		setLanguageAndScript(bcp);
	}''', '''	const size_t splitPos = bcp.find("-x-");
	if (splitPos == string::npos) {
		setLanguageAndScript(bcp);
		return;
	}
	setLanguageAndScript(bcp.substr(0, splitPos));
	setPrivateUse(bcp.substr(splitPos + 3));'''))
same('C17', 'while loop for hyphens', (S + 'setup/LanguageTag.cpp', '''	for (size_t hyphenPos = this->privateUse.find("-"); hyphenPos != string::npos;
	     hyphenPos = this->privateUse.find("-")) {
		this->privateUse.erase(hyphenPos, 1);
	}''', '''	size_t hyphenPos;
	while ((hyphenPos = this->privateUse.find("-")) != string::npos) {
		this->privateUse.erase(hyphenPos, 1);
	}'''))
same('C17', 'range for', (S + 'setup/LanguageTag.cpp', '''	for (size_t i = 0; i < tagPart.size(); ++i) {
		char current = tagPart.at(i);
		if (current >= 65 && current <= 90) {
			tagPart[i] = current + 32;
		}
	}''', '''	const size_t length = tagPart.length();
	size_t i = 0;
	while (i < length) {
		char current = tagPart.at(i);
		if (current >= 'A' && current <= 'Z') {
			tagPart[i] = current + ('a' - 'A');
		}
		i++;
	}'''))
# ---- C18
bug('C18', 'failed init leaks speller', (S + 'setup/setup.cpp', '''		if (options->speller) {
			options->speller->terminate();
			delete options->speller;
			options->speller = 0;
		}
''', ''))
bug('C18', 'failed init does not terminate analyzer', (S + 'setup/setup.cpp', '''			options->morAnalyzer->terminate();
			delete options->morAnalyzer;
			options''', '''			delete options->morAnalyzer;
			options'''))
bug('C18', 'terminate skips suggestion generator terminate', (S + 'setup/setup.cpp', '''	handle->suggestionGenerator->terminate();
	delete handle->suggestionGenerator;''', '''	delete handle->suggestionGenerator;'''))
bug('C18', 'terminate leaks cache', (S + 'setup/setup.cpp', '''	delete handle->spellerCache;
''', ''))
bug('C18', 'old generator deleted first', (S + 'setup/setup.cpp', '''			spellchecker::suggestion::SuggestionGenerator * generator = 0;
			try {
				generator =''', '''			options->suggestionGenerator->terminate();
			delete options->suggestionGenerator;
			spellchecker::suggestion::SuggestionGenerator * generator = 0;
			try {
				generator ='''), (S + 'setup/setup.cpp', '''			options->suggestionGenerator->terminate();
			delete options->suggestionGenerator;
			options->suggestionGenerator = generator;''', '''			options->suggestionGenerator = generator;'''))
bug('C18', 'cache pointer dangling when disabled', (S + 'setup/setup.cpp', '''					} else {
						options->spellerCache = 0;
					}''', '''					}'''))
bug('C18', 'error not cleared', (S + 'setup/setup.cpp', '''	*error = 0;
	return options;''', '''	return options;'''))
bug('C18', 'message in string', (S + 'setup/DictionaryFactory.cpp', '''throw DictionaryException("Specified dictionary variant was not found");''', '''throw DictionaryException((std::string("Dictionary was not found for ") + language).c_str());'''))
bug('C18', 'uninitialised member tested in handler', (S + 'setup/setup.cpp', '''new VoikkoHandle();''', '''new VoikkoHandle;'''), (S + 'setup/setup.cpp', '''	options->hyphenator = 0;
	options->hfst''', '''	options->hfst'''))
bug('C18', 'transducer deleted without unmapping', (S + 'spellchecker/VfstSpeller.cpp', '''	transducer->terminate();
''', ''))
bug('C18', 'early return without message', (S + 'setup/setup.cpp', '''	if (!langcode) {
		*error = "Language must not be null";
		return 0;''', '''	if (!langcode) {
		return 0;'''))
bug('C18', 'grammar checker created before option needs it twice', (S + 'setup/setup.cpp', '''		options->grammarChecker = grammar''', '''		options->hyphenator = hyphenator::HyphenatorFactory::getHyphenator(options, dict);
		options->grammarChecker = grammar'''))
same('C18', 'helper for releasing components', (S + 'setup/setup.cpp', '''VOIKKOEXPORT VoikkoHandle * voikkoInit(''', '''static void releaseComponents(VoikkoHandle * handle) {
	if (handle->hyphenator) {
		handle->hyphenator->terminate();
		delete handle->hyphenator;
	}
	if (handle->suggestionGenerator) {
		handle->suggestionGenerator->terminate();
		delete handle->suggestionGenerator;
	}
	if (handle->speller) {
		handle->speller->terminate();
		delete handle->speller;
	}
	if (handle->morAnalyzer) {
		handle->morAnalyzer->terminate();
		delete handle->morAnalyzer;
	}
}

VOIKKOEXPORT VoikkoHandle * voikkoInit('''), (S + 'setup/setup.cpp', '''		if (options->hyphenator) {
			options->hyphenator->terminate();
			delete options->hyphenator;
			options->hyphenator = 0;
		}
		if (options->suggestionGenerator) {
			options->suggestionGenerator->terminate();
			delete options->suggestionGenerator;
			options->suggestionGenerator = 0;
		}
		if (options->speller) {
			options->speller->terminate();
			delete options->speller;
			options->speller = 0;
		}
		if (options->morAnalyzer) {
			options->morAnalyzer->terminate();
			delete options->morAnalyzer;
			options->morAnalyzer = 0;
		}
''', '''		releaseComponents(options);
'''), (S + 'setup/setup.cpp', '''	handle->hyphenator->terminate();
	delete handle->hyphenator;
	handle->suggestionGenerator->terminate();
	delete handle->suggestionGenerator;
	handle->speller->terminate();
	delete handle->speller;
	handle->morAnalyzer->terminate();
	delete handle->morAnalyzer;
''', '''	releaseComponents(handle);
'''))
same('C18', 'template helper', (S + 'setup/setup.cpp', '''VOIKKOEXPORT void voikkoTerminate(''', '''template <typename T> static void release(T * component) {
	component->terminate();
	delete component;
}

VOIKKOEXPORT void voikkoTerminate('''), (S + 'setup/setup.cpp', '''	handle->hyphenator->terminate();
	delete handle->hyphenator;
	handle->suggestionGenerator->terminate();
	delete handle->suggestionGenerator;
''', '''	release(handle->hyphenator);
	release(handle->suggestionGenerator);
'''))
same('C18', 'redundant initialisation removed', (S + 'setup/setup.cpp', '''		options->morAnalyzer = 0;
		options->speller = 0;
		Dictionary dict;''', '''		Dictionary dict;'''), (S + 'setup/setup.cpp', '''	options->hyphenator = 0;
	options->hfst = 0;
''', ''))
same('C18', 'local names in terminate', (S + 'setup/setup.cpp', '''	handle->hyphenator->terminate();
	delete handle->hyphenator;
''', '''	hyphenator::Hyphenator * hyphenator = handle->hyphenator;
	hyphenator->terminate();
	delete hyphenator;
'''))
same('C18', 'order of termination', (S + 'setup/setup.cpp', '''	delete handle->grammarChecker;
	handle->hyphenator->terminate();
	delete handle->hyphenator;
''', '''	handle->hyphenator->terminate();
	delete handle->hyphenator;
	delete handle->grammarChecker;
'''))
same('C18', 'flattened cache sizing', (S + 'setup/setup.cpp', '''			if (options->spellerCache) {
				if (options->spellerCache->getSizeParam() != value) {
					delete options->spellerCache;
					if (value >= 0) {
						options->spellerCache = new spellchecker::SpellerCache(value);
					} else {
						options->spellerCache = 0;
					}
				}
			} else {
				if (value >= 0) {
					options->spellerCache = new spellchecker::SpellerCache(value);
				}
			}
			return 1;''', '''			if (options->spellerCache && options->spellerCache->getSizeParam() == value) {
				return 1;
			}
			delete options->spellerCache;
			options->spellerCache = (value >= 0 ? new spellchecker::SpellerCache(value) : 0);
			return 1;'''))

# ---- C07
bug('C07', 'conversion result used unchecked', (S + 'morphology/interface.cpp', '''	if (word_ucs4 == 0) {
		return 0;
	}
	voikko_mor_analysis ** result''', '''	voikko_mor_analysis ** result'''))
bug('C07', 'hyphen conversion unchecked', (S + 'hyphenator/interface.cpp', '''	if (!hyphen_ucs4) {
		delete[] word_ucs4;
		return nullptr;
	}
''', ''))
bug('C07', 'failed file mapping used', (S + 'fst/UnweightedTransducer.cpp', '''		if (!map) {
			throw setup::DictionaryException("Unweighted transducer file could not be read");
		}
''', ''))
bug('C07', 'hfst word unchecked', (S + 'spellchecker/HfstSpeller.cpp', '''	if (!wordUtf8) {
		return SPELL_FAILED;
	}
''', ''))
bug('C07', 'grammar text unchecked', (S + 'grammar/interface.cpp', '''	if (textUcs4 == 0) {
		return 0;
	}
''', ''))
same('C07', 'check turned round', (S + 'morphology/interface.cpp', '''	if (word_ucs4 == 0) {
		return 0;
	}
	voikko_mor_analysis ** result = voikkoAnalyzeWordUcs4(options, word_ucs4);
	delete[] word_ucs4;
	return result;''', '''	voikko_mor_analysis ** result = nullptr;
	if (word_ucs4) {
		result = voikkoAnalyzeWordUcs4(options, word_ucs4);
		delete[] word_ucs4;
	}
	return result;'''))
# ---- C08
bug('C08', 'leak on early return', (S + 'spellchecker/suggestions.cpp', '''	if (status.getSuggestionCount() == 0) {
		delete[] nword;
		return 0;''', '''	if (status.getSuggestionCount() == 0) {
		return 0;'''))
bug('C08', 'word buffer of analysis', (S + 'morphology/interface.cpp', '''	result[i] = 0;
	delete analyses;''', '''	result[i] = 0;'''))
bug('C08', 'freed twice on one path', (S + 'hyphenator/interface.cpp', '''	if (!hyphenationPattern) {
		delete[] hyphen_ucs4;
		delete[] word_ucs4;
		return nullptr;
	}''', '''	if (!hyphenationPattern) {
		delete[] hyphen_ucs4;
		delete[] word_ucs4;
	}'''))
bug('C08', 'used after release', (S + 'spellchecker/suggestions.cpp', '''	wchar_t ** suggestions = getSuggestions(status, add_dots);
''', '''	wchar_t ** suggestions = getSuggestions(status, add_dots);
	delete[] nword;
'''), (S + 'spellchecker/suggestions.cpp', '''	delete[] nword;
	return suggestions;''', '''	return suggestions;'''))
bug('C08', 'scalar delete of array', (S + 'grammar/interface.cpp', '''	delete[] textUcs4;''', '''	delete textUcs4;'''))
same('C08', 'helper frees both strings', (S + 'hyphenator/interface.cpp', '''	if (!hyphenationPattern) {
		delete[] hyphen_ucs4;
		delete[] word_ucs4;
		return nullptr;
	}''', '''	if (!hyphenationPattern) {
		releaseBoth(hyphen_ucs4, word_ucs4);
		return nullptr;
	}'''), (S + 'hyphenator/interface.cpp', '''VOIKKOEXPORT char * voikkoInsertHyphensCstr''', '''static void releaseBoth(wchar_t * a, wchar_t * b) {
	delete[] a;
	delete[] b;
}

VOIKKOEXPORT char * voikkoInsertHyphensCstr'''))
same('C08', 'iterator loop over analyses', (S + 'morphology/interface.cpp', '''	list<Analysis *>::const_iterator it = analyses->begin();
	size_t i = 0;
	while (it != analyses->end()) {
		(*it)->seal();
		result[i++] = *it++;
	}''', '''	size_t i = 0;
	for (Analysis * analysis : *analyses) {
		analysis->seal();
		result[i] = analysis;
		i++;
	}'''))
# ---- C09
bug('C09', 'analysis list released without elements', (S + 'morphology/interface.cpp', '''	for (voikko_mor_analysis ** i = analysis; *i; i++) {
		delete *i;
	}
	delete[] analysis;''', '''	delete[] analysis;'''))
bug('C09', 'shared strings in attribute values', (S + 'morphology/interface.cpp', '''	for (const wchar_t * s : attributeValues) {
		values[i++] = utils::StringUtils::utf8FromUcs4(s);
	}''', '''	static char unknown[] = "";
	for (const wchar_t * s : attributeValues) {
		char * value = utils::StringUtils::utf8FromUcs4(s);
		values[i++] = value ? value : unknown;
	}'''))
bug('C09', 'strdup in message', (S + 'grammar/error.cpp', '''VOIKKOEXPORT const char * voikkoGetGrammarErrorShortDescription''', '''static char * dup(const char * s) {
	return strdup(s);
}

VOIKKOEXPORT const char * voikkoGetGrammarErrorShortDescription'''), (S + 'grammar/error.cpp', '''utils::StringUtils::copy(''', '''dup('''))
same('C09', 'while loop in release', (S + 'morphology/interface.cpp', '''	for (voikko_mor_analysis ** i = analysis; *i; i++) {
		delete *i;
	}
	delete[] analysis;''', '''	size_t i = 0;
	while (analysis[i]) {
		delete analysis[i];
		i++;
	}
	delete[] analysis;'''))
# ---- C10
SET = S + 'setup/setup.cpp'
AD = S + 'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp'
bug('C10', 'ignore dot reset leaves hyphenator', (SET, 'options->hyphenator->setIgnoreDot(false);', 'options->hyphenator->setIgnoreDot(true);'))
bug('C10', 'ignore dot not passed to hyphenator', (SET, '				options->hyphenator->setIgnoreDot(false);\n', ''), (SET, '				options->hyphenator->setIgnoreDot(true);\n', ''))
bug('C10', 'wrong field', (SET, 'options->ignore_nonwords = (value ? 1 : 0);', 'options->ignore_numbers = (value ? 1 : 0);'))
bug('C10', 'grammar option shared', (SET, '&(options->accept_bulleted_lists_in_gc)', '&(options->accept_titles_in_gc)'))
bug('C10', 'set but never reset', (SET, '''			*option = newValue;
			if''', '''			*option |= newValue;
			if'''))
bug('C10', 'grammar option not reset', (SET, '''		else if (!value && (*option)) {
			*option = 0;
''', '''		else if (!value && (*option)) {
'''))
bug('C10', 'only 1 is true', (SET, 'options->ignore_numbers = (value ? 1 : 0);', 'options->ignore_numbers = (value == 1);'))
bug('C10', 'default of extra hyphens', (SET, 'options->accept_extra_hyphens = 0;', 'options->accept_extra_hyphens = 1;'))
bug('C10', 'default of hyphenate unknown', (AD, 'hyphenateUnknown(true)', 'hyphenateUnknown(false)'))
bug('C10', 'default min length', (AD, 'minHyphenatedWordLength(2)', 'minHyphenatedWordLength(3)'))
bug('C10', 'cache size default', (SET, '''	options->spellerCache = new spellchecker::SpellerCache(0);
	*error = 0;''', '''	options->spellerCache = new spellchecker::SpellerCache(1);
	*error = 0;'''))
bug('C10', 'no cache at size 0', (SET, '''					if (value >= 0) {
						options''', '''					if (value > 0) {
						options'''))
bug('C10', 'cache cannot be re-enabled', (SET, '''				if (value >= 0) {
					options->spellerCache = new spellchecker::SpellerCache(value);
				}
''', ''))
bug('C10', 'ocr inverted in factory', (S + 'spellchecker/suggestion/SuggestionGeneratorFactory.cpp', 'suggestionType == SUGGESTION_TYPE_OCR', 'suggestionType != SUGGESTION_TYPE_OCR'))
bug('C10', 'initial ocr', (SET, '''getSuggestionGenerator(options,
				spellchecker::suggestion::SUGGESTION_TYPE_STD)''', '''getSuggestionGenerator(options,
				spellchecker::suggestion::SUGGESTION_TYPE_OCR)'''))
bug('C10', 'missing break-like fallthrough', (SET, '''			options->ignore_numbers = (value ? 1 : 0);
			return 1;
''', '''			options->ignore_numbers = (value ? 1 : 0);
'''))
bug('C10', 'unknown accepted', (SET, '''				options->hyphenator->setHyphenateUnknown(false);
			}
			return 1;
	}
	return 0;''', '''				options->hyphenator->setHyphenateUnknown(false);
			}
			return 1;
	}
	return option >= 0;'''))
bug('C10', 'setter ignores argument', (AD, 'minHyphenatedWordLength = length', 'minHyphenatedWordLength = length > 4 ? 4 : length'))
bug('C10', 'hyphenation ignores length option', (AD, 'if (wlen < minHyphenatedWordLength) {', 'if (wlen < 2) {'), (AD, 'if (wlen < minHyphenatedWordLength) {', 'if (wlen < 2) {'), (AD, 'start + minHyphenatedWordLength', 'start + 2'), (AD, 'start + minHyphenatedWordLength', 'start + 2'))
same('C10', 'direct use of truth', (SET, '''			if (value) {
				options->ignore_dot = 1;
				options->hyphenator->setIgnoreDot(true);
			}
			else {
				options->ignore_dot = 0;
				options->hyphenator->setIgnoreDot(false);
			}
			return 1;''', '''			{
				const bool on = (value != 0);
				options->ignore_dot = on;
				options->hyphenator->setIgnoreDot(on);
				return 1;
			}'''))
same('C10', 'if chain for integers', (SET, '''	switch (option) {
		case VOIKKO_MIN_HYPHENATED_WORD_LENGTH:
			options->hyphenator->setMinHyphenatedWordLength(value);
			return 1;
		case VOIKKO_SPELLER_CACHE_SIZE:
			if (options->spellerCache) {
				if (options->spellerCache->getSizeParam() != value) {
					delete options->spellerCache;
					if (value >= 0) {
						options->spellerCache = new spellchecker::SpellerCache(value);
					} else {
						options->spellerCache = 0;
					}
				}
			} else {
				if (value >= 0) {
					options->spellerCache = new spellchecker::SpellerCache(value);
				}
			}
			return 1;
	}
	return 0;''', '''	if (option == VOIKKO_MIN_HYPHENATED_WORD_LENGTH) {
		options->hyphenator->setMinHyphenatedWordLength(value);
		return 1;
	}
	if (option != VOIKKO_SPELLER_CACHE_SIZE) {
		return 0;
	}
	spellchecker::SpellerCache * old = options->spellerCache;
	if (old && old->getSizeParam() == value) {
		return 1;
	}
	options->spellerCache = (value < 0) ? 0 : new spellchecker::SpellerCache(value);
	delete old;
	return 1;'''))
same('C10', 'member pointer helper', (SET, '''static int setSpellerOption(VoikkoHandle * handle, int value, int * option) {''', '''static int setPlain(VoikkoHandle * handle, int VoikkoHandle::* member, int value) {
	handle->*member = (value ? 1 : 0);
	return 1;
}

static int setSpellerOption(VoikkoHandle * handle, int value, int * option) {'''), (SET, '''			options->ignore_numbers = (value ? 1 : 0);
			return 1;
''', '''			return setPlain(options, &VoikkoHandle::ignore_numbers, value);
'''))
same('C10', 'defaults in a helper', (SET, '''VOIKKOEXPORT VoikkoHandle * voikkoInit(''', '''static void setDefaults(VoikkoHandle & h) {
	h.ignore_dot = 0;
	h.ignore_numbers = h.ignore_uppercase = 0;
	h.ignore_nonwords = true;
}

VOIKKOEXPORT VoikkoHandle * voikkoInit('''), (SET, '''	options->ignore_dot = 0;
	options->ignore_numbers = 0;
	options->ignore_uppercase = 0;
	options->ignore_nonwords = 1;
''', '''	setDefaults(*options);
'''))

import cases_bind
cases_bind.define(bug, same)
import cases_more
import cases_third
import cases_c13
CASES += cases_c13.CASES
import cases_c14
CASES += cases_c14.CASES
import cases_c15
CASES += cases_c15.CASES
import cases_c16
CASES += cases_c16.CASES
import cases_c19
CASES += cases_c19.CASES
import cases_p
CASES += cases_p.CASES
import cases_p2
import cases_c20
import cases_p3
CASES += cases_p2.CASES
CASES += cases_p3.CASES
