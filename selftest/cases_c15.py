"""Variants for C15 (grammar errors have a message, position and length)."""
CASES = []
S = 'src/grammar/'
R = S + 'FinnishRuleEngine/'
CK, CA, VF, CV, MV, NV, SI, ER, FA, CE = R + 'checks.cpp', R + 'CapitalizationCheck.cpp', R + 'VfstAutocorrectCheck.cpp', R + 'CompoundVerbCheck.cpp', R + 'MissingVerbCheck.cpp', R + 'NegativeVerbCheck.cpp', R + 'SidesanaCheck.cpp', S + 'error.cpp', S + 'FinnishAnalysis.cpp', S + 'CacheEntry.cpp'


def bug(t, *e):
    CASES.append(('C15', 'bug', t, list(e)))


def same(t, *e):
    CASES.append(('C15', 'same', t, list(e)))


L = 'e->error.legacyError.'
bug('message missing in Finnish', (ER, '			case GCERR_MISPLACED_SIDESANA:\n				return "Sidesana (ja, tai, mutta, ...) ei voi olla virkkeen viimeinen sana.";\n', ''))
bug('message missing in English', (ER, '			case GCERR_FOREIGN_QUOTATION_MARK:\n				return "Foreign quotation mark";\n', ''))
bug('messages shared', (ER, '				return "You should use infinitive ending with maan', '				return "You should use infinitive ending with a/\\xc3\\xa4 as the second verb.";\n				return "You should use infinitive ending with maan'))
bug('fall through', (ER, '				return "Remove extra comma.";\n			case GCERR_INVALID', '			case GCERR_INVALID'))
bug('new code without message', (S + 'error.hpp', '#define GCERR_EXTRA_MAIN_VERB 18', '#define GCERR_EXTRA_MAIN_VERB 18\n#define GCERR_REPEATED_COMMA 19'), (CK, '= GCERR_EXTRA_COMMA;', '= GCERR_REPEATED_COMMA;'))
bug('start in sentence', (CV, '				e->error.setErrorCode(GCERR_MA_INFINITIVE_REQUIRED);\n				e->error.setStartPos(token->pos);', '				e->error.setErrorCode(GCERR_MA_INFINITIVE_REQUIRED);\n				e->error.setStartPos(token->pos - sentence->pos);'))
bug('start is token number', (CK, L + 'startpos = sentence->tokens[i].pos;\n			' + L + 'errorlen = 1;', L + 'startpos = i;\n			' + L + 'errorlen = 1;'))
bug('length without subtraction', (NV, 'setErrorLen(word2->pos + word2->tokenlen - token->pos)', 'setErrorLen(word2->pos + word2->tokenlen)'))
bug('length is position', (MV, 'e->error.setErrorLen(lastNonWhitespace->pos + lastNonWhitespace->tokenlen - sentence->pos);', 'e->error.setErrorLen(lastNonWhitespace->pos + lastNonWhitespace->tokenlen);'))
bug('length not set', (CK, '	' + L + 'startpos = token->pos;\n	' + L + 'errorlen = token->tokenlen;', '	' + L + 'startpos = token->pos;'))
bug('code not set', (SI, '		e->error.setErrorCode(GCERR_MISPLACED_SIDESANA);\n', ''))
bug('code only for questions', (CK, '			e->error.legacyError.error_code = GCERR_INVALID_PUNCTUATION_AT_END_OF_QUOTATION;\n			e->error.legacyError.startpos = sentence->tokens[i].pos;\n			e->error.legacyError.errorlen = 3;\n			{\n				wchar_t * suggOther', '			if (sentence->tokens[i].str[0] == L\'!\') {\n				e->error.legacyError.error_code = GCERR_INVALID_PUNCTUATION_AT_END_OF_QUOTATION;\n			}\n			e->error.legacyError.startpos = sentence->tokens[i].pos;\n			e->error.legacyError.errorlen = 3;\n			{\n				wchar_t * suggOther'))
bug('length in one branch', (CK, '					' + L + 'startpos = sentence->tokens[i].pos - 1;\n					' + L + 'errorlen = 2;', '					' + L + 'startpos = sentence->tokens[i].pos - 1;'))
bug('no room for suggestion', (CA, '		CacheEntry * e = new CacheEntry(1);\n		e->error.setErrorCode(GCERR_WRITE_FIRST_LOWERCASE);', '		CacheEntry * e = new CacheEntry(0);\n		e->error.setErrorCode(GCERR_WRITE_FIRST_LOWERCASE);'))
bug('suggestion literal', (CK, '				' + L + 'suggestions[0] = new char[2];\n				strcpy(' + L + 'suggestions[0], ",");', '				' + L + 'suggestions[0] = const_cast<char *>(",");'))
bug('suggestion index', (VF, 'e->error.getSuggestions()[0] = ', 'e->error.getSuggestions()[1] = '))
bug('token position in sentence', (FA, 's->tokens[i].pos = sentencepos + (pos - text);', 's->tokens[i].pos = pos - text;'))
bug('autocorrect relative to sentence', (VF, 'e->error.setStartPos(sentence->pos + ucsPosition);', 'e->error.setStartPos(ucsPosition);'))
bug('position twice', (VF, 'e->error.setStartPos(sentence->pos + ucsPosition);', 'e->error.setStartPos(sentence->pos + sentence->tokens[0].pos + ucsPosition);'))
bug('last verb length', (MV, 'e->error.setErrorLen(token->pos + token->tokenlen - sentence->tokens[lastVerbStartToken].pos);', 'e->error.setErrorLen(token->pos + token->tokenlen - lastVerbStartToken);'))
bug('code zero', (CA, 'e->error.setErrorCode(GCERR_MISPLACED_CLOSING_PARENTHESIS);', 'e->error.setErrorCode(context.sentenceEnded ? GCERR_MISPLACED_CLOSING_PARENTHESIS : 0);'))
bug('helper gets index', (CK, 'void gc_repeating_words(', 'static void report(VoikkoHandle * options, int code, size_t pos, size_t len) {\n	CacheEntry * e = new CacheEntry(0);\n	e->error.setErrorCode(code);\n	e->error.setStartPos(pos);\n	e->error.setErrorLen(len);\n	options->grammarChecker->cache.appendError(e);\n}\n\nvoid gc_repeating_words('), (CK, '	CacheEntry * e = new CacheEntry(0);\n	e->error.legacyError.error_code = GCERR_TERMINATING_PUNCTUATION_MISSING;\n	e->error.legacyError.startpos = token->pos;\n	e->error.legacyError.errorlen = token->tokenlen;\n	options->grammarChecker->cache.appendError(e);', '	report(options, GCERR_TERMINATING_PUNCTUATION_MISSING, sentence->tokenCount - 1, token->tokenlen);'))

same('helper reports', (CK, 'void gc_repeating_words(', 'static void report(VoikkoHandle * options, int code, size_t pos, size_t len) {\n	CacheEntry * e = new CacheEntry(0);\n	e->error.setErrorCode(code);\n	e->error.setStartPos(pos);\n	e->error.setErrorLen(len);\n	options->grammarChecker->cache.appendError(e);\n}\n\nvoid gc_repeating_words('), (CK, '	CacheEntry * e = new CacheEntry(0);\n	e->error.legacyError.error_code = GCERR_TERMINATING_PUNCTUATION_MISSING;\n	e->error.legacyError.startpos = token->pos;\n	e->error.legacyError.errorlen = token->tokenlen;\n	options->grammarChecker->cache.appendError(e);', '	report(options, GCERR_TERMINATING_PUNCTUATION_MISSING, token->pos, token->tokenlen);'))
same('helper creates', (CV, 'void CompoundVerbCheck::check', 'static CacheEntry * createError(int code, const Token * first, const Token * last) {\n	CacheEntry * entry = new CacheEntry(0);\n	entry->error.setErrorCode(code);\n	entry->error.setStartPos(first->pos);\n	const size_t end = last->pos + last->tokenlen;\n	entry->error.setErrorLen(end - first->pos);\n	return entry;\n}\n\nvoid CompoundVerbCheck::check'), (CV, '				CacheEntry * e = new CacheEntry(0);\n				e->error.setErrorCode(GCERR_A_INFINITIVE_REQUIRED);\n				e->error.setStartPos(token->pos);\n				e->error.setErrorLen(word2->pos + word2->tokenlen - token->pos);\n				options->grammarChecker->cache.appendError(e);', '				options->grammarChecker->cache.appendError(createError(GCERR_A_INFINITIVE_REQUIRED, token, word2));'))
same('helper fills', (NV, 'void NegativeVerbCheck::check', 'static void setSpan(VoikkoGrammarError & error, size_t start, size_t end) {\n	error.setStartPos(start);\n	error.setErrorLen(end - start);\n}\n\nvoid NegativeVerbCheck::check'), (NV, '				e->error.setStartPos(token->pos);\n				e->error.setErrorLen(word2->pos + word2->tokenlen - token->pos);', '				setSpan(e->error, token->pos, word2->pos + word2->tokenlen);'))
same('reference to error', (SI, '		e->error.setErrorCode(GCERR_MISPLACED_SIDESANA);\n		e->error.setStartPos((sentence->tokens + (tokenCount - 2))->pos);\n		e->error.setErrorLen((sentence->tokens + (tokenCount - 2))->tokenlen);', '		VoikkoGrammarError & error = e->error;\n		const Token & last = sentence->tokens[tokenCount - 2];\n		error.setErrorCode(GCERR_MISPLACED_SIDESANA);\n		error.legacyError.startpos = last.pos;\n		error.legacyError.errorlen = last.tokenlen;'))
same('start from variables', (CK, '		e->error.legacyError.errorlen = sentence->tokens[i].tokenlen +\n		                    sentence->tokens[i + 1].tokenlen +\n		                    sentence->tokens[i + 2].tokenlen;', '		size_t total = 0;\n		for (size_t j = i; j < i + 3; j++) {\n			total += sentence->tokens[j].tokenlen;\n		}\n		e->error.legacyError.errorlen = total;'))
same('conditional start', (CK, '				if (sentence->tokens[i].pos == 0) {\n					e->error.legacyError.startpos = 0;\n					e->error.legacyError.errorlen = 1;\n				}\n				else {\n					e->error.legacyError.startpos = sentence->tokens[i].pos - 1;\n					e->error.legacyError.errorlen = 2;\n				}', '				const bool atStart = sentence->tokens[i].pos == 0;\n				e->error.legacyError.startpos = atStart ? 0 : sentence->tokens[i].pos - 1;\n				e->error.legacyError.errorlen = atStart ? 1 : 2;'))
same('code chosen first', (CV, '			if (token->requireFollowingVerb == FOLLOWING_VERB_A_INFINITIVE &&\n			    word2->verbFollowerType == FOLLOWING_VERB_MA_INFINITIVE) {\n				CacheEntry * e = new CacheEntry(0);\n				e->error.setErrorCode(GCERR_A_INFINITIVE_REQUIRED);\n				e->error.setStartPos(token->pos);\n				e->error.setErrorLen(word2->pos + word2->tokenlen - token->pos);\n				options->grammarChecker->cache.appendError(e);\n			} else if (token->requireFollowingVerb == FOLLOWING_VERB_MA_INFINITIVE &&\n			           word2->verbFollowerType == FOLLOWING_VERB_A_INFINITIVE) {\n				CacheEntry * e = new CacheEntry(0);\n				e->error.setErrorCode(GCERR_MA_INFINITIVE_REQUIRED);\n', '			int code = 0;\n			if (token->requireFollowingVerb == FOLLOWING_VERB_A_INFINITIVE &&\n			    word2->verbFollowerType == FOLLOWING_VERB_MA_INFINITIVE) {\n				code = GCERR_A_INFINITIVE_REQUIRED;\n			} else if (token->requireFollowingVerb == FOLLOWING_VERB_MA_INFINITIVE &&\n			           word2->verbFollowerType == FOLLOWING_VERB_A_INFINITIVE) {\n				code = GCERR_MA_INFINITIVE_REQUIRED;\n			}\n			if (code != 0) {\n				CacheEntry * e = new CacheEntry(0);\n				e->error.setErrorCode(code);\n'))
same('message variable', (ER, '	if (strncmp(language, "fi", 2) == 0) {', '	const bool finnish = strncmp(language, "fi", 2) == 0;\n	if (finnish) {'))
same('message helpers', (ER, 'VOIKKOEXPORT const char * voikko_error_message_cstr(int error_code, const char * language) {\n	if (strncmp(language, "fi", 2) == 0) {', 'static const char * finnishMessage(int error_code) {'), (ER, '		return "Tuntematon virhe";\n	}\n	else {', '	return "Tuntematon virhe";\n}\n\nstatic const char * englishMessage(int error_code) {'), (ER, '		return "Unknown error";\n	}\n}', '	return "Unknown error";\n}\n\nVOIKKOEXPORT const char * voikko_error_message_cstr(int error_code, const char * language) {\n	if (strncmp(language, "fi", 2) == 0) {\n		return finnishMessage(error_code);\n	}\n	return englishMessage(error_code);\n}'))
same('unique pointer', (MV, '	CacheEntry * e = new CacheEntry(0);\n	e->error.setErrorCode(GCERR_MISSING_MAIN_VERB);', '	std::unique_ptr<CacheEntry> e(new CacheEntry(0));\n	e->error.setErrorCode(GCERR_MISSING_MAIN_VERB);'), (MV, 'lastNonWhitespace->tokenlen - sentence->pos);\n	options->grammarChecker->cache.appendError(e);', 'lastNonWhitespace->tokenlen - sentence->pos);\n	options->grammarChecker->cache.appendError(e.release());'), (MV, '#include "grammar/error.hpp"', '#include "grammar/error.hpp"\n#include <memory>'))
same('end and start', (MV, 'e->error.setErrorLen(lastNonWhitespace->pos + lastNonWhitespace->tokenlen - sentence->pos);', 'size_t end = lastNonWhitespace->pos;\n	end += lastNonWhitespace->tokenlen;\n	e->error.setErrorLen(end - sentence->pos);'))
same('suggestion helper', (CK, '				e->error.legacyError.suggestions[0] = new char[2];\n				strcpy(e->error.legacyError.suggestions[0], " ");', '				char * space = new char[2];\n				space[0] = \' \';\n				space[1] = \'\\0\';\n				e->error.legacyError.suggestions[0] = space;'))
same('message table', (ER, '			case GCERR_EXTRA_COMMA:\n				return "Remove extra comma.";\n', ''), (ER, '		return "Unknown error";', '		static const struct { int code; const char * text; } more[] = { { GCERR_EXTRA_COMMA, "Remove extra comma." } };\n		for (const auto & x : more) {\n			if (x.code == error_code) {\n				return x.text;\n			}\n		}\n		return "Unknown error";'))
