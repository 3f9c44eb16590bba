"""Variants for C14 (analysis attributes have documented names and values)."""
CASES = []
S = 'src/'
AN, AH, FV, SP, FA, VA, HA, AP = S + 'morphology/Analysis.cpp', S + 'morphology/Analysis.hpp', S + 'morphology/FinnishVfstAnalyzer.cpp', S + 'spellchecker/SpellWithPriority.cpp', S + 'grammar/FinnishAnalysis.cpp', S + 'morphology/VfstAnalyzer.cpp', S + 'morphology/HfstAnalyzer.cpp', S + 'spellchecker/AnalyzerToSpellerAdapter.cpp'


def bug(t, *e):
    CASES.append(('C14', 'bug', t, list(e)))


def same(t, *e):
    CASES.append(('C14', 'same', t, list(e)))


K = 'voikko_mor_analysis::Key::'
bug('names swapped', (AN, '	"POSSESSIVE",\n	"POSSIBLE_GEOGRAPHICAL_NAME",', '	"POSSIBLE_GEOGRAPHICAL_NAME",\n	"POSSESSIVE",'))
bug('name to wrong key', (AN, '{"WORDBASES", %sWORDBASES}' % K, '{"WORDBASES", %sWORDIDS}' % K))
bug('name missing', (AN, '	{"TENSE", %sTENSE},\n' % K, ''))
bug('name misspelt', (AN, '{"REQUIRE_FOLLOWING_VERB", ', '{"REQUIRE_FOLLOWING_VERBS", '))
bug('bitset too small', (AH, 'std::bitset<21>', 'std::bitset<20>'))
bug('value misspelt', (FV, 'L"ulkotulento"', 'L"ulkotulenta"'))
bug('mood misspelt', (FV, 'std::make_pair(L"n5", L"MAINEN-infinitive")', 'std::make_pair(L"n5", L"MAINEN_infinitive")'))
bug('wrong map listed', (FV, 'return valuesFromMap(participleMap);', 'return valuesFromMap(negativeMap);'))
bug('wrong map parsed', (FV, 'Analysis::Key::NEGATIVE, negativeMap)', 'Analysis::Key::NEGATIVE, participleMap)'))
bug('wrong key parsed', (FV, 'Analysis::Key::POSSESSIVE, possessiveMap)', 'Analysis::Key::PERSON, possessiveMap)'))
bug('positive not listed', (FV, '		values.push_front(L"positive"); // not marked in transducer output\n', ''))
bug('constant stored as owned', (FV, 'analysis->addConstAttribute(Analysis::Key::KYSYMYSLIITE, L"true")', 'analysis->addAttribute(Analysis::Key::KYSYMYSLIITE, const_cast<wchar_t *>(L"true"))'))
bug('map value stored as owned', (FV, '		analysis->addConstAttribute(key, muoto);', '		analysis->addAttribute(key, const_cast<wchar_t *>(muoto));'))
bug('allocated stored as constant', (FV, 'analysis->addAttribute(Analysis::Key::STRUCTURE, structure);', 'analysis->addConstAttribute(Analysis::Key::STRUCTURE, structure);'))
bug('baseform stored as constant', (FV, '					analysis->addAttribute(Analysis::Key::BASEFORM, baseform);\n				}\n				parseDebug', '					analysis->addConstAttribute(Analysis::Key::BASEFORM, baseform);\n				}\n				parseDebug'))
bug('buffer stored as constant', (FV, 'analysis->addAttribute(Analysis::Key::FSTOUTPUT, StringUtils::copy(outputBuffer));', 'analysis->addConstAttribute(Analysis::Key::FSTOUTPUT, outputBuffer);'))
bug('buffer stored as owned', (VA, 'StringUtils::copy(outputBuffer)', 'outputBuffer'))
bug('comparison with misspelt case', (SP, 'wcscmp(sijamuoto, L"ulkoeronto")', 'wcscmp(sijamuoto, L"ulko_eronto")'))
bug('comparison with value of another attribute', (FA, 'wcscmp(L"agent", participle)', 'wcscmp(L"A-infinitive", participle)'))
bug('comparison of another attribute', (FV, 'const wchar_t * sijamuoto = analysis->getValue(Analysis::Key::SIJAMUOTO);\n			const wchar_t * mood', 'const wchar_t * sijamuoto = analysis->getValue(Analysis::Key::NUMBER);\n			const wchar_t * mood'))
bug('geographical not listed', (FV, '	if (attribute == "KYSYMYSLIITE" || attribute == "MALAGA_VAPAA_JALKIOSA" ||\n	    attribute == "POSSIBLE_GEOGRAPHICAL_NAME") {', '	if (attribute == "KYSYMYSLIITE" || attribute == "MALAGA_VAPAA_JALKIOSA") {'))
bug('listed under wrong name', (FV, 'attribute == "SIJAMUOTO"', 'attribute == "SIJA"'))
bug('one follower not listed', (FV, '		values.push_back(L"MA-infinitive");\n', ''))
bug('new undocumented value', (FV, 'analysis->addConstAttribute(Analysis::Key::CLASS, L"etuliite");', 'analysis->addConstAttribute(Analysis::Key::CLASS, L"etuosa");'))
bug('class without tag', (FV, '	classMap.insert(std::make_pair(L"d", L"suhdesana"));\n', ''))
bug('duplicate org name class', (FV, 'newAnalysis->addConstAttribute(key, L"nimi");', 'newAnalysis->addConstAttribute(key, L"organisaatio");'))
bug('duplicate keeps constant', (FV, 'newAnalysis->addAttribute(key, StringUtils::copy(analysis->getValue(key)));', 'newAnalysis->addConstAttribute(key, StringUtils::copy(analysis->getValue(key)));'))

same('emplace', (FV, '	numberMap.insert(std::make_pair(L"y", L"singular"));\n	numberMap.insert(std::make_pair(L"m", L"plural"));', '	numberMap.emplace(L"y", L"singular");\n	numberMap[L"m"] = L"plural";'))
same('named constant', (FV, '	comparisonMap.insert(std::make_pair(L"c", L"comparative"));', '	const wchar_t * const comparative = L"comparative";\n	comparisonMap.insert(std::make_pair(L"c", comparative));'))
same('insert helper', (FV, 'FinnishVfstAnalyzer::FinnishVfstAnalyzer(const string & directoryName) {', 'static void put(map<wstring, const wchar_t *> & m, const wchar_t * tag, const wchar_t * value) {\n	m.insert(std::make_pair(tag, value));\n}\n\nFinnishVfstAnalyzer::FinnishVfstAnalyzer(const string & directoryName) {'), (FV, 'tenseMap.insert(std::make_pair(L"p", L"present_simple"));\n	tenseMap.insert(std::make_pair(L"i", L"past_imperfective"));', 'put(tenseMap, L"p", L"present_simple");\n	put(tenseMap, L"i", L"past_imperfective");'))
same('table of tags', (FV, '	focusMap.insert(std::make_pair(L"kin", L"kin"));\n	focusMap.insert(std::make_pair(L"kaan", L"kaan"));', '	static const wchar_t * const foci[] = { L"kin", L"kaan" };\n	for (const wchar_t * focus : foci) {\n		focusMap.insert(std::make_pair(focus, focus));\n	}'))
same('assigned initialiser list', (FV, '	focusMap.insert(std::make_pair(L"kin", L"kin"));\n	focusMap.insert(std::make_pair(L"kaan", L"kaan"));', '	focusMap = { {L"kin", L"kin"}, {L"kaan", L"kaan"} };'))
same('member initialiser list', (FV, 'FinnishVfstAnalyzer::FinnishVfstAnalyzer(const string & directoryName) {', 'FinnishVfstAnalyzer::FinnishVfstAnalyzer(const string & directoryName) :\n	focusMap({ {L"kin", L"kin"}, {L"kaan", L"kaan"} }) {'), (FV, '	focusMap.insert(std::make_pair(L"kin", L"kin"));\n	focusMap.insert(std::make_pair(L"kaan", L"kaan"));', ''))
same('else if chain', (FV, '	if (attribute == "NUMBER") {\n		return valuesFromMap(numberMap);\n	}\n	if (attribute == "COMPARISON") {', '	else if (attribute == "NUMBER") {\n		return valuesFromMap(numberMap);\n	}\n	else if (attribute == "COMPARISON") {'))
same('strcmp', (FV, 'attribute == "TENSE"', 'strcmp(attributeName, "TENSE") == 0'), (FV, '#include <cassert>', '#include <cassert>\n#include <cstring>'))
same('result variable', (FV, '		list<const wchar_t *> values = valuesFromMap(comparisonMap);\n		values.push_front(L"positive"); // not marked in transducer output\n		return values;', '		list<const wchar_t *> result;\n		result.push_back(L"positive");\n		for (auto const & entry : comparisonMap) {\n			result.push_back(entry.second);\n		}\n		return result;'))
same('duplicate dropped with iterator', (FV, '	for (auto const &entry : map) {\n		values.push_back(entry.second);\n	}', '	for (std::map<std::wstring, const wchar_t *>::const_iterator it = map.begin(); it != map.end(); ++it) {\n		values.push_back(it->second);\n	}'))
same('list of pairs', (FV, '		values.push_back(L"A-infinitive");\n		values.push_back(L"MA-infinitive");\n		return values;', '		return { L"A-infinitive", L"MA-infinitive" };'))
same('store through helper', (FV, 'static void addInfoFlag(', 'static void setFlag(Analysis * analysis, Analysis::Key key) {\n	analysis->addConstAttribute(key, L"true");\n}\n\nstatic void addInfoFlag('), (FV, '			analysis->addConstAttribute(Analysis::Key::MALAGA_VAPAA_JALKIOSA, L"true");', '			setFlag(analysis, Analysis::Key::MALAGA_VAPAA_JALKIOSA);'), (FV, '			analysis->addConstAttribute(Analysis::Key::POSSIBLE_GEOGRAPHICAL_NAME, L"true");', '			setFlag(analysis, Analysis::Key::POSSIBLE_GEOGRAPHICAL_NAME);'))
same('value chosen first', (FV, '			if (wcsncmp(outputPosition, L"ra", 2) == 0) {\n				analysis->addConstAttribute(Analysis::Key::REQUIRE_FOLLOWING_VERB, L"A-infinitive");\n			}\n			else if (wcsncmp(outputPosition, L"rm", 2) == 0) {\n				analysis->addConstAttribute(Analysis::Key::REQUIRE_FOLLOWING_VERB, L"MA-infinitive");\n			}', '			const wchar_t * verb = nullptr;\n			if (wcsncmp(outputPosition, L"ra", 2) == 0) {\n				verb = L"A-infinitive";\n			}\n			else if (wcsncmp(outputPosition, L"rm", 2) == 0) {\n				verb = L"MA-infinitive";\n			}\n			if (verb) {\n				analysis->addConstAttribute(Analysis::Key::REQUIRE_FOLLOWING_VERB, verb);\n			}'))
same('constants for names', (AN, '	{"MOOD", %sMOOD},' % K, '	std::make_pair(std::string("MOOD"), %sMOOD),' % K))
same('larger bitset', (AH, 'std::bitset<21>', 'std::bitset<32>'))
same('plain array', (AN, 'static constexpr std::array<const char *,21> KEY_TO_STRING { {', 'static const char * const KEY_TO_STRING[] = {'), (AN, '	"WORDIDS"\n} };', '	"WORDIDS"\n};'))
same('comparison helper', (SP, 'wcscmp(sijamuoto, L"ulkoeronto") == 0', '!wcscmp(L"ulkoeronto", sijamuoto)'))
same('switch in duplicate', (FV, '						if (key == Analysis::Key::CLASS) {\n							newAnalysis->addConstAttribute(key, L"nimi");\n						}', '						if (key == Analysis::Key::CLASS) {\n							newAnalysis->addConstAttribute(Analysis::Key::CLASS, L"nimi");\n						}'))
