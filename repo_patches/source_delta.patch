From bd8a6a8bca043fdea741e91f0ac7b555c8f4aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:47 +0000
Subject: [PATCH 01/34] fix: discard cached spelling and grammar results when
 an option they depend on changes

voikkoSetBooleanOption with VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS or
VOIKKO_OPT_ACCEPT_ALL_UPPERCASE left results computed with the old value in the caches, so a word
accepted with the option on was still accepted after it had been turned off.
---
 libvoikko/src/setup/setup.cpp               | 28 ++++++++++++++++-----
 libvoikko/src/spellchecker/SpellerCache.cpp |  8 ++++--
 libvoikko/src/spellchecker/SpellerCache.hpp |  5 ++++
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index b7c6ff1..90a3384 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -63,6 +63,22 @@ static int setGrammarOption(VoikkoHandle * handle, int value, int * option) {
 		return 1;
 }
 
+/**
+ * Sets an option that affects the results of word level spell checking. Results that have
+ * been cached using the old value of the option are discarded.
+ */
+static int setSpellerOption(VoikkoHandle * handle, int value, int * option) {
+		int newValue = (value ? 1 : 0);
+		if (*option != newValue) {
+			*option = newValue;
+			if (handle->spellerCache) {
+				handle->spellerCache->clear();
+			}
+			handle->grammarChecker->cache.clear();
+		}
+		return 1;
+}
+
 VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int value) {
 	switch (option) {
 		case VOIKKO_OPT_IGNORE_DOT:
@@ -85,8 +101,8 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			options->accept_first_uppercase = (value ? 1 : 0);
 			return 1;
 		case VOIKKO_OPT_ACCEPT_ALL_UPPERCASE:
-			options->accept_all_uppercase = (value ? 1 : 0);
-			return 1;
+			return setSpellerOption(options, value,
+			       &(options->accept_all_uppercase));
 		case VOIKKO_OPT_NO_UGLY_HYPHENATION:
 			if (value) {
 				options->hyphenator->setUglyHyphenation(false);
@@ -109,11 +125,11 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			options->ignore_nonwords = (value ? 1 : 0);
 			return 1;
 		case VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS:
-			options->accept_extra_hyphens = (value ? 1 : 0);
-			return 1;
+			return setSpellerOption(options, value,
+			       &(options->accept_extra_hyphens));
 		case VOIKKO_OPT_ACCEPT_MISSING_HYPHENS:
-			options->accept_missing_hyphens = (value ? 1 : 0);
-			return 1;
+			return setSpellerOption(options, value,
+			       &(options->accept_missing_hyphens));
 		case VOIKKO_OPT_ACCEPT_TITLES_IN_GC:
 			return setGrammarOption(options, value,
 			       &(options->accept_titles_in_gc));
diff --git a/libvoikko/src/spellchecker/SpellerCache.cpp b/libvoikko/src/spellchecker/SpellerCache.cpp
index e21119c..f07b532 100644
--- a/libvoikko/src/spellchecker/SpellerCache.cpp
+++ b/libvoikko/src/spellchecker/SpellerCache.cpp
@@ -67,9 +67,8 @@ static int voikko_hash(const wchar_t * word, size_t len, int order) {
 
 SpellerCache::SpellerCache(int sizeParam) : sizeParam(sizeParam) {
 	words = new wchar_t[6544 << sizeParam];
-	memset(words, 0, 6544 * sizeof(wchar_t) << sizeParam);
 	spellResults = new char[1008 * sizeof(char) << sizeParam];
-	memset(spellResults, 0, 1008 * sizeof(char) << sizeParam);
+	clear();
 }
 
 SpellerCache::~SpellerCache() {
@@ -77,6 +76,11 @@ SpellerCache::~SpellerCache() {
 	delete[] words;
 }
 
+void SpellerCache::clear() {
+	memset(words, 0, 6544 * sizeof(wchar_t) << sizeParam);
+	memset(spellResults, 0, 1008 * sizeof(char) << sizeParam);
+}
+
 int SpellerCache::getSizeParam() const {
 	return sizeParam;
 }
diff --git a/libvoikko/src/spellchecker/SpellerCache.hpp b/libvoikko/src/spellchecker/SpellerCache.hpp
index 550c431..6659cf9 100644
--- a/libvoikko/src/spellchecker/SpellerCache.hpp
+++ b/libvoikko/src/spellchecker/SpellerCache.hpp
@@ -58,6 +58,11 @@ class SpellerCache {
 		 * Add word to cache
 		 */
 		void setSpellResult(const wchar_t * word, size_t wlen, spellresult result);
+		
+		/**
+		 * Remove all words from cache
+		 */
+		void clear();
 	private:
 		SpellerCache(const SpellerCache & other);
 		SpellerCache & operator = (SpellerCache other);
-- 
2.43.0


From 5ef032ba6601fa941ebcbcbfcaff1ad3d3564d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:42 +0000
Subject: [PATCH 02/34] fix: look up cached grammar errors by the given text
 length

The text passed to voikkoNextGrammarErrorUcs4 is delimited by its length, but
the cache lookup compared it as a null terminated string. When the buffer
continued after the given length, no error was ever reported.
---
 libvoikko/src/grammar/GcCache.cpp        | 2 ++
 libvoikko/src/grammar/GcCache.hpp        | 3 +++
 libvoikko/src/grammar/GrammarChecker.cpp | 7 +++++--
 libvoikko/src/grammar/GrammarChecker.hpp | 3 ++-
 libvoikko/src/grammar/interface.cpp      | 4 ++--
 5 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/libvoikko/src/grammar/GcCache.cpp b/libvoikko/src/grammar/GcCache.cpp
index afd4ebd..f6e0133 100644
--- a/libvoikko/src/grammar/GcCache.cpp
+++ b/libvoikko/src/grammar/GcCache.cpp
@@ -33,12 +33,14 @@ namespace libvoikko { namespace grammar {
 
 GcCache::GcCache() :
 	paragraph(0),
+	paragraphLength(0),
 	firstError(0) {
 }
 
 void GcCache::clear() {
 	delete[] paragraph;
 	paragraph = 0;
+	paragraphLength = 0;
 	CacheEntry * entry = firstError;
 	while (entry) {
 		CacheEntry * next = entry->nextError;
diff --git a/libvoikko/src/grammar/GcCache.hpp b/libvoikko/src/grammar/GcCache.hpp
index 4272c3d..884a4f8 100644
--- a/libvoikko/src/grammar/GcCache.hpp
+++ b/libvoikko/src/grammar/GcCache.hpp
@@ -50,6 +50,9 @@ class GcCache {
 	/** Null terminated string containing the paragraph text. */
 	wchar_t * paragraph;
 	
+	/** Number of characters in the paragraph text. */
+	size_t paragraphLength;
+	
 	/** First error in linked list. */
 	grammar::CacheEntry * firstError;
 };
diff --git a/libvoikko/src/grammar/GrammarChecker.cpp b/libvoikko/src/grammar/GrammarChecker.cpp
index 2895669..f9035c9 100644
--- a/libvoikko/src/grammar/GrammarChecker.cpp
+++ b/libvoikko/src/grammar/GrammarChecker.cpp
@@ -39,11 +39,13 @@ GrammarChecker::~GrammarChecker() {
 	cache.clear();
 }
 
-const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t startpos, int skiperrors) {
+const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t textlen,
+                           size_t startpos, int skiperrors) {
 	if (!cache.paragraph) {
 		return 0;
 	}
-	if (wcscmp(cache.paragraph, text) != 0) {
+	if (cache.paragraphLength != textlen ||
+	    memcmp(cache.paragraph, text, textlen * sizeof(wchar_t)) != 0) {
 		return 0;
 	}
 	CacheEntry * e = cache.firstError;
@@ -67,6 +69,7 @@ void GrammarChecker::paragraphToCache(const wchar_t * text, size_t textlen) {
 	}
 	memcpy(cache.paragraph, text, textlen * sizeof(wchar_t));
 	cache.paragraph[textlen] = L'\0';
+	cache.paragraphLength = textlen;
 	Paragraph * para = paragraphAnalyser->analyseParagraph(text, textlen);
 	if (!para) {
 		return;
diff --git a/libvoikko/src/grammar/GrammarChecker.hpp b/libvoikko/src/grammar/GrammarChecker.hpp
index 27247a6..f34dc9c 100644
--- a/libvoikko/src/grammar/GrammarChecker.hpp
+++ b/libvoikko/src/grammar/GrammarChecker.hpp
@@ -44,7 +44,8 @@ class GrammarChecker {
 		 * Returns a pointer to a cached grammar error or null, if there are no cached
 		 * results for given paragraph.
 		 */
-		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t startpos, int skiperrors);
+		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t textlen,
+		                           size_t startpos, int skiperrors);
 		
 		/**
 		 * Performs grammar checking on the entire paragraph and stores the results
diff --git a/libvoikko/src/grammar/interface.cpp b/libvoikko/src/grammar/interface.cpp
index 3250a77..3f5bea1 100644
--- a/libvoikko/src/grammar/interface.cpp
+++ b/libvoikko/src/grammar/interface.cpp
@@ -43,10 +43,10 @@ VOIKKOEXPORT VoikkoGrammarError * voikkoNextGrammarErrorUcs4(VoikkoHandle * opti
 		return 0;
 	}
 	const VoikkoGrammarError * c_error =
-	    options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+	    options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	if (!c_error) {
 		options->grammarChecker->paragraphToCache(text_ucs4, wtextlen);
-		c_error = options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+		c_error = options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	}
 	
 	if (!c_error || c_error->getErrorCode() == 0) {
-- 
2.43.0


From 9ad009871893a886d17835fc1a17fb776c24907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:49 +0000
Subject: [PATCH 03/34] fix: format analysis weights independently of the
 global C++ locale

The WEIGHT attribute was written with whatever decimal separator and digit
grouping the application had set with std::locale::global.
---
 libvoikko/src/morphology/VfstAnalyzer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/morphology/VfstAnalyzer.cpp b/libvoikko/src/morphology/VfstAnalyzer.cpp
index 9b8c553..001e3ea 100644
--- a/libvoikko/src/morphology/VfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/VfstAnalyzer.cpp
@@ -34,6 +34,7 @@
 #include "voikko_defines.h"
 #include <sstream>
 #include <iomanip>
+#include <locale>
 #include <cwchar>
 #include <cmath>
 
@@ -89,6 +90,7 @@ list<Analysis *> * VfstAnalyzer::analyze(const wchar_t * word, size_t wlen, bool
 				analysis->addAttribute(Analysis::Key::FSTOUTPUT, StringUtils::copy(outputBuffer));
 			}
 			stringstream ss;
+			ss.imbue(std::locale::classic());
 			ss << setprecision(9) << logWeightToProb(weight);
 			string weightStr = ss.str();
 			analysis->addAttribute(Analysis::Key::WEIGHT, StringUtils::ucs4FromUtf8(weightStr.c_str()));
-- 
2.43.0


From 37667328a0b3a37f95092e8cec6599a559ee0287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:48 +0000
Subject: [PATCH 04/34] fix: reset flag diacritic values when a new transducer
 search is prepared

---
 libvoikko/src/fst/UnweightedTransducer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index ce9f0cd..51e43d1 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -201,6 +201,10 @@ namespace libvoikko { namespace fst {
 		configuration->stateIndexStack[0] = 0;
 		configuration->currentTransitionStack[0] = 0;
 		configuration->inputLength = 0;
+		if (flagDiacriticFeatureCount) {
+			// previous search may have been abandoned before all flags were restored
+			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));
+		}
 		bool allKnown = true;
 		while ((size_t)configuration->inputLength < inputLen) {
 			std::map<wchar_t,uint16_t>::const_iterator it = stringToSymbol.find(input[configuration->inputLength]);
-- 
2.43.0


From 74f4c39ecef0b1afed36044dbdc3d3362565e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:31 +0000
Subject: [PATCH 05/34] fix: keep flag diacritic depth in step when a weighted
 search is backtracked

---
 libvoikko/src/fst/WeightedTransducer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 25e5b6c..2751c23 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -422,6 +422,9 @@ namespace libvoikko { namespace fst {
 				if (previousInputSymbol >= firstNormalChar) {
 					configuration->inputDepth--;
 				}
+				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
+					configuration->flagDepth--;
+				}
 			}
 			configuration->currentTransitionStack[configuration->stackDepth]++;
 		}
-- 
2.43.0


From a5cb3c5fd8d90dac2033d19b51ce34e7d203be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:53 +0000
Subject: [PATCH 06/34] fix: release the converted strings when a word cannot
 be hyphenated

---
 libvoikko/src/hyphenator/interface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/hyphenator/interface.cpp b/libvoikko/src/hyphenator/interface.cpp
index 8d108b3..910a512 100644
--- a/libvoikko/src/hyphenator/interface.cpp
+++ b/libvoikko/src/hyphenator/interface.cpp
@@ -90,6 +90,8 @@ VOIKKOEXPORT char * voikkoInsertHyphensCstr(VoikkoHandle * options, const char *
 	// Create the hyphenated form
 	char * hyphenationPattern = voikkoHyphenateUcs4(options, word_ucs4);
 	if (!hyphenationPattern) {
+		delete[] hyphen_ucs4;
+		delete[] word_ucs4;
 		return nullptr;
 	}
 	std::wstringstream hyphenated;
-- 
2.43.0


From 58be9e84433fb61a030045fa96abe5a9d4b23ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:53 +0000
Subject: [PATCH 07/34] fix: release the word buffer in
 HfstAnalysis::analyseToken

---
 libvoikko/src/grammar/HfstAnalysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/grammar/HfstAnalysis.cpp b/libvoikko/src/grammar/HfstAnalysis.cpp
index 1d0fca9..a3fb635 100644
--- a/libvoikko/src/grammar/HfstAnalysis.cpp
+++ b/libvoikko/src/grammar/HfstAnalysis.cpp
@@ -66,10 +66,10 @@ void HfstAnalysis::analyseToken(Token * token) {
 	wchar_t * wordBuffer =
 	    utils::StringUtils::stripSpecialCharsForMalaga(token->str,
 	                                                   token->tokenlen);
-	const std::string swordBuffer(utils::StringUtils::utf8FromUcs4(wordBuffer));
 	fprintf(stderr, "HfstAnalysis::analyseToken (%ls)\n", wordBuffer);
 
 	token->analyses = analyser->analyze(wordBuffer, wcslen(wordBuffer), false);
+	delete[] wordBuffer;
 
 	//int num_analyses = 0;
 	//num_analyses = token->analyses->size();	
-- 
2.43.0


From a7deb12da957c44ebd09f48622ac38daba1f4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:53 +0000
Subject: [PATCH 08/34] fix: check the sentence length before copying the first
 token for autocorrect

---
 .../src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
index c39482c..59dac37 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
@@ -88,6 +88,9 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 		}
 		else {
 			size_t skippedChars = 0;
+			if (sentenceLengthUtf + token->tokenlen >= BUFFER_SIZE) {
+				return false; // sentence is unreasonably long
+			}
 			wchar_t * tokenStr;
 			if (lowerFirst && i == 0) {
 				tokenStr = utils::StringUtils::copy(token->str);
@@ -96,9 +99,6 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 			else {
 				tokenStr = token->str;
 			}
-			if (sentenceLengthUtf + token->tokenlen >= BUFFER_SIZE) {
-				return false; // sentence is unreasonably long
-			}
 			for (size_t i = 0; i < token->tokenlen; i++) {
 				if (::wcschr(L"\u00AD", tokenStr[i])) {
 					skippedChars++;
-- 
2.43.0


From 0eec3364a1ed96f4a7e7fd721d75f6aa30ce8e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 09/34] fix: release the transducer, its file and the word
 copies of HfstAnalyzer

---
 libvoikko/src/morphology/HfstAnalyzer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/morphology/HfstAnalyzer.cpp b/libvoikko/src/morphology/HfstAnalyzer.cpp
index e842bc5..239050b 100644
--- a/libvoikko/src/morphology/HfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/HfstAnalyzer.cpp
@@ -40,13 +40,13 @@ using std::list;
 
 namespace libvoikko { namespace morphology {
 
-HfstAnalyzer::HfstAnalyzer(const string& s) {
+HfstAnalyzer::HfstAnalyzer(const string& s) : t(nullptr) {
 	if(s.find(".zhfst") != std::string::npos) {
 		return;
 	}
 	FILE *fd = fopen(s.c_str(), "rb");
 	t = new hfst_ospell::Transducer(fd);
-
+	fclose(fd);
 }
 
 list<Analysis *> * HfstAnalyzer::analyze(const wchar_t * word, size_t wlen, bool fullMorphology) {
@@ -74,6 +74,7 @@ list<Analysis *> * HfstAnalyzer::analyze(const char * word, bool fullMorphology)
 	writable[str.size()] = '\0';
 
 	hfst_ospell::AnalysisQueue q = t->lookup(writable);
+	delete[] writable;
 
 	while(q.size() > 0) {
 		hfst_ospell::StringWeightPair pair = q.top();
@@ -94,6 +95,8 @@ list<Analysis *> * HfstAnalyzer::analyze(const char * word, bool fullMorphology)
 
 
 void HfstAnalyzer::terminate() {
+	delete t;
+	t = nullptr;
 }
 
 } }
-- 
2.43.0


From f903e901630fe46c9a5a9c37efbf32d1a6c5e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 10/34] fix: report transducer files that cannot be mapped as
 dictionary errors

---
 libvoikko/src/fst/Transducer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/fst/Transducer.cpp b/libvoikko/src/fst/Transducer.cpp
index 1953abf..ecf5991 100644
--- a/libvoikko/src/fst/Transducer.cpp
+++ b/libvoikko/src/fst/Transducer.cpp
@@ -130,12 +130,15 @@ namespace libvoikko { namespace fst {
 			}
 			
 			struct stat st;
-			fstat(fd, &st);
+			if (fstat(fd, &st) == -1) {
+				close(fd);
+				return 0;
+			}
 			fileLength = st.st_size;
 			
 			void * map = mmap(0, fileLength, PROT_READ, MAP_SHARED, fd, 0);
 			close(fd);
-			return map;
+			return map == MAP_FAILED ? 0 : map;
 		#endif
 		#ifdef WIN32
 			HANDLE fileHandle = CreateFile(filePath, GENERIC_READ, FILE_SHARE_READ,
-- 
2.43.0


From 0fe7d1c9a8175e8263e9b4d4ed27b865037c1a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 11/34] fix: report transducer symbols that are not valid UTF-8
 as dictionary errors

---
 libvoikko/src/fst/UnweightedTransducer.cpp | 3 +++
 libvoikko/src/fst/WeightedTransducer.cpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index 51e43d1..4b9f444 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -150,6 +150,9 @@ namespace libvoikko { namespace fst {
 		DEBUG("Reading " << symbolCount << " symbols to symbol table");
 		for (uint16_t i = 0; i < symbolCount; i++) {
 			wchar_t * ucs4Symbol = utils::StringUtils::ucs4FromUtf8(filePtr);
+			if (!ucs4Symbol) {
+				throw setup::DictionaryException("Malformed symbol in transducer file");
+			}
 			symbolToString.push_back(ucs4Symbol);
 			if (i == 0) {
 				symbolToDiacritic.push_back(OpFeatureValue()); // epsilon
diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 2751c23..8545ae7 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -156,6 +156,9 @@ namespace libvoikko { namespace fst {
 		DEBUG("Reading " << symbolCount << " symbols to symbol table");
 		for (uint16_t i = 0; i < symbolCount; i++) {
 			wchar_t * ucs4Symbol = utils::StringUtils::ucs4FromUtf8(filePtr);
+			if (!ucs4Symbol) {
+				throw setup::DictionaryException("Malformed symbol in transducer file");
+			}
 			symbolToString.push_back(ucs4Symbol);
 			if (i == 0) {
 				symbolToDiacritic.push_back(OpFeatureValue()); // epsilon
-- 
2.43.0


From d676fe23a0a766fe474f1a13368df3f5707c02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 12/34] fix: keep the suggestion generator when a new one
 cannot be created, terminate it when replaced

---
 libvoikko/src/setup/setup.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index 90a3384..d16d7b4 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -116,9 +116,16 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			spellchecker::suggestion::SuggestionType type = (value ? 
 				spellchecker::suggestion::SUGGESTION_TYPE_OCR :
 				spellchecker::suggestion::SUGGESTION_TYPE_STD);
+			spellchecker::suggestion::SuggestionGenerator * generator = 0;
+			try {
+				generator = spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(options, type);
+			}
+			catch (DictionaryException &) {
+				return 0;
+			}
+			options->suggestionGenerator->terminate();
 			delete options->suggestionGenerator;
-			options->suggestionGenerator =
-				spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(options, type);
+			options->suggestionGenerator = generator;
 			return 1;
 			}
 		case VOIKKO_OPT_IGNORE_NONWORDS:
-- 
2.43.0


From 18f77f1685e81dddf3b2cd9b6bce2cd45653709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 13/34] fix: terminate the suggestion generator when
 initialization fails

---
 libvoikko/src/setup/setup.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index d16d7b4..314c43e 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -233,8 +233,11 @@ VOIKKOEXPORT VoikkoHandle * voikkoInit(const char ** error, const char * langcod
 			delete options->hyphenator;
 			options->hyphenator = 0;
 		}
-		delete options->suggestionGenerator;
-		options->suggestionGenerator = 0;
+		if (options->suggestionGenerator) {
+			options->suggestionGenerator->terminate();
+			delete options->suggestionGenerator;
+			options->suggestionGenerator = 0;
+		}
 		if (options->speller) {
 			options->speller->terminate();
 			delete options->speller;
-- 
2.43.0


From a304c00bf4362a8c63f535f7100c55ca4732b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 14/34] fix: accept HFST analyses that have no tags

---
 libvoikko/src/morphology/HfstAnalyzer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/morphology/HfstAnalyzer.cpp b/libvoikko/src/morphology/HfstAnalyzer.cpp
index 239050b..ecb9da4 100644
--- a/libvoikko/src/morphology/HfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/HfstAnalyzer.cpp
@@ -79,10 +79,11 @@ list<Analysis *> * HfstAnalyzer::analyze(const char * word, bool fullMorphology)
 	while(q.size() > 0) {
 		hfst_ospell::StringWeightPair pair = q.top();
 		string analysis = pair.first;
-		string tags = analysis.substr(analysis.find("+"),analysis.length()-1);
+		size_t tagStart = analysis.find("+");
+		string tags = (tagStart == string::npos ? string() : analysis.substr(tagStart, analysis.length()-1));
 		Analysis * a = new Analysis();
 		if (fullMorphology) {
-			string lemma = analysis.substr(0,analysis.find("+"));
+			string lemma = analysis.substr(0, tagStart);
 			a->addAttribute(Analysis::Key::BASEFORM,  StringUtils::ucs4FromUtf8(lemma.c_str()));
 		}
 		a->addAttribute(Analysis::Key::FSTOUTPUT,  StringUtils::ucs4FromUtf8(tags.c_str()));
-- 
2.43.0


From 036ab43037a20aabef2917efea0f72f582983710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:21 +0000
Subject: [PATCH 15/34] fix: handle words that cannot be converted to UTF-8 in
 the HFST components

---
 libvoikko/src/hyphenator/HfstHyphenator.cpp   | 3 +++
 libvoikko/src/morphology/HfstAnalyzer.cpp     | 3 +++
 libvoikko/src/spellchecker/HfstSpeller.cpp    | 3 +++
 libvoikko/src/spellchecker/HfstSuggestion.cpp | 7 +++++++
 4 files changed, 16 insertions(+)

diff --git a/libvoikko/src/hyphenator/HfstHyphenator.cpp b/libvoikko/src/hyphenator/HfstHyphenator.cpp
index a49c340..46664e9 100644
--- a/libvoikko/src/hyphenator/HfstHyphenator.cpp
+++ b/libvoikko/src/hyphenator/HfstHyphenator.cpp
@@ -46,6 +46,9 @@ char * HfstHyphenator::hyphenate(const wchar_t * word,
 		return 0;
 	}
 	char * wordUtf8 = StringUtils::utf8FromUcs4(word, wlen);
+	if (!wordUtf8) {
+		return 0;
+	}
 	char * result = hyphenate(wordUtf8);
 	delete[] wordUtf8;
 	return result;
diff --git a/libvoikko/src/morphology/HfstAnalyzer.cpp b/libvoikko/src/morphology/HfstAnalyzer.cpp
index ecb9da4..c24f723 100644
--- a/libvoikko/src/morphology/HfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/HfstAnalyzer.cpp
@@ -54,6 +54,9 @@ list<Analysis *> * HfstAnalyzer::analyze(const wchar_t * word, size_t wlen, bool
 		return new list<Analysis *>();
 	}
 	char * wordUtf8 = StringUtils::utf8FromUcs4(word, wlen);
+	if (!wordUtf8) {
+		return new list<Analysis *>();
+	}
 	list<Analysis *> * result = analyze(wordUtf8, fullMorphology);
 	delete[] wordUtf8;
 	return result;
diff --git a/libvoikko/src/spellchecker/HfstSpeller.cpp b/libvoikko/src/spellchecker/HfstSpeller.cpp
index 8b90407..8dceaee 100644
--- a/libvoikko/src/spellchecker/HfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/HfstSpeller.cpp
@@ -56,6 +56,9 @@ HfstSpeller::HfstSpeller(const string & zhfstFileName, VoikkoHandle * voikkoOpti
 
 spellresult HfstSpeller::doSpell(const wchar_t * word, size_t wlen) {
 	char * wordUtf8 = StringUtils::utf8FromUcs4(word, wlen);
+	if (!wordUtf8) {
+		return SPELL_FAILED;
+	}
 	spellresult result = SPELL_FAILED;
 	if (speller->spell(wordUtf8)) {
 		result = SPELL_OK;
diff --git a/libvoikko/src/spellchecker/HfstSuggestion.cpp b/libvoikko/src/spellchecker/HfstSuggestion.cpp
index 30fa466..c6b0fbb 100644
--- a/libvoikko/src/spellchecker/HfstSuggestion.cpp
+++ b/libvoikko/src/spellchecker/HfstSuggestion.cpp
@@ -52,12 +52,19 @@ void HfstSuggestion::generate(SuggestionStatus * s) const {
 	s->setMaxCost(s->getMaxSuggestionCount());
 	size_t wlen = s->getWordLength();
 	char * wordUtf8 = StringUtils::utf8FromUcs4(s->getWord(), wlen);
+	if (!wordUtf8) {
+		return;
+	}
 	set<wstring> allSuggs;
 	bool checkUppercasing = (voikko_casetype(s->getWord(), wlen) == CT_FIRST_UPPER);
 	hfst_ospell::CorrectionQueue corrections = speller_->suggest(wordUtf8);
 	while (corrections.size() > 0 && !s->shouldAbort()) {
 		const char * sugUtf8 = corrections.top().first.c_str();
 		wchar_t * sugU4 = StringUtils::ucs4FromUtf8(sugUtf8, strlen(sugUtf8));
+		if (!sugU4) {
+			corrections.pop();
+			continue;
+		}
 		// HFST speller may return the same suggestion in lower and uppercase form for uppercase words.
 		// If this happens we want to drop the second one as it would lead to duplicate suggestion after
 		// case correction.
-- 
2.43.0


From d9d4278751fdfd1e921aaeb7c44c83a76d61709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:27 +0000
Subject: [PATCH 16/34] fix: treat ZHFST files that the library rejects with
 any exception as broken dictionaries

---
 libvoikko/src/setup/V3DictionaryLoader.cpp | 2 +-
 libvoikko/src/spellchecker/HfstSpeller.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/V3DictionaryLoader.cpp b/libvoikko/src/setup/V3DictionaryLoader.cpp
index 3024766..9b6cbc2 100644
--- a/libvoikko/src/setup/V3DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V3DictionaryLoader.cpp
@@ -65,7 +65,7 @@ void V3DictionaryLoader::findDictionaries(const string & path) {
 			try {
 				speller->read_zhfst(fullPath.c_str());
 			}
-			catch (hfst_ospell::ZHfstZipReadingError& zhzre) {
+			catch (...) {
 				delete speller;
 				continue; // broken dictionary
 			}
diff --git a/libvoikko/src/spellchecker/HfstSpeller.cpp b/libvoikko/src/spellchecker/HfstSpeller.cpp
index 8dceaee..e38031a 100644
--- a/libvoikko/src/spellchecker/HfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/HfstSpeller.cpp
@@ -49,7 +49,8 @@ HfstSpeller::HfstSpeller(const string & zhfstFileName, VoikkoHandle * voikkoOpti
 	try {
 		speller->read_zhfst(zhfstFileName.c_str());
 	}
-	catch (hfst_ospell::ZHfstZipReadingError& zhzre) {
+	catch (...) {
+		delete speller;
 		throw setup::DictionaryException("Error reading ZHFST speller");
 	}
 }
-- 
2.43.0


From eb319bb628ba33fac372a4926a72db40ae57ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:27 +0000
Subject: [PATCH 17/34] fix: report HFST morphologies that cannot be read as
 dictionary errors

---
 libvoikko/src/morphology/HfstAnalyzer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/HfstAnalyzer.cpp b/libvoikko/src/morphology/HfstAnalyzer.cpp
index c24f723..ebaa982 100644
--- a/libvoikko/src/morphology/HfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/HfstAnalyzer.cpp
@@ -45,7 +45,16 @@ HfstAnalyzer::HfstAnalyzer(const string& s) : t(nullptr) {
 		return;
 	}
 	FILE *fd = fopen(s.c_str(), "rb");
-	t = new hfst_ospell::Transducer(fd);
+	if (!fd) {
+		throw setup::DictionaryException("HFST transducer file could not be read");
+	}
+	try {
+		t = new hfst_ospell::Transducer(fd);
+	}
+	catch (...) {
+		fclose(fd);
+		throw setup::DictionaryException("Malformed HFST transducer file");
+	}
 	fclose(fd);
 }
 
-- 
2.43.0


From 23aa28b801068aa735dadf02fb2a380550b7b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 18/34] fix: hold the lock of the Java instance in hyphenate
 and attributeValues

---
 .../java/src/main/java/org/puimula/libvoikko/Voikko.java      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 0c60cf0..3258132 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -433,7 +433,7 @@ public class Voikko {
      *        the hyphen will lead to other changes in the word
      * @return the given word in fully hyphenated form.
      */
-    public String hyphenate(String word, String separator, boolean allowContextChanges) {
+    public synchronized String hyphenate(String word, String separator, boolean allowContextChanges) {
         requireValidHandle();
         if (!isValidInput(word) || !isValidInput(separator)) {
             return word;
@@ -652,7 +652,7 @@ public class Voikko {
      * @return A list of possible attribute values for attribute in morphological analysis or null if
      *         the attribute does not exist or it does not have a known finite set of possible values.
      */
-    public List<String> attributeValues(String attributeName) {
+    public synchronized List<String> attributeValues(String attributeName) {
         requireValidHandle();
         if (!isValidInput(attributeName)) {
             return null;
-- 
2.43.0


From 2e0e2ca3e97483544eba499b393b22c93fd81b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 19/34] fix: close the C# instance under its lock and refuse to
 tokenize with a closed instance

---
 libvoikko/cs/libvoikko/Voikko.cs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libvoikko/cs/libvoikko/Voikko.cs b/libvoikko/cs/libvoikko/Voikko.cs
index 238ca1e..f81a9b8 100644
--- a/libvoikko/cs/libvoikko/Voikko.cs
+++ b/libvoikko/cs/libvoikko/Voikko.cs
@@ -158,10 +158,13 @@ namespace libvoikko
 
 		public void Dispose()
 		{
-			if (handle != IntPtr.Zero)
+			lock (lockObj)
 			{
-				Libvoikko.voikkoTerminate(handle);
-				handle = IntPtr.Zero;
+				if (handle != IntPtr.Zero)
+				{
+					Libvoikko.voikkoTerminate(handle);
+					handle = IntPtr.Zero;
+				}
 			}
 		}
 
@@ -354,6 +357,7 @@ namespace libvoikko
 		{
 			lock (lockObj)
 			{
+				requireValidHandle();
 				List<Token> result = new List<Token>();
 				byte[] textBytes = ByteArray.s2n(text);
 				int textLen = textBytes.Length - 1;
-- 
2.43.0


From ab188c35a1ae54ac7d4af52ffb0fd4be187b6b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 20/34] fix: release the strings returned by the library in the
 Common Lisp binding

---
 libvoikko/cl/general.lisp | 30 ++++++++++++++++++------------
 libvoikko/cl/spell.lisp   | 17 +++++++++++------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/libvoikko/cl/general.lisp b/libvoikko/cl/general.lisp
index aa29b15..5e30777 100644
--- a/libvoikko/cl/general.lisp
+++ b/libvoikko/cl/general.lisp
@@ -200,10 +200,12 @@ for which at least one dictionary is available for spell checking."
                                                path)
                                    :pointer)))
     (when (proper-pointer-p ptr)
-      (loop :for i :upfrom 0
-         :for lang := (cffi:mem-aref ptr :string i)
-         :while (stringp lang)
-         :collect lang))))
+      (unwind-protect
+           (loop :for i :upfrom 0
+              :for lang := (cffi:mem-aref ptr :string i)
+              :while (stringp lang)
+              :collect lang)
+        (cffi:foreign-funcall "voikkoFreeCstrArray" :pointer ptr :void)))))
 
 (defun list-supported-hyphenation-languages (&optional path)
   "Return a list of language codes (string) representing the languages
@@ -215,10 +217,12 @@ for which at least one dictionary is available for hyphenation."
                                                path)
                                    :pointer)))
     (when (proper-pointer-p ptr)
-      (loop :for i :upfrom 0
-         :for lang := (cffi:mem-aref ptr :string i)
-         :while (stringp lang)
-         :collect lang))))
+      (unwind-protect
+           (loop :for i :upfrom 0
+              :for lang := (cffi:mem-aref ptr :string i)
+              :while (stringp lang)
+              :collect lang)
+        (cffi:foreign-funcall "voikkoFreeCstrArray" :pointer ptr :void)))))
 
 (defun list-supported-grammar-checking-languages (&optional path)
   "Return a list of language codes (string) representing the languages
@@ -230,7 +234,9 @@ for which at least one dictionary is available for grammar checking."
                                                path)
                                    :pointer)))
     (when (proper-pointer-p ptr)
-      (loop :for i :upfrom 0
-         :for lang := (cffi:mem-aref ptr :string i)
-         :while (stringp lang)
-         :collect lang))))
+      (unwind-protect
+           (loop :for i :upfrom 0
+              :for lang := (cffi:mem-aref ptr :string i)
+              :while (stringp lang)
+              :collect lang)
+        (cffi:foreign-funcall "voikkoFreeCstrArray" :pointer ptr :void)))))
diff --git a/libvoikko/cl/spell.lisp b/libvoikko/cl/spell.lisp
index b0fdabc..cac2f3d 100644
--- a/libvoikko/cl/spell.lisp
+++ b/libvoikko/cl/spell.lisp
@@ -135,12 +135,17 @@ NOT-ACTIVE-INSTANCE-ERROR is signaled."
   (error-if-not-active-instance instance)
   (check-type word string)
   (check-type hyphen character)
-  (cffi:foreign-funcall "voikkoInsertHyphensCstr"
-                        :pointer (address instance)
-                        :string word
-                        :string (string hyphen)
-                        :int (if allow-context-changes 1 0)
-                        :string))
+  (let ((hyphenated (cffi:foreign-funcall "voikkoInsertHyphensCstr"
+                                          :pointer (address instance)
+                                          :string word
+                                          :string (string hyphen)
+                                          :int (if allow-context-changes 1 0)
+                                          :pointer)))
+
+    (when (proper-pointer-p hyphenated)
+      (unwind-protect
+           (cffi:foreign-string-to-lisp hyphenated)
+        (cffi:foreign-funcall "voikkoFreeCstr" :pointer hyphenated :void)))))
 
 (defun split-word (instance width word)
   "Split WORD in two and return the parts as a cons cell. The word is
-- 
2.43.0


From 7e125888605a33d5c242971e80c6838b84c74725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:25 +0000
Subject: [PATCH 21/34] fix: keep speller cache slots in range for negative
 wchar_t values

---
 libvoikko/src/spellchecker/SpellerCache.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libvoikko/src/spellchecker/SpellerCache.cpp b/libvoikko/src/spellchecker/SpellerCache.cpp
index f07b532..c844e43 100644
--- a/libvoikko/src/spellchecker/SpellerCache.cpp
+++ b/libvoikko/src/spellchecker/SpellerCache.cpp
@@ -58,11 +58,12 @@ static const int VOIKKO_META_OFFSETS[]  =  {0,   0, 1*16, 1*48, 1*112, 1*240,  1
  * @return integer from range [0, 2^order - 1]
  */
 static int voikko_hash(const wchar_t * word, size_t len, int order) {
-	int hash = 0;
+	// Unsigned arithmetic keeps the result in range for any value of wchar_t.
+	unsigned int hash = 0;
 	for (size_t counter = 0; counter < len; counter++) {
-		hash = (hash * 37 + word[counter]) % (1 << order);
+		hash = (hash * 37 + static_cast<unsigned int>(word[counter])) % (1u << order);
 	}
-	return hash;
+	return static_cast<int>(hash);
 }
 
 SpellerCache::SpellerCache(int sizeParam) : sizeParam(sizeParam) {
-- 
2.43.0


From 987cf4b027c3763f7c0abb4d78f83d676186f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:21 +0000
Subject: [PATCH 22/34] fix: HFST hyphenator returned uninitialised memory as
 the hyphenation pattern

---
 libvoikko/src/hyphenator/HfstHyphenator.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/hyphenator/HfstHyphenator.cpp b/libvoikko/src/hyphenator/HfstHyphenator.cpp
index 46664e9..a9aa7c3 100644
--- a/libvoikko/src/hyphenator/HfstHyphenator.cpp
+++ b/libvoikko/src/hyphenator/HfstHyphenator.cpp
@@ -59,7 +59,15 @@ char* HfstHyphenator::hyphenate(const char * word) {
 	if (wlen > LIBVOIKKO_MAX_WORD_CHARS) {
 		return 0;
 	}
-	char* voikkoHyphenationPattern = new char[strlen(word)+1];
+	// no hyphenation transducer available yet: one blank for each character of the word
+	char* voikkoHyphenationPattern = new char[wlen + 1];
+	size_t chars = 0;
+	for (size_t i = 0; i < wlen; i++) {
+		if ((word[i] & 0xC0) != 0x80) {
+			voikkoHyphenationPattern[chars++] = ' ';
+		}
+	}
+	voikkoHyphenationPattern[chars] = '\0';
 	return voikkoHyphenationPattern;
 }
 
-- 
2.43.0


From c2ddee40bd0e4abda3eae7258d91f4eb0735f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:39 +0000
Subject: [PATCH 23/34] fix: voikko_terminate crashed when no handle exists

---
 libvoikko/src/compatibility/interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/compatibility/interface.cpp b/libvoikko/src/compatibility/interface.cpp
index 0ecad1e..eae6a29 100644
--- a/libvoikko/src/compatibility/interface.cpp
+++ b/libvoikko/src/compatibility/interface.cpp
@@ -128,7 +128,7 @@ VOIKKOEXPORT const char * voikko_init(int * handle, const char * langcode, int c
 }
 
 VOIKKOEXPORT int voikko_terminate(int handle) {
-	if (handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
+	if (handles && handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
 		voikkoTerminate(handles[handle]);
 		handles[handle] = 0;
 		freeHandlesIfPossible();
-- 
2.43.0


From b91bbaf5d0789b211fd9d48cffd59b3a79c53623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:53 +0000
Subject: [PATCH 24/34] fix: UTF-8 interface applied the word length limit to
 bytes instead of characters

---
 libvoikko/src/hyphenator/interface.cpp     | 16 ++++++++--------
 libvoikko/src/morphology/interface.cpp     |  8 ++++----
 libvoikko/src/spellchecker/spell.cpp       |  6 +-----
 libvoikko/src/spellchecker/suggestions.cpp |  6 +-----
 4 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/libvoikko/src/hyphenator/interface.cpp b/libvoikko/src/hyphenator/interface.cpp
index 910a512..fd7f740 100644
--- a/libvoikko/src/hyphenator/interface.cpp
+++ b/libvoikko/src/hyphenator/interface.cpp
@@ -52,12 +52,12 @@ VOIKKOEXPORT char * voikkoHyphenateCstr(VoikkoHandle * options, const char * wor
 	if (word == 0) {
 		return 0;
 	}
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
+	if (word_ucs4 == 0) {
 		return 0;
 	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
-	if (word_ucs4 == 0) {
+	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {
+		delete[] word_ucs4;
 		return 0;
 	}
 	char * result = voikkoHyphenateUcs4(options, word_ucs4);
@@ -73,12 +73,12 @@ VOIKKOEXPORT char * voikkoInsertHyphensCstr(VoikkoHandle * options, const char *
 
 	// For now we are intentionally omitting UCS4 variant of this function and thus
 	// we perform the necessary initial conversions here.
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
+	if (!word_ucs4) {
 		return nullptr;
 	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
-	if (!word_ucs4) {
+	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {
+		delete[] word_ucs4;
 		return nullptr;
 	}
 	wchar_t * hyphen_ucs4 = utils::StringUtils::ucs4FromUtf8(hyphen, strlen(hyphen));
diff --git a/libvoikko/src/morphology/interface.cpp b/libvoikko/src/morphology/interface.cpp
index be0882a..528b375 100644
--- a/libvoikko/src/morphology/interface.cpp
+++ b/libvoikko/src/morphology/interface.cpp
@@ -82,12 +82,12 @@ VOIKKOEXPORT voikko_mor_analysis ** voikkoAnalyzeWordCstr(
 	if (word == 0 || word[0] == '\0') {
 		return 0;
 	}
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
+	if (word_ucs4 == 0) {
 		return 0;
 	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
-	if (word_ucs4 == 0) {
+	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {
+		delete[] word_ucs4;
 		return 0;
 	}
 	voikko_mor_analysis ** result = voikkoAnalyzeWordUcs4(options, word_ucs4);
diff --git a/libvoikko/src/spellchecker/spell.cpp b/libvoikko/src/spellchecker/spell.cpp
index 9977fbf..39311cc 100644
--- a/libvoikko/src/spellchecker/spell.cpp
+++ b/libvoikko/src/spellchecker/spell.cpp
@@ -238,11 +238,7 @@ VOIKKOEXPORT int voikkoSpellCstr(VoikkoHandle * handle, const char * word) {
 	if (word == 0 || word[0] == '\0') {
 		return VOIKKO_SPELL_OK;
 	}
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
-		return VOIKKO_SPELL_FAILED;
-	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
 	if (word_ucs4 == 0) {
 		return VOIKKO_CHARSET_CONVERSION_FAILED;
 	}
diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 5e93282..f075df4 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -158,11 +158,7 @@ VOIKKOEXPORT char ** voikkoSuggestCstr(VoikkoHandle * options, const char * word
 	if (word == 0 || word[0] == '\0') {
 		return 0;
 	}
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
-		return 0;
-	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
 	if (word_ucs4 == 0) {
 		return 0;
 	}
-- 
2.43.0


From 84e9e197de945da2e4396003b2d08cafa64cfdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:00 +0000
Subject: [PATCH 25/34] fix: malformed UTF-8 at the start of a long text was
 tokenized as if it were valid

---
 libvoikko/src/utils/StringUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/utils/StringUtils.cpp b/libvoikko/src/utils/StringUtils.cpp
index 5b2db07..8d3c3fa 100644
--- a/libvoikko/src/utils/StringUtils.cpp
+++ b/libvoikko/src/utils/StringUtils.cpp
@@ -72,7 +72,11 @@ wchar_t * StringUtils::ucs4FromUtf8(const char * const original, size_t byteCoun
 	try {
 		size_t chars;
 		if (maxChars * 6 + 1 < byteCount) {
-			chars = maxChars;
+			// only the part of the text that will be converted is validated
+			const char * origPtr = original;
+			for (chars = 0; chars < maxChars; chars++) {
+				utf8::next(origPtr, original + byteCount);
+			}
 		}
 		else {
 			chars = std::min(static_cast<size_t>(utf8::distance(original, original + byteCount)), maxChars);
-- 
2.43.0


From 81e8733e5e8f785c16375717aea01e9682e62e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:02 +0000
Subject: [PATCH 26/34] fix: voikkoGetAttributeValues("COMPARISON") did not
 list "positive"

---
 libvoikko/src/morphology/FinnishVfstAnalyzer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index 94ccc78..3efa0d9 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -1129,7 +1129,9 @@ std::list<const wchar_t *> FinnishVfstAnalyzer::getAttributeValues(const char *
 		return valuesFromMap(numberMap);
 	}
 	if (attribute == "COMPARISON") {
-		return valuesFromMap(comparisonMap);
+		list<const wchar_t *> values = valuesFromMap(comparisonMap);
+		values.push_front(L"positive"); // not marked in transducer output
+		return values;
 	}
 	if (attribute == "FOCUS") {
 		return valuesFromMap(focusMap);
-- 
2.43.0


From e31a94febbcb6bfa86418fc7f3ed70db06ef8656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:44 +0000
Subject: [PATCH 27/34] fix: the class of a past passive participle was tested
 through the wrong attribute

The test compared the value of PARTICIPLE with "laatusana", which is a value of CLASS, and was thus always true.
---
 libvoikko/src/morphology/FinnishVfstAnalyzer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index 3efa0d9..6a10301 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -1078,7 +1078,7 @@ list<Analysis *> * FinnishVfstAnalyzer::analyze(const wchar_t * word, size_t wle
 			)) {
 				analysis->removeAttribute(Analysis::Key::NEGATIVE);
 			}
-			if (participle && wcscmp(participle, L"past_passive") == 0 && (!wclass || wcscmp(participle, L"laatusana") != 0)) {
+			if (participle && wcscmp(participle, L"past_passive") == 0 && (!wclass || wcscmp(wclass, L"laatusana") != 0)) {
 				wclass = L"laatusana";
 				analysis->removeAttribute(Analysis::Key::CLASS);
 				analysis->addConstAttribute(Analysis::Key::CLASS, wclass);
-- 
2.43.0


From cd8b820102d7ac759657e85363a88a4828616f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:36 +0000
Subject: [PATCH 28/34] fix: autocorrection errors after a soft hyphen or
 repeated spaces were lost or had a wrong length

The end of the match was compared with positions of the normalised sentence using a start position of the original sentence, and the length was computed from positions of the paragraph.
---
 .../VfstAutocorrectCheck.cpp                  | 23 +++++--------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
index 59dac37..b0f62b3 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
@@ -129,9 +129,11 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 		size_t prefixLength = 0;
 		if (transducer->nextPrefix(configuration, outputBuffer, BUFFER_SIZE, &prefixLength)) {
 			bool endAtBoundary = false;
-			for (vector<size_t>::iterator p = ucsNormalizedPositions.begin(); p != ucsNormalizedPositions.end(); ++p) {
-				if (ucsPosition + prefixLength == *p) {
+			size_t errorLen = 0;
+			for (size_t n = 0; n < ucsNormalizedPositions.size(); n++) {
+				if (position + prefixLength == ucsNormalizedPositions[n]) {
 					endAtBoundary = true;
+					errorLen = ucsOriginalPositions[n] - ucsPosition;
 					break;
 				}
 			}
@@ -140,21 +142,8 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 			}
 			CacheEntry * e = new CacheEntry(1);
 			e->error.setErrorCode(GCERR_INVALID_SPELLING);
-			size_t startPos = sentence->pos + ucsPosition;
-			e->error.setStartPos(startPos);
-			size_t lengthCorrection = 0;
-			for (size_t n = 0; n < ucsOriginalPositions.size(); n++) {
-				size_t oPos = ucsOriginalPositions[n];
-				size_t nPos = ucsNormalizedPositions[n];
-				if (oPos <= startPos) {
-					lengthCorrection = oPos - nPos;
-				}
-				if (nPos > startPos + prefixLength) {
-					lengthCorrection = (ucsOriginalPositions[n - 1] - ucsNormalizedPositions[n - 1]) - lengthCorrection;
-					break;
-				}
-			}
-			e->error.setErrorLen(prefixLength + lengthCorrection);
+			e->error.setStartPos(sentence->pos + ucsPosition);
+			e->error.setErrorLen(errorLen);
 			if (lowerFirst) {
 				outputBuffer[0] = character::SimpleChar::upper(outputBuffer[0]);
 			}
-- 
2.43.0


From f6f02b794a4a1211c03267325fbba0c269211d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:19 +0000
Subject: [PATCH 29/34] fix: hyphenation of words that the library rejects
 crashed the Python binding

voikkoHyphenate* and voikkoInsertHyphensCstr return null for words that are too
long or cannot be converted. Handle this like other input without hyphenation points.
---
 libvoikko/python/libvoikko.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index cf5fd76..a429257 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -785,6 +785,8 @@ class Voikko(object):
             return "".ljust(len(word))
 
         cHyphenationPattern = self.__lib.voikkoHyphenateUcs4(self.__handle, word)
+        if not bool(cHyphenationPattern):
+            return "".ljust(len(word))
         hyphenationPattern = string_at(cHyphenationPattern)
         self.__lib.voikkoFreeCstr(cHyphenationPattern)
         return unicode_str(hyphenationPattern, 'ASCII')
@@ -795,6 +797,8 @@ class Voikko(object):
             return word
         cHyphenated = self.__lib.voikkoInsertHyphensCstr(
             self.__handle, word.encode("UTF-8"), separator.encode("UTF-8"), _boolToInt(allowContextChanges))
+        if not bool(cHyphenated):
+            return word
         hyphenated = string_at(cHyphenated)
         self.__lib.voikkoFreeCstr(cHyphenated)
         return unicode_str(hyphenated, "UTF-8")
-- 
2.43.0


From 2b450691270740ccf07ced96f1be90cc456c264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:19 +0000
Subject: [PATCH 30/34] fix: hyphenation of words that the library rejects
 threw NullPointerException in the Java binding

voikkoHyphenate* and voikkoInsertHyphensCstr return null for words that are too
long or cannot be converted. Handle this like other input without hyphenation points.
---
 .../java/org/puimula/libvoikko/Voikko.java    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 3258132..7f1e78a 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -401,14 +401,12 @@ public class Voikko {
     public synchronized String getHyphenationPattern(String word) {
         requireValidHandle();
         if (!isValidInput(word)) {
-            // return string of spaces
-            StringBuilder sb = new StringBuilder();
-            for (int i = 0; i < word.length(); i++) {
-                sb.append(" ");
-            }
-            return sb.toString();
+            return spaces(word.length());
         }
         ByteArray cPattern = getLib().voikkoHyphenateCstr(handle, s2n(word));
+        if (cPattern == null) {
+            return spaces(word.length());
+        }
         String pattern = cPattern.toString();
         getLib().voikkoFreeCstr(cPattern);
         return pattern;
@@ -440,11 +438,22 @@ public class Voikko {
         }
         ByteArray cHyphenated = getLib().voikkoInsertHyphensCstr(
                 handle, s2n(word), s2n(separator), boolToInt(allowContextChanges));
+        if (cHyphenated == null) {
+            return word;
+        }
         String hyphenated = cHyphenated.toString();
         getLib().voikkoFreeCstr(cHyphenated);
         return hyphenated;
     }
 
+    private static String spaces(int count) {
+        StringBuilder sb = new StringBuilder();
+        for (int i = 0; i < count; i++) {
+            sb.append(" ");
+        }
+        return sb.toString();
+    }
+
     private static int boolToInt(boolean value) {
         return value ? 1 : 0;
     }
-- 
2.43.0


From 42c68dd325c07ca9f26742c6411ef10b327e5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:19 +0000
Subject: [PATCH 31/34] fix: hyphenation of words that the library rejects
 threw NullReferenceException in the C# binding

voikkoHyphenate* and voikkoInsertHyphensCstr return null for words that are too
long or cannot be converted. Handle this like other input without hyphenation points.
---
 libvoikko/cs/libvoikko/Voikko.cs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/cs/libvoikko/Voikko.cs b/libvoikko/cs/libvoikko/Voikko.cs
index f81a9b8..dbee47e 100644
--- a/libvoikko/cs/libvoikko/Voikko.cs
+++ b/libvoikko/cs/libvoikko/Voikko.cs
@@ -419,6 +419,10 @@ namespace libvoikko
 					return new string(' ', word.Length);
 				}
 				IntPtr cPattern = Libvoikko.voikkoHyphenateCstr(handle, ByteArray.s2n(word));
+				if (cPattern == IntPtr.Zero)
+				{
+					return new string(' ', word.Length);
+				}
 				string pattern = ByteArray.n2s(cPattern);
 				Libvoikko.voikkoFreeCstr(cPattern);
 				return pattern;
-- 
2.43.0


From 3d671dbbabbf2d63970dbf352996d3f6a8c822af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:19 +0000
Subject: [PATCH 32/34] fix: hyphenation of words that the library rejects lost
 the word in the JavaScript binding

voikkoHyphenate* and voikkoInsertHyphensCstr return null for words that are too
long or cannot be converted. Handle this like other input without hyphenation points.
---
 libvoikko/js/libvoikko_api.js | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index a886f20..ab57a39 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -79,17 +79,23 @@ Module["init"] = function(lang, path) {
 		return result;
 	}
 	
+	var spaces = function(count) {
+		var sb = "";
+		for (var i = 0; i < count; i++) {
+			sb += " ";
+		}
+		return sb;
+	};
+	
 	var getHyphenationPattern = function(word) {
 		requireValidHandle();
 		if (!isValidInput(word)) {
-			// return string of spaces
-			var sb = "";
-			for (var i = 0; i < word.length; i++) {
-				sb += " ";
-			}
-			return sb;
+			return spaces(word.length);
 		}
 		var cPattern = c_hyphenateCstr(handle, word);
+		if (!cPattern) {
+			return spaces(word.length);
+		}
 		var pattern = UTF8ToString(cPattern);
 		c_freeCstr(cPattern);
 		return pattern;
@@ -312,6 +318,9 @@ Module["init"] = function(lang, path) {
 				return word;
 			}
 			var cHyphenated = c_insertHyphensCstr(handle, word, separator, boolToInt(allowContextChanges));
+			if (!cHyphenated) {
+				return word;
+			}
 			var hyphenated = UTF8ToString(cHyphenated);
 			c_freeCstr(cHyphenated);
 			return hyphenated;
-- 
2.43.0


From 9fb60e6c42d4458cff21adcc95845918088ede26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 33/34] fix: transducer spellers read behind the end of texts
 that are not terminated

The word given to Speller::spell has a length and may be a part of a text without
terminating null character (sentence boundary detection).
---
 libvoikko/src/spellchecker/HfstSpeller.cpp | 5 ++++-
 libvoikko/src/spellchecker/VfstSpeller.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/spellchecker/HfstSpeller.cpp b/libvoikko/src/spellchecker/HfstSpeller.cpp
index e38031a..3717ef8 100644
--- a/libvoikko/src/spellchecker/HfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/HfstSpeller.cpp
@@ -31,6 +31,7 @@
 #include "utils/StringUtils.hpp"
 #include "character/SimpleChar.hpp"
 #include "voikko_defines.h"
+#include <cwchar>
 #include <fstream>
 #include <ospell.h>
 #include <ol-exceptions.h>
@@ -72,7 +73,9 @@ spellresult HfstSpeller::spell(const wchar_t * word, size_t wlen) {
 	spellresult result = doSpell(word, wlen);
 	if (result == SPELL_FAILED && SimpleChar::isLower(word[0])) {
 		// XXX: This slightly inefficient hack allows us to support SPELL_CAP_FIRST
-		wchar_t * modifiedWord = StringUtils::copy(word);
+		wchar_t * modifiedWord = new wchar_t[wlen + 1];
+		wcsncpy(modifiedWord, word, wlen);
+		modifiedWord[wlen] = L'\0';
 		modifiedWord[0] = SimpleChar::upper(word[0]);
 		result = doSpell(modifiedWord, wlen);
 		if (result == SPELL_OK) {
diff --git a/libvoikko/src/spellchecker/VfstSpeller.cpp b/libvoikko/src/spellchecker/VfstSpeller.cpp
index 02dbe4d..832f7e7 100644
--- a/libvoikko/src/spellchecker/VfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/VfstSpeller.cpp
@@ -30,6 +30,7 @@
 #include "utils/StringUtils.hpp"
 #include "character/SimpleChar.hpp"
 #include "voikko_defines.h"
+#include <cwchar>
 
 using namespace std;
 using namespace libvoikko::character;
@@ -64,7 +65,9 @@ spellresult VfstSpeller::spell(const wchar_t * word, size_t wlen) {
 	spellresult result = doSpell(word, wlen);
 	if (result == SPELL_FAILED && SimpleChar::isLower(word[0])) {
 		// XXX: This slightly inefficient hack allows us to support SPELL_CAP_FIRST
-		wchar_t * modifiedWord = StringUtils::copy(word);
+		wchar_t * modifiedWord = new wchar_t[wlen + 1];
+		wcsncpy(modifiedWord, word, wlen);
+		modifiedWord[wlen] = L'\0';
 		modifiedWord[0] = SimpleChar::upper(word[0]);
 		result = doSpell(modifiedWord, wlen);
 		if (result == SPELL_OK) {
-- 
2.43.0


From 79081d18bb897ac19f24c6eba0a6ddf80279bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:42 +0000
Subject: [PATCH 34/34] fix: positions of grammar errors behind CRLF line ends
 in the C# binding

GrammarErrors split the text at "\r?\n" but advanced by one character
per line end, so that positions behind a CRLF line end were one too small
for each such line. Split like the Java and JavaScript bindings do.
---
 libvoikko/cs/libvoikko/Voikko.cs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libvoikko/cs/libvoikko/Voikko.cs b/libvoikko/cs/libvoikko/Voikko.cs
index dbee47e..c3b9e25 100644
--- a/libvoikko/cs/libvoikko/Voikko.cs
+++ b/libvoikko/cs/libvoikko/Voikko.cs
@@ -29,7 +29,6 @@
 using System;
 using System.Runtime.InteropServices;
 using System.Collections.Generic;
-using System.Text.RegularExpressions;
 using System.Text;
 namespace libvoikko
 {
@@ -250,7 +249,7 @@ namespace libvoikko
 					return errorList;
 				}
 				int offset = 0;
-				foreach (String paragraph in Regex.Split(text, "\\r?\\n"))
+				foreach (String paragraph in text.Replace("\r", "\n").Split('\n'))
 				{
 					appendErrorsFromParagraph(errorList, paragraph, offset, language);
 					offset += paragraph.Length + 1;
-- 
2.43.0

