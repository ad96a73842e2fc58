From c104d332812e3e85b3800f9c75b4bd962004f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:50 +0000
Subject: [PATCH 01/43] fix: avoid signed overflow in vowel change suggestion
 mask

---
 .../spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp
index 81c8f05..3694499 100644
--- a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp
+++ b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp
@@ -39,7 +39,7 @@ SuggestionGeneratorVowelChange::SuggestionGeneratorVowelChange(morphology::Analy
 		morAnalyzer(morAnalyzer) {}
 
 void SuggestionGeneratorVowelChange::generate(SuggestionStatus * s) const {
-	int mask = 0;
+	unsigned int mask = 0;
 	size_t vcount = 0;
 	int pat = 1;
 	for (size_t i = 0; i < s->getWordLength(); i++)
-- 
2.43.0


From ca60d4f08334b8faca55243e01f271fa81c32f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:50 +0000
Subject: [PATCH 02/43] fix: do not read past the end of the word in transducer
 spellers

---
 libvoikko/src/spellchecker/HfstSpeller.cpp | 6 +++++-
 libvoikko/src/spellchecker/VfstSpeller.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/spellchecker/HfstSpeller.cpp b/libvoikko/src/spellchecker/HfstSpeller.cpp
index 8b90407..9ff3a1d 100644
--- a/libvoikko/src/spellchecker/HfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/HfstSpeller.cpp
@@ -31,6 +31,7 @@
 #include "utils/StringUtils.hpp"
 #include "character/SimpleChar.hpp"
 #include "voikko_defines.h"
+#include <cwchar>
 #include <fstream>
 #include <ospell.h>
 #include <ol-exceptions.h>
@@ -68,7 +69,10 @@ spellresult HfstSpeller::spell(const wchar_t * word, size_t wlen) {
 	spellresult result = doSpell(word, wlen);
 	if (result == SPELL_FAILED && SimpleChar::isLower(word[0])) {
 		// XXX: This slightly inefficient hack allows us to support SPELL_CAP_FIRST
-		wchar_t * modifiedWord = StringUtils::copy(word);
+		// word is not necessarily null terminated
+		wchar_t * modifiedWord = new wchar_t[wlen + 1];
+		wmemcpy(modifiedWord, word, wlen);
+		modifiedWord[wlen] = L'\0';
 		modifiedWord[0] = SimpleChar::upper(word[0]);
 		result = doSpell(modifiedWord, wlen);
 		if (result == SPELL_OK) {
diff --git a/libvoikko/src/spellchecker/VfstSpeller.cpp b/libvoikko/src/spellchecker/VfstSpeller.cpp
index 02dbe4d..76bf448 100644
--- a/libvoikko/src/spellchecker/VfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/VfstSpeller.cpp
@@ -30,6 +30,7 @@
 #include "utils/StringUtils.hpp"
 #include "character/SimpleChar.hpp"
 #include "voikko_defines.h"
+#include <cwchar>
 
 using namespace std;
 using namespace libvoikko::character;
@@ -64,7 +65,10 @@ spellresult VfstSpeller::spell(const wchar_t * word, size_t wlen) {
 	spellresult result = doSpell(word, wlen);
 	if (result == SPELL_FAILED && SimpleChar::isLower(word[0])) {
 		// XXX: This slightly inefficient hack allows us to support SPELL_CAP_FIRST
-		wchar_t * modifiedWord = StringUtils::copy(word);
+		// word is not necessarily null terminated
+		wchar_t * modifiedWord = new wchar_t[wlen + 1];
+		wmemcpy(modifiedWord, word, wlen);
+		modifiedWord[wlen] = L'\0';
 		modifiedWord[0] = SimpleChar::upper(word[0]);
 		result = doSpell(modifiedWord, wlen);
 		if (result == SPELL_OK) {
-- 
2.43.0


From cf3adaba8c92b0cccf0e8c7d9626064ad895f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:59 +0000
Subject: [PATCH 03/43] fix: exponential time when extra hyphens are accepted

---
 .../FinnishSpellerTweaksWrapper.cpp           | 27 +++++++++++++++----
 .../FinnishSpellerTweaksWrapper.hpp           |  8 +++++-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
index 869fbe0..dfa9263 100644
--- a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
+++ b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
@@ -33,6 +33,8 @@
 #include "utils/utils.hpp"
 
 using std::list;
+using std::map;
+using std::wstring;
 using namespace libvoikko::morphology;
 using namespace libvoikko::character;
 
@@ -50,7 +52,21 @@ FinnishSpellerTweaksWrapper::FinnishSpellerTweaksWrapper(Speller * speller, Anal
 	hyphenator->setIgnoreDot(true);
 }
 
-spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t * word, size_t wlen) {
+spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t * word, size_t wlen,
+	map<wstring, spellresult> & checked) {
+	// Words with many hyphens lead here repeatedly with the same word
+	wstring key(word, wlen);
+	map<wstring, spellresult>::const_iterator previous = checked.find(key);
+	if (previous != checked.end()) {
+		return previous->second;
+	}
+	spellresult result = doSpellWithoutSoftHyphen(word, wlen, checked);
+	checked[key] = result;
+	return result;
+}
+
+spellresult FinnishSpellerTweaksWrapper::doSpellWithoutSoftHyphen(const wchar_t * word, size_t wlen,
+	map<wstring, spellresult> & checked) {
 	spellresult result_with_border = SPELL_FAILED;
 	spellresult result_without_border = SPELL_FAILED;
 	
@@ -74,7 +90,7 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 		    buffer[leading_len] != L'-') {
 			/* All hyphens are optional */
 			/* FIXME: deep recursion */
-			spellresult spres = spellWithoutSoftHyphen(buffer, wlen - 1);
+			spellresult spres = spellWithoutSoftHyphen(buffer, wlen - 1, checked);
 			if (spres == SPELL_OK) {
 				delete[] buffer;
 				return spres;
@@ -100,7 +116,7 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 		// "ja-sana" and such are valid if "ja" is any valid word and "sana" has MALAGA_VAPAA_JALKIOSA=true
 		for (size_t i = wlen - 2; i > 0; --i) {
 			if (word[i] == L'-') {
-				spellresult leadingResult = spell(word, i);
+				spellresult leadingResult = spellWithoutSoftHyphen(word, i, checked);
 				if (leadingResult != SPELL_FAILED) {
 					list<Analysis *> * trailingAnalyses = analyzer->analyze(word + i + 1, wlen - (i + 1), false);
 					list<Analysis *>::const_iterator it = trailingAnalyses->begin();
@@ -174,6 +190,7 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 }
 
 spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen) {
+	map<wstring, spellresult> checked;
 	const wchar_t * softHyphen = wmemchr(word, L'\u00AD', wlen);
 	if (softHyphen) {
 		wchar_t * buffer = new wchar_t[wlen];
@@ -191,7 +208,7 @@ spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen
 			}
 		}
 		buffer[j] = L'\0';
-		spellresult resultWoShy = spellWithoutSoftHyphen(buffer, j);
+		spellresult resultWoShy = spellWithoutSoftHyphen(buffer, j, checked);
 		if (resultWoShy != SPELL_FAILED) {
 			// check if positions of all soft hyphens are acceptable
 			char * hyphenPositions = hyphenator->allPossibleHyphenPositions(buffer, j);
@@ -211,7 +228,7 @@ spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen
 		}
 		return resultWoShy;
 	} else {
-		return spellWithoutSoftHyphen(word, wlen);
+		return spellWithoutSoftHyphen(word, wlen, checked);
 	}
 }
 
diff --git a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
index 7367fe3..4704dba 100644
--- a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
+++ b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
@@ -34,6 +34,9 @@
 #include "setup/setup.hpp"
 #include "hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp"
 
+#include <map>
+#include <string>
+
 namespace libvoikko { namespace spellchecker {
 
 /**
@@ -47,7 +50,10 @@ class FinnishSpellerTweaksWrapper : public Speller {
 		spellresult spell(const wchar_t * word, size_t wlen);
 		void terminate();
 	private:
-		spellresult spellWithoutSoftHyphen(const wchar_t * word, size_t wlen);
+		spellresult spellWithoutSoftHyphen(const wchar_t * word, size_t wlen,
+		                                   std::map<std::wstring, spellresult> & checked);
+		spellresult doSpellWithoutSoftHyphen(const wchar_t * word, size_t wlen,
+		                                     std::map<std::wstring, spellresult> & checked);
 		Speller * const speller;
 		morphology::Analyzer * const analyzer;
 		hyphenator::AnalyzerToFinnishHyphenatorAdapter * hyphenator;
-- 
2.43.0


From c5a6eb1962ff338156152470df74c5c878a6bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 04/43] fix: do not generate suggestions for words that are one
 character when normalised

---
 libvoikko/src/spellchecker/suggestions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 5e93282..28ffc71 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -95,6 +95,10 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 		return 0;
 	}
 	wlen = wcslen(nword);
+	if (wlen <= 1) {
+		delete[] nword;
+		return 0;
+	}
 	
 	if (options->ignore_dot) {
 		if (wlen == 2) {
-- 
2.43.0


From 7a27224500312bbcd85b034fbbe39001e2b39683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 05/43] fix: use length of the original word when undoing
 normalisation of suggestions

---
 libvoikko/src/spellchecker/suggestions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 28ffc71..49b6d7c 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -147,10 +147,11 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 		}
 	}
 
-	/* Undo character set normalisation */
+	/* Undo character set normalisation. Normalisation may have changed the length of the word. */
+	size_t originalLength = wcslen(word) - (add_dots ? 1 : 0);
 	for (size_t i = 0; suggestions[i] != 0;) {
 		suglen = wcslen(suggestions[i]);
-		voikko_cset_reformat(word, wlen, &(suggestions[i]), suglen);
+		voikko_cset_reformat(word, originalLength, &(suggestions[i]), suglen);
 		i++;
 	}
 
-- 
2.43.0


From e8d8a8e3c7575706a1f4200633b538a33e8b12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 06/43] fix: respect the length of the text when looking up
 cached grammar errors

---
 libvoikko/src/grammar/GcCache.cpp        | 2 ++
 libvoikko/src/grammar/GcCache.hpp        | 4 ++++
 libvoikko/src/grammar/GrammarChecker.cpp | 6 ++++--
 libvoikko/src/grammar/GrammarChecker.hpp | 2 +-
 libvoikko/src/grammar/interface.cpp      | 4 ++--
 5 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/libvoikko/src/grammar/GcCache.cpp b/libvoikko/src/grammar/GcCache.cpp
index afd4ebd..f6e0133 100644
--- a/libvoikko/src/grammar/GcCache.cpp
+++ b/libvoikko/src/grammar/GcCache.cpp
@@ -33,12 +33,14 @@ namespace libvoikko { namespace grammar {
 
 GcCache::GcCache() :
 	paragraph(0),
+	paragraphLength(0),
 	firstError(0) {
 }
 
 void GcCache::clear() {
 	delete[] paragraph;
 	paragraph = 0;
+	paragraphLength = 0;
 	CacheEntry * entry = firstError;
 	while (entry) {
 		CacheEntry * next = entry->nextError;
diff --git a/libvoikko/src/grammar/GcCache.hpp b/libvoikko/src/grammar/GcCache.hpp
index 4272c3d..6ccb77b 100644
--- a/libvoikko/src/grammar/GcCache.hpp
+++ b/libvoikko/src/grammar/GcCache.hpp
@@ -30,6 +30,7 @@
 #define VOIKKO_GRAMMAR_GCCACHE_HPP
 
 #include "grammar/CacheEntry.hpp"
+#include <cstddef>
 
 namespace libvoikko { namespace grammar {
 
@@ -50,6 +51,9 @@ class GcCache {
 	/** Null terminated string containing the paragraph text. */
 	wchar_t * paragraph;
 	
+	/** Number of characters in the paragraph. */
+	size_t paragraphLength;
+	
 	/** First error in linked list. */
 	grammar::CacheEntry * firstError;
 };
diff --git a/libvoikko/src/grammar/GrammarChecker.cpp b/libvoikko/src/grammar/GrammarChecker.cpp
index 2895669..ca455d3 100644
--- a/libvoikko/src/grammar/GrammarChecker.cpp
+++ b/libvoikko/src/grammar/GrammarChecker.cpp
@@ -28,6 +28,7 @@
 
 #include "setup/setup.hpp"
 #include "grammar/GrammarChecker.hpp"
+#include <cwchar>
 
 namespace libvoikko { namespace grammar {
 
@@ -39,11 +40,11 @@ GrammarChecker::~GrammarChecker() {
 	cache.clear();
 }
 
-const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t startpos, int skiperrors) {
+const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors) {
 	if (!cache.paragraph) {
 		return 0;
 	}
-	if (wcscmp(cache.paragraph, text) != 0) {
+	if (cache.paragraphLength != textlen || wmemcmp(cache.paragraph, text, textlen) != 0) {
 		return 0;
 	}
 	CacheEntry * e = cache.firstError;
@@ -67,6 +68,7 @@ void GrammarChecker::paragraphToCache(const wchar_t * text, size_t textlen) {
 	}
 	memcpy(cache.paragraph, text, textlen * sizeof(wchar_t));
 	cache.paragraph[textlen] = L'\0';
+	cache.paragraphLength = textlen;
 	Paragraph * para = paragraphAnalyser->analyseParagraph(text, textlen);
 	if (!para) {
 		return;
diff --git a/libvoikko/src/grammar/GrammarChecker.hpp b/libvoikko/src/grammar/GrammarChecker.hpp
index 27247a6..5a79cbe 100644
--- a/libvoikko/src/grammar/GrammarChecker.hpp
+++ b/libvoikko/src/grammar/GrammarChecker.hpp
@@ -44,7 +44,7 @@ class GrammarChecker {
 		 * Returns a pointer to a cached grammar error or null, if there are no cached
 		 * results for given paragraph.
 		 */
-		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t startpos, int skiperrors);
+		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors);
 		
 		/**
 		 * Performs grammar checking on the entire paragraph and stores the results
diff --git a/libvoikko/src/grammar/interface.cpp b/libvoikko/src/grammar/interface.cpp
index 3250a77..3f5bea1 100644
--- a/libvoikko/src/grammar/interface.cpp
+++ b/libvoikko/src/grammar/interface.cpp
@@ -43,10 +43,10 @@ VOIKKOEXPORT VoikkoGrammarError * voikkoNextGrammarErrorUcs4(VoikkoHandle * opti
 		return 0;
 	}
 	const VoikkoGrammarError * c_error =
-	    options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+	    options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	if (!c_error) {
 		options->grammarChecker->paragraphToCache(text_ucs4, wtextlen);
-		c_error = options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+		c_error = options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	}
 	
 	if (!c_error || c_error->getErrorCode() == 0) {
-- 
2.43.0


From 50fec1887ba67ebe34892b421d2f81cb1a73dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:43 +0000
Subject: [PATCH 07/43] fix: clear speller cache when options affecting cached
 results change

---
 libvoikko/src/setup/setup.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index b7c6ff1..a49e44f 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -63,6 +63,20 @@ static int setGrammarOption(VoikkoHandle * handle, int value, int * option) {
 		return 1;
 }
 
+/** Set an option that affects the results stored in speller cache */
+static int setSpellerOption(VoikkoHandle * handle, int value, int * option) {
+		int newValue = value ? 1 : 0;
+		if (newValue != *option) {
+			*option = newValue;
+			if (handle->spellerCache) {
+				int sizeParam = handle->spellerCache->getSizeParam();
+				delete handle->spellerCache;
+				handle->spellerCache = new spellchecker::SpellerCache(sizeParam);
+			}
+		}
+		return 1;
+}
+
 VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int value) {
 	switch (option) {
 		case VOIKKO_OPT_IGNORE_DOT:
@@ -109,11 +123,11 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			options->ignore_nonwords = (value ? 1 : 0);
 			return 1;
 		case VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS:
-			options->accept_extra_hyphens = (value ? 1 : 0);
-			return 1;
+			return setSpellerOption(options, value,
+			       &(options->accept_extra_hyphens));
 		case VOIKKO_OPT_ACCEPT_MISSING_HYPHENS:
-			options->accept_missing_hyphens = (value ? 1 : 0);
-			return 1;
+			return setSpellerOption(options, value,
+			       &(options->accept_missing_hyphens));
 		case VOIKKO_OPT_ACCEPT_TITLES_IN_GC:
 			return setGrammarOption(options, value,
 			       &(options->accept_titles_in_gc));
-- 
2.43.0


From cbe41c6766664f5375e5f2ffccd77dfca4966923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:23 +0000
Subject: [PATCH 08/43] fix: do not crash on dictionary files that cannot be
 mapped to memory

---
 libvoikko/src/fst/Transducer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/fst/Transducer.cpp b/libvoikko/src/fst/Transducer.cpp
index 1953abf..180092a 100644
--- a/libvoikko/src/fst/Transducer.cpp
+++ b/libvoikko/src/fst/Transducer.cpp
@@ -130,12 +130,16 @@ namespace libvoikko { namespace fst {
 			}
 			
 			struct stat st;
-			fstat(fd, &st);
+			// File must be large enough for the header and symbol count
+			if (fstat(fd, &st) == -1 || !S_ISREG(st.st_mode) || st.st_size < 18) {
+				close(fd);
+				return 0;
+			}
 			fileLength = st.st_size;
 			
 			void * map = mmap(0, fileLength, PROT_READ, MAP_SHARED, fd, 0);
 			close(fd);
-			return map;
+			return map == MAP_FAILED ? 0 : map;
 		#endif
 		#ifdef WIN32
 			HANDLE fileHandle = CreateFile(filePath, GENERIC_READ, FILE_SHARE_READ,
-- 
2.43.0


From 95604f8f687fb2329497f63c8bc9e2779f7be6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:23 +0000
Subject: [PATCH 09/43] fix: unmap dictionary files that are not of the
 expected type

---
 libvoikko/src/fst/UnweightedTransducer.cpp | 12 +++++++++---
 libvoikko/src/fst/WeightedTransducer.cpp   | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index ce9f0cd..ef54c03 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -127,9 +127,15 @@ namespace libvoikko { namespace fst {
 		if (!map) {
 			throw setup::DictionaryException("Unweighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
-		if (isWeightedTransducerFile(static_cast<char *>(map))) {
-			throw setup::DictionaryException("Expected unweighted but got weighted transducer");
+		try {
+			byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
+			if (isWeightedTransducerFile(static_cast<char *>(map))) {
+				throw setup::DictionaryException("Expected unweighted but got weighted transducer");
+			}
+		}
+		catch (const setup::DictionaryException &) {
+			vfstMunmap(map, fileLength);
+			throw;
 		}
 		if (byteSwapped) {
 			byteSwapTransducer(map, fileLength);
diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 25e5b6c..a68025a 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -133,9 +133,15 @@ namespace libvoikko { namespace fst {
 			DEBUG(filePath);
 			throw setup::DictionaryException("Weighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
-		if (!isWeightedTransducerFile(static_cast<char *>(map))) {
-			throw setup::DictionaryException("Expected weighted but got unweighted transducer");
+		try {
+			byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
+			if (!isWeightedTransducerFile(static_cast<char *>(map))) {
+				throw setup::DictionaryException("Expected weighted but got unweighted transducer");
+			}
+		}
+		catch (const setup::DictionaryException &) {
+			vfstMunmap(map, fileLength);
+			throw;
 		}
 		if (byteSwapped) {
 			byteSwapTransducer(map, fileLength);
-- 
2.43.0


From fdbe1f7f0b974f0f6c4c16ed975bd6a76507c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:35 +0000
Subject: [PATCH 10/43] fix: free grammar checks when opening autocorrection
 data fails

---
 libvoikko/src/grammar/FinnishRuleEngine.cpp | 13 ++++++++++++-
 libvoikko/src/grammar/FinnishRuleEngine.hpp |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine.cpp b/libvoikko/src/grammar/FinnishRuleEngine.cpp
index c2df81c..7e22f67 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine.cpp
@@ -35,6 +35,7 @@
 #include "grammar/FinnishRuleEngine/NegativeVerbCheck.hpp"
 #include "grammar/FinnishRuleEngine/CompoundVerbCheck.hpp"
 #include "grammar/FinnishRuleEngine/SidesanaCheck.hpp"
+#include "setup/DictionaryException.hpp"
 #include "grammar/FinnishRuleEngine/RelativePronounCheck.hpp"
 
 #ifdef HAVE_VFST
@@ -54,12 +55,22 @@ FinnishRuleEngine::FinnishRuleEngine(VoikkoHandle * voikkoOptions) :
 #ifdef HAVE_VFST
 	if (voikkoOptions->dictionary.getGrammarBackend().getBackend() == "finnishVfst") {
 		std::string autocorrFile = voikkoOptions->dictionary.getGrammarBackend().getPath() + "/autocorr.vfst";
-		sentenceChecks.push_back(new check::VfstAutocorrectCheck(autocorrFile));
+		try {
+			sentenceChecks.push_back(new check::VfstAutocorrectCheck(autocorrFile));
+		}
+		catch (const setup::DictionaryException &) {
+			deleteSentenceChecks();
+			throw;
+		}
 	}
 #endif
 }
 
 FinnishRuleEngine::~FinnishRuleEngine() {
+	deleteSentenceChecks();
+}
+
+void FinnishRuleEngine::deleteSentenceChecks() {
 	std::list<check::SentenceCheck *>::iterator i = sentenceChecks.begin();
 	for (; i != sentenceChecks.end(); ++i) {
 		delete *i;
diff --git a/libvoikko/src/grammar/FinnishRuleEngine.hpp b/libvoikko/src/grammar/FinnishRuleEngine.hpp
index d50b463..394cbb1 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine.hpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine.hpp
@@ -50,6 +50,8 @@ class FinnishRuleEngine : public RuleEngine {
 		void check(const Paragraph * paragraph);
 
 	private:
+		void deleteSentenceChecks();
+
 		check::CapitalizationCheck capitalizationCheck;
 		std::list<check::SentenceCheck *> sentenceChecks;
 		VoikkoHandle * voikkoOptions;
-- 
2.43.0


From 1dea64b1ceb78e38525217005bd1b468abccce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:35 +0000
Subject: [PATCH 11/43] fix: terminate suggestion generator before deleting it

---
 libvoikko/src/setup/setup.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index a49e44f..c9bb266 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -114,6 +114,7 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			spellchecker::suggestion::SuggestionType type = (value ? 
 				spellchecker::suggestion::SUGGESTION_TYPE_OCR :
 				spellchecker::suggestion::SUGGESTION_TYPE_STD);
+			options->suggestionGenerator->terminate();
 			delete options->suggestionGenerator;
 			options->suggestionGenerator =
 				spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(options, type);
@@ -224,8 +225,11 @@ VOIKKOEXPORT VoikkoHandle * voikkoInit(const char ** error, const char * langcod
 			delete options->hyphenator;
 			options->hyphenator = 0;
 		}
-		delete options->suggestionGenerator;
-		options->suggestionGenerator = 0;
+		if (options->suggestionGenerator) {
+			options->suggestionGenerator->terminate();
+			delete options->suggestionGenerator;
+			options->suggestionGenerator = 0;
+		}
 		if (options->speller) {
 			options->speller->terminate();
 			delete options->speller;
-- 
2.43.0


From a30f1c11bbe7aca0587ddac096e9b03d9c085a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:54 +0000
Subject: [PATCH 12/43] fix: do not crash when terminating a handle while no
 handles exist

---
 libvoikko/src/compatibility/interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/compatibility/interface.cpp b/libvoikko/src/compatibility/interface.cpp
index 0ecad1e..eae6a29 100644
--- a/libvoikko/src/compatibility/interface.cpp
+++ b/libvoikko/src/compatibility/interface.cpp
@@ -128,7 +128,7 @@ VOIKKOEXPORT const char * voikko_init(int * handle, const char * langcode, int c
 }
 
 VOIKKOEXPORT int voikko_terminate(int handle) {
-	if (handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
+	if (handles && handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
 		voikkoTerminate(handles[handle]);
 		handles[handle] = 0;
 		freeHandlesIfPossible();
-- 
2.43.0


From 6f01e03613da07180d9f6d68330770705d070c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:54 +0000
Subject: [PATCH 13/43] fix: do not prefer dictionaries with ten character tags
 as if they were standard

---
 libvoikko/src/setup/DictionaryFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/DictionaryFactory.cpp b/libvoikko/src/setup/DictionaryFactory.cpp
index 6be8652..ef68266 100644
--- a/libvoikko/src/setup/DictionaryFactory.cpp
+++ b/libvoikko/src/setup/DictionaryFactory.cpp
@@ -92,7 +92,7 @@ list<Dictionary> DictionaryFactory::findAllAvailable(const std::string & path) {
 		if (i->second.isDefault()) {
 			dicts.push_front(i->second);
 		}
-		else if (i->first.rfind("-x-standard") == i->first.size() - 11 &&
+		else if (i->first.size() >= 11 && i->first.rfind("-x-standard") == i->first.size() - 11 &&
 		         !DictionaryLoader::hasDefaultForLanguage(&dictMap, i->second.getLanguage().getLanguage())) {
 			dicts.push_front(i->second);
 		}
-- 
2.43.0


From d18722e0a6e88879295aab7c36c21b67a76019cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:57 +0000
Subject: [PATCH 14/43] fix: do not crash when hyphenating with analyzers that
 do not provide word structure

---
 .../src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
index 9a4211c..ba42ad3 100644
--- a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
+++ b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
@@ -290,6 +290,10 @@ void AnalyzerToFinnishHyphenatorAdapter::interpretAnalysis(const Analysis * anal
 	const wchar_t * structure = analysis->getValue(Analysis::Key::STRUCTURE);
 	const wchar_t * structurePtr = structure;
 	memset(buffer, ' ', len);
+	if (!structure) {
+		// analyzer does not know the structure of the word
+		return;
+	}
 	if (*structurePtr == L'=') {
 		structurePtr++;
 	}
-- 
2.43.0


From 24bb154f76dd9ffb0bd2bad9724be2d5c2105457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:29 +0000
Subject: [PATCH 15/43] fix: reset flag diacritics when starting a new
 transducer lookup

---
 libvoikko/src/fst/UnweightedTransducer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index ef54c03..6977e25 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -207,6 +207,10 @@ namespace libvoikko { namespace fst {
 		configuration->stateIndexStack[0] = 0;
 		configuration->currentTransitionStack[0] = 0;
 		configuration->inputLength = 0;
+		if (flagDiacriticFeatureCount) {
+			// previous lookup may have been abandoned before reaching its end
+			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));
+		}
 		bool allKnown = true;
 		while ((size_t)configuration->inputLength < inputLen) {
 			std::map<wchar_t,uint16_t>::const_iterator it = stringToSymbol.find(input[configuration->inputLength]);
-- 
2.43.0


From b11a279ebfb9f6cf030e03dc26a04de91b3f0152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:04 +0000
Subject: [PATCH 16/43] fix: reject malformed UTF-8 also at the start of long
 texts in tokenization

---
 libvoikko/src/utils/StringUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/utils/StringUtils.cpp b/libvoikko/src/utils/StringUtils.cpp
index 5b2db07..31f1a0d 100644
--- a/libvoikko/src/utils/StringUtils.cpp
+++ b/libvoikko/src/utils/StringUtils.cpp
@@ -72,7 +72,11 @@ wchar_t * StringUtils::ucs4FromUtf8(const char * const original, size_t byteCoun
 	try {
 		size_t chars;
 		if (maxChars * 6 + 1 < byteCount) {
-			chars = maxChars;
+			// Only the part that will be converted is validated.
+			const char * pos = original;
+			for (chars = 0; chars < maxChars && pos != original + byteCount; chars++) {
+				utf8::next(pos, original + byteCount);
+			}
 		}
 		else {
 			chars = std::min(static_cast<size_t>(utf8::distance(original, original + byteCount)), maxChars);
-- 
2.43.0


From 25ab6bb6fc41799579bc880466a4bfe54ae1e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:26 +0000
Subject: [PATCH 17/43] fix: find the same email addresses in UTF-8 text as in
 wide character text

---
 libvoikko/src/tokenizer/interface.cpp | 43 ++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/tokenizer/interface.cpp b/libvoikko/src/tokenizer/interface.cpp
index c5ae741..41f05c3 100644
--- a/libvoikko/src/tokenizer/interface.cpp
+++ b/libvoikko/src/tokenizer/interface.cpp
@@ -30,6 +30,7 @@
 #include "setup/setup.hpp"
 #include "utils/StringUtils.hpp"
 #include "tokenizer/Tokenizer.hpp"
+#include "character/charset.hpp"
 #include <cwchar>
 
 namespace libvoikko { namespace tokenizer {
@@ -39,14 +40,47 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenUcs4(VoikkoHandle * options,
 	return Tokenizer::nextToken(options, text, textlen, tokenlen);
 }
 
+/**
+ * Returns true if the first token of a text, found by looking at the beginning of the text only, is the
+ * same token that would have been found by looking at the entire text.
+ */
+static bool isFinalToken(const wchar_t * text, size_t textlen, voikko_token_type type, size_t tokenlen) {
+	if (type != TOKEN_WORD && !wcschr(L"-\u2010\u2011", text[0])) {
+		return tokenlen + 5 < textlen;
+	}
+	// Words may be part of an email address that extends further than the word itself.
+	for (size_t i = tokenlen; i + 1 < textlen; i++) {
+		switch (get_char_type(text[i])) {
+			case CHAR_WHITESPACE:
+				return true;
+			case CHAR_UNKNOWN:
+				if (!wcschr(L"@#$%*+=^_`|~", text[i])) {
+					return true;
+				}
+				break;
+			case CHAR_PUNCTUATION:
+				if (!wcschr(L"!&'-/?{}.", text[i])) {
+					return true;
+				}
+				break;
+			case CHAR_DIGIT:
+			case CHAR_LETTER:
+				break;
+		}
+	}
+	return false;
+}
+
 static enum voikko_token_type doVoikkoNextTokenCstr(VoikkoHandle * options, const char * text, size_t textlen,
-                                                           size_t * tokenlen, size_t maxChars) {
+                                                           size_t * tokenlen, size_t maxChars, bool * isFinal) {
 	wchar_t * text_ucs4 = utils::StringUtils::ucs4FromUtf8(text, textlen, maxChars);
 	if (text_ucs4 == 0) {
 		return TOKEN_NONE;
 	}
+	size_t convertedLen = wcslen(text_ucs4);
 	voikko_token_type result =
-		voikkoNextTokenUcs4(options, text_ucs4, wcslen(text_ucs4), tokenlen);
+		voikkoNextTokenUcs4(options, text_ucs4, convertedLen, tokenlen);
+	*isFinal = (convertedLen < maxChars || isFinalToken(text_ucs4, convertedLen, result, *tokenlen));
 	delete[] text_ucs4;
 	return result;
 }
@@ -61,8 +95,9 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenCstr(VoikkoHandle * options,
 	*tokenlen = 0;
 	voikko_token_type result;
 	while (true) {
-		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars);
-		if (result == TOKEN_NONE || *tokenlen + 5 < maxChars) {
+		bool isFinal = false;
+		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars, &isFinal);
+		if (result == TOKEN_NONE || isFinal) {
 			break;
 		}
 		maxChars *= 2;
-- 
2.43.0


From 3a7a6a0649d1d2ee66b3136dfc8246f9a9e549bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:00 +0000
Subject: [PATCH 18/43] fix: treat capital A with grave accent as a letter in
 tokenization

---
 libvoikko/src/character/charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/character/charset.cpp b/libvoikko/src/character/charset.cpp
index 00c3a5e..681c668 100644
--- a/libvoikko/src/character/charset.cpp
+++ b/libvoikko/src/character/charset.cpp
@@ -42,7 +42,7 @@ namespace libvoikko {
 char_type get_char_type(wchar_t c) {
 	if ((c >= 0x41 && c <= 0x5A) || /* A-Z */
 	    (c >= 0x61 && c <= 0x7A) || /* a-z */
-	    (c >= 0xC1 && c <= 0xD6) || /* À-Ö */
+	    (c >= 0xC0 && c <= 0xD6) || /* À-Ö */
 	    (c >= 0xD8 && c <= 0xF6) || /* Ø-ö */
 	    (c >= 0x00F8 && c <= 0x02AF) || /* ø-ɏ */
 	    (c >= 0x0400 && c <= 0x0481) || /* Ѐ-ҁ - Cyrillic */
-- 
2.43.0


From 36a85ba2b15795ce152be8608b82c7518e3ed4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:44 +0000
Subject: [PATCH 19/43] fix: forbidding ugly hyphenation must not add
 hyphenation points

---
 .../src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
index ba42ad3..5f56da8 100644
--- a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
+++ b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
@@ -419,8 +419,7 @@ void AnalyzerToFinnishHyphenatorAdapter::ruleHyphenation(const wchar_t * word,
 	/* -CV (not after special characters, hyphenating "vast'edes" as "vast'e-des" is ugly) */
 	for (; i <= nchars - 2; i++) {
 		if (wcschr(VOIKKO_CONSONANTS, wordCopy[i]) && wcschr(VOIKKO_VOWELS, wordCopy[i+1])
-		    && !wcschr(L"/.:&%\'", wordCopy[i-1])
-			&& (i <= 1 || uglyHyphenation || wordCopy[i-2] != L'\'')) {
+		    && !wcschr(L"/.:&%\'", wordCopy[i-1])) {
 			hyphenationPoints[i] = '-';
 		}
 	}
@@ -486,6 +485,10 @@ void AnalyzerToFinnishHyphenatorAdapter::ruleHyphenation(const wchar_t * word,
 			if (wcschr(VOIKKO_VOWELS, wordCopy[i]) && wcschr(VOIKKO_VOWELS, wordCopy[i+1])) {
 				hyphenationPoints[i+1] = ' ';
 			}
+			if (i >= 2 && wordCopy[i-2] == L'\'' && wcschr(VOIKKO_CONSONANTS, wordCopy[i]) &&
+			    wcschr(VOIKKO_VOWELS, wordCopy[i+1])) {
+				hyphenationPoints[i] = ' ';
+			}
 		}
 	}
 	else if (nchars >= 3) {
-- 
2.43.0


From 8b3ccb839ee61ffbe249175ee6ee723910a4c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:17 +0000
Subject: [PATCH 20/43] fix: do not suggest appending the same letter twice
 after a capital letter

---
 .../spellchecker/suggestion/SuggestionGeneratorInsertion.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorInsertion.cpp b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorInsertion.cpp
index a452a4f..7a2c912 100644
--- a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorInsertion.cpp
+++ b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorInsertion.cpp
@@ -63,7 +63,7 @@ void SuggestionGeneratorInsertion::generate(SuggestionStatus * s) const {
 		if (s->shouldAbort()) {
 			break;
 		}
-		if (*ins == s->getWord()[s->getWordLength()-1]) {
+		if (*ins == SimpleChar::lower(s->getWord()[s->getWordLength()-1])) {
 			continue;
 		}
 		buffer[s->getWordLength()-1] = s->getWord()[s->getWordLength()-1];
-- 
2.43.0


From 6ccb55699e3e7d5888784562a784def6c7c51093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:17 +0000
Subject: [PATCH 21/43] fix: do not return the same suggestion twice when a
 trailing dot is restored

---
 libvoikko/src/spellchecker/suggestions.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 49b6d7c..4ad4dfd 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -48,7 +48,8 @@ wchar_t ** getSuggestions(SuggestionStatus & status, bool addDot) {
 	size_t returnedSuggestionCount = MAX_SUGGESTIONS < status.getSuggestionCount() ?
 	                                 MAX_SUGGESTIONS : status.getSuggestionCount();
 	wchar_t ** suggestions = new wchar_t*[returnedSuggestionCount + 1];
-	for (size_t i = 0; i < returnedSuggestionCount; i++) {
+	size_t added = 0;
+	for (size_t i = 0; i < status.getSuggestionCount() && added < returnedSuggestionCount; i++) {
 		size_t sugglen = wcslen(originalSuggestions[i].word);
 		bool doAddDot = (addDot && originalSuggestions[i].word[sugglen - 1] != L'.');
 		wchar_t * buffer = new wchar_t[sugglen + 1 + (doAddDot ? 1 : 0)];
@@ -60,9 +61,18 @@ wchar_t ** getSuggestions(SuggestionStatus & status, bool addDot) {
 		else {
 			buffer[sugglen] = L'\0';
 		}
-		suggestions[i] = buffer;
+		bool duplicate = false;
+		for (size_t j = 0; j < added && !duplicate; j++) {
+			duplicate = (wcscmp(suggestions[j], buffer) == 0);
+		}
+		if (duplicate) {
+			// "n" and "n." are the same suggestion after adding the dot
+			delete[] buffer;
+			continue;
+		}
+		suggestions[added++] = buffer;
 	}
-	suggestions[returnedSuggestionCount] = 0;
+	suggestions[added] = 0;
 	return suggestions;
 }
 
-- 
2.43.0


From afd4fb5a79a8a8471d666b4f5f94a498646087dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:11 +0000
Subject: [PATCH 22/43] fix: list the value 'positive' among the values of
 attribute COMPARISON

---
 libvoikko/src/morphology/FinnishVfstAnalyzer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index 94ccc78..c4f930b 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -1129,7 +1129,9 @@ std::list<const wchar_t *> FinnishVfstAnalyzer::getAttributeValues(const char *
 		return valuesFromMap(numberMap);
 	}
 	if (attribute == "COMPARISON") {
-		return valuesFromMap(comparisonMap);
+		list<const wchar_t *> values = valuesFromMap(comparisonMap);
+		values.push_front(L"positive");
+		return values;
 	}
 	if (attribute == "FOCUS") {
 		return valuesFromMap(focusMap);
-- 
2.43.0


From 2c1ff9f2bfc27b2bd3a0689c98bb01bfaa3f94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:33 +0000
Subject: [PATCH 23/43] fix: find autocorrect errors after repeated spaces and
 soft hyphens and in later sentences

Positions in the original and in the normalized sentence were mixed with
each other and with positions in the paragraph.
---
 .../VfstAutocorrectCheck.cpp                  | 23 +++++--------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
index c39482c..a887645 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
@@ -129,9 +129,11 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 		size_t prefixLength = 0;
 		if (transducer->nextPrefix(configuration, outputBuffer, BUFFER_SIZE, &prefixLength)) {
 			bool endAtBoundary = false;
-			for (vector<size_t>::iterator p = ucsNormalizedPositions.begin(); p != ucsNormalizedPositions.end(); ++p) {
-				if (ucsPosition + prefixLength == *p) {
+			size_t endPosition = 0;
+			for (size_t n = 0; n < ucsNormalizedPositions.size(); n++) {
+				if (position + prefixLength == ucsNormalizedPositions[n]) {
 					endAtBoundary = true;
+					endPosition = ucsOriginalPositions[n];
 					break;
 				}
 			}
@@ -140,21 +142,8 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 			}
 			CacheEntry * e = new CacheEntry(1);
 			e->error.setErrorCode(GCERR_INVALID_SPELLING);
-			size_t startPos = sentence->pos + ucsPosition;
-			e->error.setStartPos(startPos);
-			size_t lengthCorrection = 0;
-			for (size_t n = 0; n < ucsOriginalPositions.size(); n++) {
-				size_t oPos = ucsOriginalPositions[n];
-				size_t nPos = ucsNormalizedPositions[n];
-				if (oPos <= startPos) {
-					lengthCorrection = oPos - nPos;
-				}
-				if (nPos > startPos + prefixLength) {
-					lengthCorrection = (ucsOriginalPositions[n - 1] - ucsNormalizedPositions[n - 1]) - lengthCorrection;
-					break;
-				}
-			}
-			e->error.setErrorLen(prefixLength + lengthCorrection);
+			e->error.setStartPos(sentence->pos + ucsPosition);
+			e->error.setErrorLen(endPosition - ucsPosition);
 			if (lowerFirst) {
 				outputBuffer[0] = character::SimpleChar::upper(outputBuffer[0]);
 			}
-- 
2.43.0


From d539cedf3840bc9dec94c9421a006582a833c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 24/43] fix: no missing end punctuation in the middle of a
 paragraph with over 200 sentences

---
 libvoikko/src/grammar/FinnishRuleEngine/checks.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine/checks.cpp b/libvoikko/src/grammar/FinnishRuleEngine/checks.cpp
index 2da4d14..3fc16ff 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine/checks.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine/checks.cpp
@@ -228,6 +228,7 @@ void gc_end_punctuation(VoikkoHandle * options, const Paragraph * paragraph) {
 	if (options->accept_bulleted_lists_in_gc) return;
 	
 	Sentence * sentence = paragraph->sentences[paragraph->sentenceCount - 1];
+	if (sentence->type == SENTENCE_PROBABLE) return; // paragraph was too long to be analysed to its end
 	Token * token = sentence->tokens + (sentence->tokenCount - 1);
 	if (token->type == TOKEN_PUNCTUATION) return;
 	CacheEntry * e = new CacheEntry(0);
-- 
2.43.0


From 9822347c7c7bb9ce695453d33cc51254411df398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 25/43] fix: forget cached grammar errors when hyphen options
 of the speller change

---
 libvoikko/src/setup/setup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index c9bb266..9935385 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -73,6 +73,8 @@ static int setSpellerOption(VoikkoHandle * handle, int value, int * option) {
 				delete handle->spellerCache;
 				handle->spellerCache = new spellchecker::SpellerCache(sizeParam);
 			}
+			// finding the ends of sentences depends on speller
+			handle->grammarChecker->cache.clear();
 		}
 		return 1;
 }
-- 
2.43.0


From d4c9eff1884544b2860ec7b10060fa928c285efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 26/43] fix: look for the data of an explicitly named grammar
 backend in the dictionary directory

---
 libvoikko/src/setup/V5DictionaryLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/V5DictionaryLoader.cpp b/libvoikko/src/setup/V5DictionaryLoader.cpp
index dbe774d..b5034ae 100644
--- a/libvoikko/src/setup/V5DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V5DictionaryLoader.cpp
@@ -109,7 +109,7 @@ Dictionary V5DictionaryLoader::dictionaryFromPath(const string & path) {
 			hyphenatorBackend = BackendProperties(line.substr(20), true);
 		}
 		else if (line.find("Grammar-Backend: ") == 0) {
-			grammarBackend = BackendProperties(line.substr(17), true);
+			grammarBackend = BackendProperties(line.substr(17), path, true);
 		}
 	}
 	file.close();
-- 
2.43.0


From ce005ceae2e9830784d2263940fc3b1c5de67b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:34 +0000
Subject: [PATCH 27/43] fix: do not extend the sign when swapping bytes of
 transition weights

---
 libvoikko/src/fst/WeightedTransducer.cpp | 2 +-
 libvoikko/src/tools/voikkovfstc.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index a68025a..457d7e4 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -63,7 +63,7 @@ namespace libvoikko { namespace fst {
 	}
 	
 	static int16_t swap(int16_t x) {
-		return (x>>8) | (x<<8);
+		return static_cast<int16_t>(swap(static_cast<uint16_t>(x)));
 	}
 	
 	static uint32_t swap(uint32_t x) {
diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index b2aa41a..8148091 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -56,7 +56,7 @@ static uint16_t swap(uint16_t x) {
 }
 
 static int16_t swap(int16_t x) {
-	return (x>>8) | (x<<8);
+	return static_cast<int16_t>(swap(static_cast<uint16_t>(x)));
 }
 
 static uint16_t swapIf(bool doSwap, uint16_t x) {
-- 
2.43.0


From 5e01de182a8626127ea91d680b2529b99070ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:34 +0000
Subject: [PATCH 28/43] fix: try all flag transitions of weighted transducers
 at the end of input

---
 libvoikko/src/fst/WeightedTransducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 457d7e4..605aa1e 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -366,7 +366,7 @@ namespace libvoikko { namespace fst {
 					}
 					goto nextInMainLoop;
 				}
-				else if (currentTransition->symIn > inputSym) {
+				else if (currentTransition->symIn > inputSym && currentTransition->symIn >= firstNormalChar) {
 					break;
 				}
 				else if (tc >= 1 && currentTransition->symIn >= firstNormalChar &&
-- 
2.43.0


From ae79b63aeb3a0d27d853a89d3cc41ce8bdae421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:34 +0000
Subject: [PATCH 29/43] fix: restore flag diacritics when backtracking in the
 error model of suggestions

---
 libvoikko/src/fst/WeightedTransducer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 605aa1e..3955fb1 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -428,6 +428,9 @@ namespace libvoikko { namespace fst {
 				if (previousInputSymbol >= firstNormalChar) {
 					configuration->inputDepth--;
 				}
+				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
+					configuration->flagDepth--;
+				}
 			}
 			configuration->currentTransitionStack[configuration->stackDepth]++;
 		}
-- 
2.43.0


From 1e76c6808a63535de0ac85da5a0346ed62c10b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:08 +0000
Subject: [PATCH 30/43] fix: do not crash when checking grammar with analyzers
 that do not provide word structure

---
 libvoikko/src/grammar/FinnishAnalysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/grammar/FinnishAnalysis.cpp b/libvoikko/src/grammar/FinnishAnalysis.cpp
index 638dd86..af4fd06 100644
--- a/libvoikko/src/grammar/FinnishAnalysis.cpp
+++ b/libvoikko/src/grammar/FinnishAnalysis.cpp
@@ -91,7 +91,7 @@ void FinnishAnalysis::analyseToken(Token * token) {
 		const wchar_t * sijamuoto = (*it)->getValue(morphology::Analysis::Key::SIJAMUOTO);
 		const wchar_t * possibleGeographicalName = (*it)->getValue(morphology::Analysis::Key::POSSIBLE_GEOGRAPHICAL_NAME);
 		const wchar_t * requireFollowingVerb = (*it)->getValue(morphology::Analysis::Key::REQUIRE_FOLLOWING_VERB);
-		if (wcslen(structure) < 2 || (structure[1] != L'p' &&
+		if (!structure || wcslen(structure) < 2 || (structure[1] != L'p' &&
 		    structure[1] != L'q')) {
 			// Word may start with a capital letter anywhere
 			token->firstLetterLcase = false;
-- 
2.43.0


From 2d8629cc0bc33a09880408ef8117dafe153e4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:37 +0000
Subject: [PATCH 31/43] fix: voikkospell: collect results of all threads when
 there are fewer blocks of words than threads

---
 libvoikko/src/tools/voikkospell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/tools/voikkospell.cpp b/libvoikko/src/tools/voikkospell.cpp
index a79e248..80b0534 100644
--- a/libvoikko/src/tools/voikkospell.cpp
+++ b/libvoikko/src/tools/voikkospell.cpp
@@ -216,6 +216,8 @@ static void handleWordMultiThread(const wchar_t * word) {
 static void finishProcessing() {
 	#ifdef HAVE_PTHREAD
 		queueNextBlock();
+		// start from the oldest block, which is not at nextThread unless all threads are in use
+		nextThread = (nextThread + threadCount - nThreadsInUse) % threadCount;
 		while (nThreadsInUse > 0) {
 			cleanupThread();
 			nextThread = (nextThread + 1) % threadCount;
-- 
2.43.0


From 1294fde87ad43a084b7309b7b1778dce93272ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:52 +0000
Subject: [PATCH 32/43] fix: voikkogc: count the lines of input for option -n

---
 libvoikko/src/tools/voikkogc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvoikko/src/tools/voikkogc.cpp b/libvoikko/src/tools/voikkogc.cpp
index ed558c7..136eb39 100644
--- a/libvoikko/src/tools/voikkogc.cpp
+++ b/libvoikko/src/tools/voikkogc.cpp
@@ -250,6 +250,7 @@ int main(int argc, char ** argv) {
 
 	std::string utf8_line;
 	while (std::getline(std::cin, utf8_line)) {
+		++lineNumber;
 		if (utf8_line.empty()) continue;
 
 		const char * src = utf8_line.c_str();
-- 
2.43.0


From 0cbca53c362ae3369405bf84f26b312a8eee1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:26 +0000
Subject: [PATCH 33/43] fix: python: make the order of dictionaries consistent

---
 libvoikko/python/libvoikko.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index cf5fd76..a34e2dc 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -111,12 +111,12 @@ class Dictionary:
     def __lt__(self, other):
         if not isinstance(other, Dictionary):
             return False
-        if self.language < other.language:
-            return True
-        if self.script < other.script:
-            return True
-        if self.variant < other.variant:
-            return True
+        if self.language != other.language:
+            return self.language < other.language
+        if self.script != other.script:
+            return self.script < other.script
+        if self.variant != other.variant:
+            return self.variant < other.variant
         return self.description < other.description
 
     def __eq__(self, other):
-- 
2.43.0


From 7c226648750d2aacb882e4c39eed8e08fdb66256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:26 +0000
Subject: [PATCH 34/43] fix: python: do not crash when hyphenating a word that
 is too long for the library

---
 libvoikko/python/libvoikko.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index a34e2dc..1b3c63f 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -795,6 +795,8 @@ class Voikko(object):
             return word
         cHyphenated = self.__lib.voikkoInsertHyphensCstr(
             self.__handle, word.encode("UTF-8"), separator.encode("UTF-8"), _boolToInt(allowContextChanges))
+        if not bool(cHyphenated):
+            return word
         hyphenated = string_at(cHyphenated)
         self.__lib.voikkoFreeCstr(cHyphenated)
         return unicode_str(hyphenated, "UTF-8")
-- 
2.43.0


From 07490f4524cf30a6be3e39b29b41c1d631c08e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:26 +0000
Subject: [PATCH 35/43] fix: python: do not crash when the language of grammar
 error descriptions is empty

---
 libvoikko/python/libvoikko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index 1b3c63f..7a23abd 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -611,7 +611,7 @@ class Voikko(object):
     def __getGrammarError(self, cGrammarError, language):
         cErrorShortDescription = self.__lib.voikkoGetGrammarErrorShortDescription(
             cGrammarError,
-            _anyStringToUtf8(language)
+            _anyStringToUtf8(language) or b""
         )
         shortDescription = unicode_str(string_at(cErrorShortDescription), "UTF-8")
         self.__lib.voikkoFreeErrorMessageCstr(cErrorShortDescription)
-- 
2.43.0


From 706498e85f26f16a6060621dee61638ac43a21b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:22 +0000
Subject: [PATCH 36/43] fix: java: sentences and grammar errors in text with
 characters outside the BMP

---
 .../src/main/java/org/puimula/libvoikko/Voikko.java | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 0c60cf0..4c1b44e 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -243,17 +243,18 @@ public class Voikko {
             if (cError == null) {
                 return;
             }
-            errorList.add(getGrammarError(cError, offset, language));
+            errorList.add(getGrammarError(cError, paragraph, offset, language));
             lib.voikkoFreeGrammarError(cError);
             skipErrors++;
         }
     }
 
-    private GrammarError getGrammarError(VoikkoGrammarError cError, int offset, String language) {
+    private GrammarError getGrammarError(VoikkoGrammarError cError, String paragraph, int offset, String language) {
         final Libvoikko lib = getLib();
         int errorCode = lib.voikkoGetGrammarErrorCode(cError);
-        int startPos = lib.voikkoGetGrammarErrorStartPos(cError).intValue();
-        int errorLength = lib.voikkoGetGrammarErrorLength(cError).intValue();
+        // The library counts characters, Java counts UTF-16 code units.
+        int startPos = paragraph.offsetByCodePoints(0, lib.voikkoGetGrammarErrorStartPos(cError).intValue());
+        int errorLength = paragraph.offsetByCodePoints(startPos, lib.voikkoGetGrammarErrorLength(cError).intValue()) - startPos;
         Pointer cSuggestions = lib.voikkoGetGrammarErrorSuggestions(cError);
         List<String> suggestions;
         if (cSuggestions == null) {
@@ -379,9 +380,9 @@ public class Voikko {
             int sentenceTypeInt = lib.voikkoNextSentenceStartCstr(handle, textBytes, new SizeT(textLen), sentenceLenByRef);
             int sentenceLen = sentenceLenByRef.getValue().intValue();
             SentenceStartType sentenceType = SentenceStartType.values()[sentenceTypeInt];
-            String tokenText = text.substring(0, sentenceLen);
+            String tokenText = text.substring(0, text.offsetByCodePoints(0, sentenceLen));
             result.add(new Sentence(tokenText, sentenceType));
-            text = text.substring(sentenceLen);
+            text = text.substring(tokenText.length());
             textBytes = s2n(text);
             textLen = textBytes.length - 1;
         }
-- 
2.43.0


From 74519e41148c336fd73450d4815afce9890dc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:22 +0000
Subject: [PATCH 37/43] fix: java: do not fail when hyphenating a word that is
 too long for the library

---
 .../src/main/java/org/puimula/libvoikko/Voikko.java    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 4c1b44e..cfa18b1 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -401,7 +401,11 @@ public class Voikko {
      */
     public synchronized String getHyphenationPattern(String word) {
         requireValidHandle();
-        if (!isValidInput(word)) {
+        ByteArray cPattern = null;
+        if (isValidInput(word)) {
+            cPattern = getLib().voikkoHyphenateCstr(handle, s2n(word));
+        }
+        if (cPattern == null) {
             // return string of spaces
             StringBuilder sb = new StringBuilder();
             for (int i = 0; i < word.length(); i++) {
@@ -409,7 +413,6 @@ public class Voikko {
             }
             return sb.toString();
         }
-        ByteArray cPattern = getLib().voikkoHyphenateCstr(handle, s2n(word));
         String pattern = cPattern.toString();
         getLib().voikkoFreeCstr(cPattern);
         return pattern;
@@ -441,6 +444,9 @@ public class Voikko {
         }
         ByteArray cHyphenated = getLib().voikkoInsertHyphensCstr(
                 handle, s2n(word), s2n(separator), boolToInt(allowContextChanges));
+        if (cHyphenated == null) {
+            return word;
+        }
         String hyphenated = cHyphenated.toString();
         getLib().voikkoFreeCstr(cHyphenated);
         return hyphenated;
-- 
2.43.0


From e11a11e11969f856db6c217595fccbb9888e2a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:22 +0000
Subject: [PATCH 38/43] fix: java: synchronize hyphenate and attributeValues
 like the other methods

---
 .../java/src/main/java/org/puimula/libvoikko/Voikko.java      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index cfa18b1..a3d2bd1 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -437,7 +437,7 @@ public class Voikko {
      *        the hyphen will lead to other changes in the word
      * @return the given word in fully hyphenated form.
      */
-    public String hyphenate(String word, String separator, boolean allowContextChanges) {
+    public synchronized String hyphenate(String word, String separator, boolean allowContextChanges) {
         requireValidHandle();
         if (!isValidInput(word) || !isValidInput(separator)) {
             return word;
@@ -659,7 +659,7 @@ public class Voikko {
      * @return A list of possible attribute values for attribute in morphological analysis or null if
      *         the attribute does not exist or it does not have a known finite set of possible values.
      */
-    public List<String> attributeValues(String attributeName) {
+    public synchronized List<String> attributeValues(String attributeName) {
         requireValidHandle();
         if (!isValidInput(attributeName)) {
             return null;
-- 
2.43.0


From adfddee84f33c4f1636b9cf3a4bed8e37f08a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:09 +0000
Subject: [PATCH 39/43] fix: accept noncharacters U+FFFE and U+FFFF in UTF-8
 text

---
 libvoikko/src/utf8/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/utf8/core.hpp b/libvoikko/src/utf8/core.hpp
index 2748084..2b2cc04 100644
--- a/libvoikko/src/utf8/core.hpp
+++ b/libvoikko/src/utf8/core.hpp
@@ -92,7 +92,7 @@ namespace internal
     template <typename u32>
     inline bool is_code_point_valid(u32 cp)
     {
-        return (cp <= CODE_POINT_MAX && !is_surrogate(cp) && cp != 0xfffe && cp != 0xffff);
+        return (cp <= CODE_POINT_MAX && !is_surrogate(cp));
     }
 
     template <typename octet_iterator>
-- 
2.43.0


From 6e49de79453fa13e630ab88672161149295e600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:41 +0000
Subject: [PATCH 40/43] fix: correct the structure of words with more than one
 colon

---
 libvoikko/src/morphology/FinnishVfstAnalyzer.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index c4f930b..a2e5d48 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -276,15 +276,13 @@ static wchar_t * parseStructure(const wchar_t * fstOutput, size_t wlen) {
 			}
 		}
 		else if (fstOutput[i] == L':') {
-			if (isAbbr) {
-				if (charsSeen > charsFromDefault) {
-					createDefaultStructure(charsSeen - charsFromDefault, defaultTitleCase, structure, structurePos, isAbbr);
-					decreaseCharsMissing(charsMissing, charsSeen, charsFromDefault);
-					charsSeen = 0;
-					charsFromDefault = 0;
-				}
-				isAbbr = false;
+			if (charsSeen > charsFromDefault) {
+				createDefaultStructure(charsSeen - charsFromDefault, defaultTitleCase, structure, structurePos, isAbbr);
+				decreaseCharsMissing(charsMissing, charsSeen, charsFromDefault);
+				charsSeen = 0;
+				charsFromDefault = 0;
 			}
+			isAbbr = false;
 			structure[structurePos++] = L':';
 			if (charsMissing) {
 				charsMissing--;
-- 
2.43.0


From 1a70a3e720ad00d3c54188180e53867de638743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:23 +0000
Subject: [PATCH 41/43] fix: do not replace letters when hyphenating words that
 the dictionary spells with extra letters

---
 .../src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp   | 6 +++---
 .../src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp   | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
index 5f56da8..aac5ff9 100644
--- a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
+++ b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
@@ -193,7 +193,7 @@ char ** AnalyzerToFinnishHyphenatorAdapter::splitCompounds(const wchar_t * word,
 	while (it != analyses->end()) {
 		char * result = new char[len + 1];
 		result[len] = '\0';
-		interpretAnalysis(*it++, result, len - (*dotRemoved ? 1 : 0));
+		interpretAnalysis(*it++, word, result, len - (*dotRemoved ? 1 : 0));
 		if (*dotRemoved) {
 			result[len - 1] = ' ';
 		}
@@ -286,7 +286,7 @@ char * AnalyzerToFinnishHyphenatorAdapter::intersectHyphenations(char ** hyphena
 }
 
 void AnalyzerToFinnishHyphenatorAdapter::interpretAnalysis(const Analysis * analysis,
-	         char * buffer, size_t len) const {
+	         const wchar_t * word, char * buffer, size_t len) const {
 	const wchar_t * structure = analysis->getValue(Analysis::Key::STRUCTURE);
 	const wchar_t * structurePtr = structure;
 	memset(buffer, ' ', len);
@@ -302,7 +302,7 @@ void AnalyzerToFinnishHyphenatorAdapter::interpretAnalysis(const Analysis * anal
 			break;
 		}
 		if (structurePtr[0] == L'-' && structurePtr[1] == L'=') {
-			if (i != 0) {
+			if (i != 0 && word[i] == L'-') {
 				buffer[i] = '=';
 			}
 			structurePtr += 2;
diff --git a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp
index f6f183e..9850a07 100644
--- a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp
+++ b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp
@@ -93,10 +93,11 @@ class AnalyzerToFinnishHyphenatorAdapter : public Hyphenator {
 		 * Sets the known hyphenation points (compound word borders) according to given
 		 * morphological analysis.
 		 * @param analysis morphological analysis of the word
+		 * @param word the word
 		 * @param buffer hyphenation buffer to store the results to
 		 * @param len length of the buffer
 		 */
-		void interpretAnalysis(const morphology::Analysis * analysis, char * buffer,
+		void interpretAnalysis(const morphology::Analysis * analysis, const wchar_t * word, char * buffer,
 		                       size_t len) const;
 
 		/**
-- 
2.43.0


From 6018898770cdc979c502342a7ebd790b347e8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:54 +0000
Subject: [PATCH 42/43] fix: js: convert positions and lengths of the library
 to UTF-16

The library counts Unicode characters, JavaScript strings are indexed by
UTF-16 code units. Tokens, sentences and grammar errors after a character
outside the basic multilingual plane were cut at wrong positions.
---
 libvoikko/js/libvoikko_api.js | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index a886f20..f491ddb 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -34,6 +34,16 @@ var isValidInput = function(word) {
 	return word.indexOf('\0') == -1;
 }
 
+// Converts a number of Unicode characters, counted from given position
+// of the text, to the number of UTF-16 code units they consist of.
+var charsToCodeUnits = function(text, start, chars) {
+	var end = start;
+	for (; chars > 0 && end < text.length; chars--) {
+		end += text.codePointAt(end) > 0xFFFF ? 2 : 1;
+	}
+	return end - start;
+};
+
 Module["onRuntimeInitialized"] = function() {
 	if ("onLoad" in Module) {
 		Module["onLoad"](Module);
@@ -65,7 +75,7 @@ Module["init"] = function(lang, path) {
 		while (bytesLen > 0) {
 			var textBytesPosition = textBytes + bytesStart;
 			var tokenTypeInt = c_nextTokenCstr(handle, textBytesPosition, bytesLen, tokenLenByRef);
-			var tokenLen = getValue(tokenLenByRef, "i32");
+			var tokenLen = charsToCodeUnits(text, textStart, getValue(tokenLenByRef, "i32"));
 			var tokenType = tokenTypes[tokenTypeInt];
 			var tokenText = text.substring(textStart, textStart + tokenLen);
 			textStart += tokenText.length;
@@ -125,10 +135,10 @@ Module["init"] = function(lang, path) {
 		}
 	};
 	
-	var getGrammarError = function(cError, offset, language) {
+	var getGrammarError = function(cError, paragraph, offset, language) {
 		var errorCode = c_grammarErrorCode(cError);
-		var startPos = c_grammarErrorStartPos(cError);
-		var errorLength = c_grammarErrorLength(cError);
+		var startPos = charsToCodeUnits(paragraph, 0, c_grammarErrorStartPos(cError));
+		var errorLength = charsToCodeUnits(paragraph, startPos, c_grammarErrorLength(cError));
 		var cSuggestions = c_grammarErrorSuggestions(cError);
 		var suggestions = [];
 		if (cSuggestions) {
@@ -153,7 +163,7 @@ Module["init"] = function(lang, path) {
 			if (!cError) {
 				return;
 			}
-			errorList.push(getGrammarError(cError, offset, language));
+			errorList.push(getGrammarError(cError, paragraph, offset, language));
 			c_freeGrammarError(cError);
 			skipErrors++;
 		}
@@ -284,7 +294,7 @@ Module["init"] = function(lang, path) {
 			var sentenceLenByRef = mallocPtr();
 			while (textLen > 0) {
 				var sentenceTypeInt = c_nextSentenceStartCstr(handle, textBytesPtr, textLen, sentenceLenByRef);
-				var sentenceLen = getValue(sentenceLenByRef, "i32");
+				var sentenceLen = charsToCodeUnits(text, 0, getValue(sentenceLenByRef, "i32"));
 				var sentenceType = sentenceTypes[sentenceTypeInt];
 				var sentenceText = text.substring(0, sentenceLen);
 				result.push({"text": sentenceText, "nextStartType": sentenceType});
-- 
2.43.0


From f9e4f5c67220b985e151b8a412a60631d5b72968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:54 +0000
Subject: [PATCH 43/43] fix: js: words that the library refuses to hyphenate

Hyphenation functions of the library return NULL for too long words. The
binding turned that into an empty string, thus losing the word.
---
 libvoikko/js/libvoikko_api.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index f491ddb..22ddb02 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -91,7 +91,8 @@ Module["init"] = function(lang, path) {
 	
 	var getHyphenationPattern = function(word) {
 		requireValidHandle();
-		if (!isValidInput(word)) {
+		var cPattern = isValidInput(word) ? c_hyphenateCstr(handle, word) : 0;
+		if (!cPattern) {
 			// return string of spaces
 			var sb = "";
 			for (var i = 0; i < word.length; i++) {
@@ -99,7 +100,6 @@ Module["init"] = function(lang, path) {
 			}
 			return sb;
 		}
-		var cPattern = c_hyphenateCstr(handle, word);
 		var pattern = UTF8ToString(cPattern);
 		c_freeCstr(cPattern);
 		return pattern;
@@ -322,6 +322,9 @@ Module["init"] = function(lang, path) {
 				return word;
 			}
 			var cHyphenated = c_insertHyphensCstr(handle, word, separator, boolToInt(allowContextChanges));
+			if (!cHyphenated) {
+				return word;
+			}
 			var hyphenated = UTF8ToString(cHyphenated);
 			c_freeCstr(cHyphenated);
 			return hyphenated;
-- 
2.43.0

