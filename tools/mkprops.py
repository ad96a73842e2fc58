import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if hook: d['anchors']['hook_needed']=hook
    P.append(d)
L='libvoikko/src/'
p('C01','No input makes the library touch memory it does not own or crash',
 "For every sequence of calls to the C programming interface with valid handles, and every word or text of any length and any characters (including malformed UTF-8, combining marks, ligatures, control characters, and texts that are not null-terminated where a length is given), the library never reads or writes outside the memory it owns or was given, never uses freed memory, never executes undefined behaviour, and never aborts or throws. This includes every option setting, every dictionary it agreed to open, and every suggestion, pattern, analysis or grammar error it returns being a valid object until released.",
 ['inputs','histories','configurations'],'all call sequences over all words/texts, options and loadable dictionaries',
 'Tests call the API with a few hundred well-formed Finnish words without instrumentation; over-reads there return plausible answers.',
 [L+'spellchecker',L+'grammar',L+'hyphenator',L+'character/charset.cpp',L+'utils',L+'fst',L+'morphology',L+'tokenizer/Tokenizer.cpp'],
 [('length guards at the API boundary',L+'spellchecker/spell.cpp, '+L+'hyphenator/interface.cpp, '+L+'morphology/interface.cpp'),('buffer sizing',L+'character/charset.cpp, '+L+'utils/StringUtils.cpp'),('fixed tables of the grammar paragraph',L+'grammar/FinnishAnalysis.cpp')],['libvoikko C API'])
p('C02','Everything the library acquires is released again',
 "After every object a call returned has been released and every handle terminated, no memory, open file or dictionary mapping acquired by the library remains, whatever queries, option changes, failed initialisations or rejected inputs happened in between. Repeating the same work with the same handle any number of times does not make the memory in use grow without bound.",
 ['histories','fault_sequences'],'all histories of init/option/query/terminate, including initialisations that fail at any stage',
 'No test looks at what remains allocated; failure paths of initialisation are not exercised with resources already acquired.',
 [L+'setup',L+'grammar',L+'spellchecker',L+'morphology/FinnishVfstAnalyzer.cpp',L+'fst/Transducer.cpp'],
 [('terminate() chains',L+'setup/setup.cpp'),('error-path cleanup in voikkoInit',L+'setup/setup.cpp'),('unmap in terminate',L+'fst/Transducer.cpp')],['heap, /proc/self/maps, /proc/self/fd around API calls'])
p('C03','Answers depend only on dictionary, options and input, not on history',
 "For a given dictionary and a given current setting of the options, every query (spelling, suggestions, hyphenation, tokens, sentences, analyses, grammar errors) returns the same answer no matter which queries were made earlier through that handle, in which order the current option values were set, or which values the options had before. In particular asking twice gives the same answer, and an option change takes effect on the very next query.",
 ['histories','configurations'],'all histories of queries and option changes before the observed query',
 'Tests run each word once in a fixed order with mostly fixed options; stale caches and leftover search state need a particular earlier history.',
 [L+'spellchecker/SpellerCache.cpp',L+'spellchecker/spell.cpp',L+'grammar/GcCache.cpp',L+'setup/setup.cpp',L+'fst/UnweightedTransducer.cpp',L+'morphology/FinnishVfstAnalyzer.cpp'],
 [('cache invalidation on option changes',L+'setup/setup.cpp'),('grammar cache keyed by text',L+'grammar/GcCache.cpp, '+L+'grammar/GrammarChecker.cpp'),('search state reset per lookup',L+'fst/*Transducer.cpp')],['C API answers of a used handle and a fresh handle'])
p('C04','Handles are isolated and may be used from different threads',
 "Several handles, of the same or different dictionaries, may exist at once and be created, used and terminated concurrently in different threads as long as each handle is used by one thread at a time. Each gives exactly the answers it gives when used alone, options of one never affect another, and no unsynchronised access to shared memory takes place.",
 ['schedules','configurations'],'all interleavings of calls on distinct handles, including concurrent initialisation and termination',
 'Tests use one handle in one thread.',
 [L+'setup/setup.cpp',L+'utils',L+'morphology',L+'spellchecker',L+'grammar',L+'compatibility/interface.cpp'],
 [('per-handle state only; no mutable globals',L+'setup/setup.hpp'),('immutable shared tables',L+'character, '+L+'morphology/FinnishVfstAnalyzer.cpp')],['C API under a race detector'])
p('C05','UTF-8, wide-character and older interfaces give the same answers',
 "For every input, the UTF-8 form of a call gives the same answer as its wide-character form (positions and lengths counted in characters in both), and the older handle-number interface gives the same answers as the current one. Input that is not valid UTF-8 is rejected in the documented way (error result, no tokens, no suggestions, no analyses) instead of being answered as some other text.",
 ['inputs'],'all words and texts, valid or invalid as UTF-8, over every pair of equivalent calls',
 'Tests go through the Python or Java binding, which uses one form of each call only.',
 [L+'utils/utils.cpp',L+'utils/StringUtils.cpp',L+'compatibility/interface.cpp',L+'spellchecker/spell.cpp',L+'tokenizer/interface.cpp',L+'sentence/Sentence.cpp',L+'grammar/interface.cpp',L+'hyphenator/interface.cpp',L+'morphology/interface.cpp'],
 [('ucs4FromUtf8/utf8FromUcs4 conversion',L+'utils/StringUtils.cpp')],['pairs of C API calls'])
p('C06','Tokens partition the text and carry the right type',
 "Splitting any text into tokens covers every character exactly once, in order, with no empty token, so that joining the tokens gives back the text. Each token is classified as the documentation says: runs of white space, words (including inner hyphens, colons, apostrophes and periods, numbers, URLs and e-mail addresses), single punctuation characters with the ellipsis kept together, and unknown characters; a trailing period belongs to the word only when the option to ignore a trailing period is set.",
 ['inputs','configurations'],'all texts',
 'Tests split some hand-written sentences.',
 [L+'tokenizer/Tokenizer.cpp',L+'character/SimpleChar.cpp',L+'character/charset.cpp'],
 [('word/URL/e-mail length rules',L+'tokenizer/Tokenizer.cpp'),('character classes',L+'character/charset.cpp')],['voikkoNextToken*'])
p('C07','Sentences partition the text at sentence ends',
 "Splitting any text into sentences covers the whole text without gaps or overlaps, reporting for each boundary whether the next sentence probably or only possibly starts there. A boundary is reported only after sentence-ending punctuation, with the white space after it kept in the sentence that ends and text inside quotation marks kept together, never inside a word. A boundary after an initial, an ordinal or date, an abbreviation known to the dictionary, an ellipsis or a colon is reported only as possible, and one after other sentence-ending punctuation as probable.",
 ['inputs'],'all texts',
 'Tests split a few example paragraphs.',
 [L+'sentence/Sentence.cpp',L+'tokenizer/Tokenizer.cpp'],
 [('end dot and abbreviation logic',L+'sentence/Sentence.cpp')],['voikkoNextSentenceStart*'])
p('C08','Hyphenation patterns fit the word and insert losslessly',
 "The hyphenation pattern of any word has exactly one mark per character of the word as given, uses only the marks for no break, a break, and a break that replaces the character, never breaks before the first character, and replaces only characters that are visible hyphens or apostrophes. Inserting hyphens changes the word only at marked positions, so removing what was inserted (and restoring what was replaced) gives back the original word, with context-changing breaks used only when the caller allows them; words too long for hyphenation are refused or returned unchanged.",
 ['inputs','configurations'],'all words, hyphenation options and insertion strings',
 'Tests check a fixed list of Finnish words.',
 [L+'hyphenator/interface.cpp',L+'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp',L+'character/charset.cpp'],
 [('pattern over the original word',L+'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp'),('insertion',L+'hyphenator/interface.cpp')],['voikkoHyphenate*, voikkoInsertHyphensCstr'])
p('C09','Hyphenation points follow compound structure, syllable rules and options',
 "A break is offered in a word exactly where all analyses of the word agree on a compound boundary or where the Finnish syllable rules place one, and never inside a compound part in a way that leaves the minimum length, ugly-hyphenation, unknown-word or minimum-word-length settings violated. Turning off ugly hyphenation only removes break points, words not in the dictionary are hyphenated by the rules only when unknown words are to be hyphenated, and words shorter than the minimum length get no rule-based points.",
 ['inputs','configurations'],'all words and all settings of the hyphenation options',
 'The word lists in the test suite fix a few settings; the rules interact with case, apostrophes, hyphens and ambiguous analyses.',
 [L+'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp'],
 [('rule hyphenation and compound intersection',L+'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp')],['voikkoHyphenate* against the analyses reported for the same word'])
p('C10','The spelling verdict follows the morphological analyses',
 "A word is accepted exactly when some reading in the dictionary allows it with the capitalisation it was written in: a word in lower case needs a reading with no required capitals, a word with its first letter or all letters in upper case is accepted according to the capitalisation settings, a reading that requires capitals rejects lower-case letters in those places, and soft hyphens, hyphens between parts and a trailing period are handled as documented. Nothing the dictionary does not generate is accepted and nothing it generates in that form is rejected.",
 ['inputs','configurations'],'all words in every letter case',
 'Tests list correct and incorrect words, mostly in one case each; acceptance is a relation between every word, case pattern and reading.',
 [L+'spellchecker/spell.cpp',L+'spellchecker/AnalyzerToSpellerAdapter.cpp',L+'spellchecker/SpellUtils.cpp',L+'spellchecker/FinnishSpellerTweaksWrapper.cpp',L+'morphology/FinnishVfstAnalyzer.cpp'],
 [('structure match',L+'spellchecker/SpellUtils.cpp'),('case handling and tweaks',L+'spellchecker/spell.cpp, '+L+'spellchecker/FinnishSpellerTweaksWrapper.cpp')],['voikkoSpell* against voikkoAnalyzeWord* and the transducer file'])
p('C11','Spelling options change exactly what they document',
 "Each spelling option has exactly its documented effect on every word: ignoring words in all capitals, with numbers or with non-words (URLs and e-mail addresses) accepts exactly those words, the capitalisation options decide exactly the words whose only fault is that capitalisation, ignoring a trailing period accepts a word exactly when the word without it is accepted, and the extra and missing hyphen options only affect words that differ by hyphens. An option never makes any other word accepted or rejected, unknown option numbers are refused, and setting an option back restores the previous behaviour.",
 ['inputs','configurations'],'all words under all 2^n settings of the options',
 'Tests exercise each option with one or two words.',
 [L+'spellchecker/spell.cpp',L+'spellchecker/FinnishSpellerTweaksWrapper.cpp',L+'setup/setup.cpp'],
 [('option checks in order',L+'spellchecker/spell.cpp'),('option setter',L+'setup/setup.cpp')],['voikkoSetBooleanOption/voikkoSetIntegerOption and voikkoSpell*'])
p('C12','Equivalent Unicode spellings of a word are treated alike',
 "Writing the same word with composed or decomposed letters, with Latin ligatures or their letters, or with the alternative hyphen and apostrophe characters the library treats as equal gives the same spelling verdict under every option setting. The suggestions offered for it are the same words in the same order, with the caller's own hyphen and apostrophe characters kept where the suggestion leaves them unchanged.",
 ['inputs'],'all words and all their equivalent encodings',
 'Tests contain a handful of decomposed words.',
 [L+'character/charset.cpp',L+'utils/StringUtils.cpp',L+'spellchecker/spell.cpp',L+'spellchecker/suggestions.cpp',L+'hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp'],
 [('voikko_normalise and its inverse on suggestions',L+'character/charset.cpp')],['C API on equivalent spellings'])
p('C13','Suggestions are correct words, few, distinct and cased like the input',
 "Every suggestion offered for any word consists of words that the spell checker itself accepts under the same options (as long as those let words begin with a capital letter), differs from the other suggestions, and there are at most five of them, preferring simple words over compounds, common inflections over rare ones, and likelier kinds of correction over others. A word is offered its single-edit corrections (letters inserted, removed, changed, swapped or doubled, wrong vowels, a missing space, wrong capitals, and with the OCR strategy confused shapes) when those are correct words and room remains, and a capitalised or period-terminated word gets suggestions in that form.",
 ['inputs','configurations'],'all words, typing and OCR strategies, all spelling options',
 'Tests pin a few suggestion lists.',
 [L+'spellchecker/suggestions.cpp',L+'spellchecker/suggestion',L+'spellchecker/SpellWithPriority.cpp'],
 [('generators',L+'spellchecker/suggestion'),('status with budget and sorting',L+'spellchecker/suggestion/SuggestionStatus.cpp'),('case post-processing',L+'spellchecker/suggestions.cpp')],['voikkoSuggest* and voikkoSpell*'])
p('C14','Morphological analyses describe the word that was asked',
 "Every analysis of any word has a structure that spells out that word character by character with its compound boundaries and capital letters, a word class, a base form, each attribute at most once and with the same value in both text forms, and for attributes with a fixed set of values only values the library itself declares as possible. The analyses of a word are exactly the readings the dictionary's transducer gives for the lower-cased word, with the inflection attributes its output tags state.",
 ['inputs'],'all words the dictionary analyses, and all that it does not',
 'Tests pin attribute values for a few dozen words.',
 [L+'morphology/FinnishVfstAnalyzer.cpp',L+'morphology/Analysis.cpp',L+'morphology/VfstAnalyzer.cpp',L+'morphology/interface.cpp'],
 [('output tag parsing',L+'morphology/FinnishVfstAnalyzer.cpp'),('attribute value tables',L+'morphology/FinnishVfstAnalyzer.cpp, '+L+'morphology/interface.cpp')],['voikkoAnalyzeWord*, voikkoGetAttributeValues'])
p('C15','Grammar errors lie inside the text and can be enumerated completely',
 "Every grammar error reported for any text lies within the text, is not empty, has a known error code with a description of its own in Finnish and English, and errors are enumerated in text order, each exactly once, with a finite end. Asking with a start position and a skip count gives exactly the error that list implies, in any order of asking and mixed with other texts, including texts that are not null-terminated or stand inside a longer buffer.",
 ['inputs','histories'],'all texts, start positions and skip counts, in any order of asking',
 'Tests enumerate errors of one-line sentences from the beginning.',
 [L+'grammar/interface.cpp',L+'grammar/GrammarChecker.cpp',L+'grammar/GcCache.cpp',L+'grammar/error.cpp',L+'grammar/FinnishAnalysis.cpp'],
 [('sorted cache of errors',L+'grammar/GcCache.cpp'),('skip logic',L+'grammar/GrammarChecker.cpp'),('descriptions',L+'grammar/error.cpp')],['voikkoNextGrammarError*'])
p('C16','Each grammar rule fires exactly where its pattern occurs',
 "The punctuation, spacing, repetition, quotation, parenthesis, capitalisation, verb, conjunction and listed-correction rules report an error exactly at the places where the rule is broken, with the extent and the correction the rule states, in every sentence of a paragraph (up to 200 sentences of 500 tokens) and wherever in the text that sentence stands. Options for titles, unfinished paragraphs and bulleted lists suppress exactly the errors they document.",
 ['inputs','configurations'],'all paragraphs built from sentences with and without each fault',
 'Tests check one fault per short sentence.',
 [L+'grammar/FinnishRuleEngine.cpp',L+'grammar/FinnishRuleEngine',L+'grammar/FinnishAnalysis.cpp'],
 [('rule checks',L+'grammar/FinnishRuleEngine'),('option filters',L+'grammar/FinnishRuleEngine/checks.cpp')],['voikkoNextGrammarError*'])
p('C17','Compiled transducers mean what their source says',
 "For every transducer in text form, the compiled file looks up every word to exactly the outputs (and weights) that the source describes, including flag diacritics, empty transitions, states with very many transitions, non-Latin symbols and bracketed tags, and both weighted and unweighted forms and byte orders. The compiled dictionary therefore accepts, analyses and, with an error model, suggests exactly the words of its source, and a malformed description or option is refused with an error.",
 ['programs','inputs'],'all transducers and all words over their alphabet',
 'The tests compile two small dictionaries; wide states, failing flags at the end of input and byte order are not reached.',
 [L+'tools/voikkovfstc.cpp',L+'fst/Transducer.cpp',L+'fst/UnweightedTransducer.cpp',L+'fst/WeightedTransducer.cpp',L+'spellchecker/VfstSuggestion.cpp'],
 [('file layout',L+'tools/voikkovfstc.cpp'),('search with backtracking and flags',L+'fst/UnweightedTransducer.cpp, '+L+'fst/WeightedTransducer.cpp')],['voikkovfstc, then voikkoAnalyzeWord*, voikkoSpell*, voikkoSuggest* on its output'])
p('C18','Unusable dictionaries are refused with an error and no side effects',
 "When the requested dictionary does not exist, has a data file that is missing, empty, not a file, cut within its header, of foreign content or of the wrong kind, names an unknown format or an unknown or unsuitable back end, or the system refuses to open or map a file, opening it fails with an error message and no handle, never a crash, and leaves no memory, mapping or descriptor behind. Good dictionaries in the same places, and handles already open, work the same before and afterwards.",
 ['fault_sequences','configurations'],'all single faults of the files of a dictionary, in any order with successful opens',
 'Tests open valid dictionaries only.',
 [L+'setup/setup.cpp',L+'setup/DictionaryFactory.cpp',L+'setup/V5DictionaryLoader.cpp',L+'fst/Transducer.cpp',L+'morphology/AnalyzerFactory.cpp'],
 [('DictionaryException paths',L+'setup/setup.cpp, '+L+'fst/Transducer.cpp')],['voikkoInit'])
p('C19','Dictionary discovery and selection follow the documented search order',
 "For every arrangement of dictionaries in the given path, the environment's search path, the home directory and the built-in locations, the listed dictionaries are exactly the valid ones, one per language tag with the earlier location winning, each with its description and a language's default (explicit, else its standard variant) ahead of its other variants. The supported-language lists are exactly the languages of those dictionaries. Opening a language, with or without a private-use or script part or an environment override, selects the dictionary the tag designates, by default the first listed, and fails when none matches; the dictionary opened uses the back ends and data its own index names.",
 ['configurations'],'all arrangements of dictionary directories and all language tags',
 'Tests use one directory with one dictionary.',
 [L+'setup/DictionaryFactory.cpp',L+'setup/DictionaryLoader.cpp',L+'setup/V5DictionaryLoader.cpp',L+'setup/LanguageTag.cpp',L+'setup/Dictionary.cpp'],
 [('search path and merging',L+'setup/DictionaryFactory.cpp'),('tag parsing',L+'setup/LanguageTag.cpp')],['voikko_list_dicts, voikkoListSupported*Languages, voikkoInit'])
p('C20','The spelling cache never changes an answer',
 "For every sequence of words and option changes, spelling verdicts are the same for every cache size, including a disabled cache and sizes changed in the middle of the sequence. Words whose cache places coincide, long words, and words with characters outside the usual alphabet never receive each other's verdict.",
 ['histories','configurations'],'all word sequences and cache sizes',
 'Tests never repeat words densely enough to collide and use one cache size.',
 [L+'spellchecker/SpellerCache.cpp',L+'spellchecker/spell.cpp',L+'setup/setup.cpp'],
 [('hash slots compared with the full word',L+'spellchecker/SpellerCache.cpp')],['voikkoSpell* with several cache sizes side by side'])
p('C21','The command-line spell checker loses, reorders or changes no verdict',
 "For every input, option set and number of worker threads, voikkospell prints exactly one verdict per input word, in input order, identical to what the library says for that word under those options, together with its suggestions or analyses when asked for. Output is the same for any thread count and any interleaving of the workers, without data races. Lines that are not valid text or too long are skipped without affecting others, and unusable options are refused with an error status.",
 ['schedules','inputs','configurations'],'all inputs, thread counts and schedules',
 'Tests run the tool, if at all, with one thread.',
 [L+'tools/voikkospell.cpp'],
 [('per-worker word queues and ordered collection',L+'tools/voikkospell.cpp')],['voikkospell stdin/stdout'])
p('C22','The other command-line tools report exactly what the library says',
 "For every input text and option set, voikkohyphenate prints each word with the hyphens the library gives for it, voikkogc prints the sentences, tokens or grammar errors the library finds in each paragraph, and their command-line options have the effect of the corresponding library options. Lines that are not valid text or too long are skipped or reported without affecting the other lines, line numbers count every line of input, and unknown options are refused.",
 ['inputs','configurations'],'all inputs and option combinations',
 'The tools are hardly tested.',
 [L+'tools/voikkohyphenate.cpp',L+'tools/voikkogc.cpp'],
 [('line loop and option mapping',L+'tools/voikkohyphenate.cpp, '+L+'tools/voikkogc.cpp')],['tool stdin/stdout'])
p('C23','The Python binding returns what the library returns',
 "For every Unicode text and every option, the Python interface (libvoikko.Voikko) gives the same verdicts, suggestions, hyphenation patterns, hyphenated words, tokens, sentences, analyses, attribute values and grammar errors (code, position, length, description, suggestions) as the C interface, and the same listings of dictionaries and languages, in Python characters; grammar errors in text of several lines are positioned in the whole text. Text with embedded null characters is spelled wrong, has no suggestions, analyses or errors, is one sentence, hyphenates to itself, and its tokens join to the text with each null an unknown token; words too long for the library hyphenate to themselves. Each setter has the effect of its own option. Everything the library hands out is released, by the call that got it or when the instance is terminated or deleted. Failed construction, unknown options and use after terminate raise VoikkoException; no input crashes or hangs the interpreter. Instances in different threads do not disturb each other. Dictionaries are ordered by language, script, variant and description.",
 ['inputs','histories'],'all strings and sequences of calls',
 'The binding tests use a few sentences.',
 ['libvoikko/python/libvoikko.py'],
 [('ctypes wrappers',"libvoikko/python/libvoikko.py"),('null character handling',"libvoikko/python/libvoikko.py"),('DummyLib after terminate',"libvoikko/python/libvoikko.py")],['libvoikko.Voikko methods','live allocations of the library'])
p('C24','The Java binding returns what the library returns',
 "For every text and option, the Java interface (org.puimula.libvoikko.Voikko) gives the same verdicts, suggestions, hyphenation patterns, hyphenated words, tokens, sentences, analyses, attribute values, grammar errors and listings of dictionaries as the C interface, with positions in UTF-16 units of the given string; text of several lines is checked line by line (LF or CR) with positions in the whole text. Tokens join to the text and carry their offsets; a null character and each half of a character outside the BMP is an unknown token. Otherwise text with embedded null characters is spelled wrong, has no suggestions, analyses or errors, is one sentence, hyphenates to itself; so do words too long for the library. Each setter has the effect of its own option. Everything the library hands out is released. Failed construction and use after terminate raise VoikkoException. One instance may be used, and terminated, from several threads at once with the same answers.",
 ['inputs','histories','schedules'],'all strings, sequences of calls and interleavings of calls on one instance',
 'The binding tests use a few sentences in one thread.',
 ['libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java','libvoikko/java/src/main/java/org/puimula/libvoikko/ByteArray.java','libvoikko/java/src/main/java/org/puimula/libvoikko/Dictionary.java'],
 [('JNA wrappers','libvoikko/java/src/main/java/org/puimula/libvoikko'),('synchronized methods','libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java')],['org.puimula.libvoikko.Voikko methods','live allocations of the library'])
p('C25','The work done for any input is bounded by a modest function of its size',
 "Every call finishes, and the work it does grows no faster than a low power of the length of its input: no word or text of permitted size, however hostile, makes spelling, suggestions, hyphenation, analysis, tokenisation, sentence splitting or grammar checking take exponential time, and tokenising and grammar checking ordinary prose takes work proportional to its length. Words longer than the documented limit are not looked up at all: they are refused at once (the wide-character hyphenation call, which hyphenates them by rule, takes at most quadratic time).",
 ['inputs','configurations'],'all words up to the limits and texts of any size, under every option',
 'Tests use short ordinary words.',
 [L+'spellchecker/FinnishSpellerTweaksWrapper.cpp',L+'spellchecker/suggestion/SuggestionStatus.cpp',L+'fst/UnweightedTransducer.cpp',L+'morphology/FinnishVfstAnalyzer.cpp',L+'grammar'],
 [('length limits',L+'spellchecker/spell.cpp'),('suggestion budget',L+'spellchecker/suggestion/SuggestionStatus.cpp'),('transducer loop limit',L+'fst/UnweightedTransducer.cpp')],['basic-block counter of an instrumented build'])
p('C26','The JavaScript binding returns what the library returns',
 "For every text and option, the JavaScript interface (Module.init and the object it returns) gives the same verdicts, suggestions, hyphenation patterns, hyphenated words, tokens, sentences, analyses, attribute values and grammar errors as the C interface, with positions in UTF-16 units of the given string; text of several lines is checked line by line (LF or CR) with positions in the whole text. Tokens and sentences join to the text, characters outside the BMP in one piece; a null character is an unknown token. Otherwise text with embedded null characters is spelled wrong, has no suggestions, analyses or errors, is one sentence, hyphenates to itself; so do words too long for the library, whose pattern is all spaces. Each setter has the effect of its own option; an unknown suggestion strategy throws. Everything the library hands out and everything the binding allocates is released exactly once, with the function made for it, and no memory outside live blocks is read or written. Failed construction throws the library's message; use after terminate throws.",
 ['inputs','histories'],'all strings and sequences of calls',
 'The binding has only a browser test page with a few sentences, which the build does not run.',
 ['libvoikko/js/libvoikko_api.js'],
 [('cwrap wrappers','libvoikko/js/libvoikko_api.js'),('null character handling','libvoikko/js/libvoikko_api.js'),('memory handling','libvoikko/js/libvoikko_api.js')],['Voikko object methods','blocks of the stand-in heap'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
