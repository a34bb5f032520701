BUILT = None   # ids whose check exists; None = all
ENUM = "bounded exhaustive enumeration of inputs, each compared with an executable reference model"
SEQ = "explicit-state exploration of operation sequences on the real code against a reference model"

prop("C01", "Lookups fall back: matched locale, then fallback language, then source text",
 "For every bundle configuration, localizer and lookup method (any mix of domain, context, plural and format arguments), the returned text is the non-empty translation of the matched locale, otherwise that of the fallback language, otherwise the source text in the singular or plural form that the source language assigns to the count; format arguments are applied to whichever text was chosen. No lookup panics or returns an empty text for a non-empty message. The error-returning variant reports an error exactly when the matched locale did not itself supply the text (no matched locale counts as such; when the locale is the source language its own text counts as supplied unless the count is not a number), and the missing-translation callback is called for every such miss in a loaded language and never when the matched locale supplied the text.",
 ["configurations", "inputs"],
 "all bundles over {source, fallback, requested} language choices x presence/absence/emptiness of each message per language, domain and context x every lookup method x counts",
 "Tests load a handful of fixed catalogs with a few messages each; the fallback chain depends on the product of (which language, which domain, which context, which message, which plural form is missing), which they sample at a few points.",
 ["localizer.go", "locale.go", "bundle.go", "catalog/po.go", "catalog/json.go"],
 [("lookup chain", "localizer.go: lookupSingularTranslation, lookupPluralTranslation"), ("source text", "locale.go: printSourceMessage"), ("catalog lookup", "catalog/po.go getMessage, catalog/json.go getTranslation")],
 ["Localizer.Get … DNPGetf", "KeyLocalizer.*", "LocalizeWithError", "MissingTranslationCallback"],
 "exploration", ENUM, "Complete for the enumerated configuration space (2 translated languages, source language known/unknown/loaded, 2 domains, 2 contexts, per-message presence patterns, all 24 methods, counts 0..2 and a few large/odd ones). Values outside that alphabet are assumed to behave alike.")

prop("C02", "A built bundle and its localizers are safe for concurrent use",
 "Any number of goroutines may create localizers, look up, localize messages and errors, format and humanize through the same bundle, localizer, catalog, rule set or humanizer at the same time. Every call returns exactly what it would return if the calls ran one after the other, and no two calls perform conflicting unsynchronised memory accesses, under every schedule.",
 ["schedules"],
 "all interleavings, up to a preemption bound, of 2-3 goroutines each performing 1-2 calls drawn from an alphabet covering every concurrent-use entry point, on fresh and on already used bundles",
 "The test suite contains no test that uses a bundle from two goroutines, and no test can enumerate interleavings.",
 ["bundle.go", "localizer.go", "locale.go", "utils.go", "catalog/po.go", "catalog/json.go", "catalog/poplural/rule.go", "catalog/cldrplural/evaluation.go", "humanize/humanizer.go"],
 [("immutability after construction", "bundle.go NewBundle"), ("per-language print functions built up front", "utils.go defaultPrinter")],
 ["all Localizer, KeyLocalizer, Bundle, Humanizer, Catalog and RuleSet methods"],
 "model_checking", "stateless model checking of the real code: cooperative scheduler, preemption-bounded exhaustive schedules, race detector live on every schedule",
 "Every schedule up to the preemption bound at statement granularity of the harnesses is executed on the repository's own code (instrumented through a build overlay) and compared with sequential runs; the Go race detector judges conflicting accesses on each of them (hand-offs are invisible to it). Third-party code (x/text) is not preempted inside. Assumes <=2 preemptions, 2-3 goroutines.",
 hook="none in the tree: scheduling points are inserted by a source-to-source overlay at build time")

prop("C03", "Calls leave no trace: results never depend on earlier calls",
 "What a lookup, query, plural evaluation, parse or humanize call returns depends only on its arguments and on how the object was constructed, never on which calls were made before, on which localizer or language they were made, or on what the caller did with earlier results. Lists, maps and messages handed out are copies: changing them changes nothing later returned.",
 ["histories"],
 "all sequences of calls up to a depth over an alphabet of queries, lookups with colliding keys, mutations of returned values and re-use of parser/encoder objects",
 "Tests call each method on a fresh object a few times in one order; a stale cache or an aliased slice only shows for particular two- or three-call histories.",
 ["bundle.go", "localizer.go", "catalog/po.go", "catalog/json.go", "catalog/po/parser.go", "humanize/humanizer.go"],
 [("copies on return", "bundle.go Domains/SupportedLanguages, catalog/po.go Messages/Translations, catalog/json.go Messages/Clone"), ("no mutable state after construction", "bundle.go")],
 ["every public query"],
 "model_checking", SEQ + " (the reference is the same call on a freshly built object)",
 "All histories of the stated depth over the alphabet; colliding keys chosen so that any cache keyed on less than the full argument tuple is exposed.")

prop("C04", "PO files are read faithfully",
 "For every PO file built from the constructs gettext defines (context, plural forms, continuation lines holding one quoted string each, blanks or none around keywords, single-character and \\xNN escapes, comments, references, flags (each list separated by any blanks) and previous texts in front of an entry, optional blank lines between entries and between the parts of an entry, entries in any order, LF or CRLF), reading it yields exactly the entries written: each entry's context, id, plural id and every translation, with continuation lines concatenated, fuzzy and header entries excluded from lookup, and no entry dropped, merged with a neighbour or altered. Duplicate entries and malformed lines are reported as errors rather than silently accepted, and parsing always terminates without panicking.",
 ["inputs"],
 "all files assembled from bounded sequences of line templates covering every token kind, and every truncation of them",
 "Tests parse a few dozen hand-written files; the parser's behaviour depends on the sequence of line kinds (what ended the previous entry, what preceded a continuation line), a product tests do not cover.",
 ["catalog/po/parser.go", "catalog/po/scanner.go", "catalog/po/po_string.go", "catalog/po_decoder.go"],
 [("line scanner with last-token memory", "catalog/po/scanner.go"), ("entry assembly", "catalog/po/parser.go parseMessage")],
 ["po.Parse", "po.NewParser().Parse", "catalog.NewPoDecoder().Decode"],
 "exploration", ENUM, "Exhaustive over the bounded line grammar; the oracle is an independent reader of the gettext PO grammar written for this check.")

prop("C05", "PO string quoting is lossless for every text and wrap width",
 "Every valid UTF-8 text, quoted for a PO file at any wrap width (or unwrapped) and read back, is unchanged. The quoted form consists only of complete double-quoted lines without raw control characters, and quoting any bytes or unquoting any line of bytes terminates without panicking.",
 ["inputs"],
 "all strings over an alphabet of special characters up to a length bound, all control characters and quotable runes, x all small wrap widths",
 "Tests quote about twenty fixed strings at a few widths; wrapping and escaping interact through every (text, width) pair.",
 ["catalog/po/po_string.go", "internal/util/string_buffer.go"],
 [("escape/unescape tables", "catalog/po/po_string.go"), ("wrapping", "catalog/po/po_string.go encodePoStringWithWrap")],
 ["po.EncodePoString", "po.DecodePoString"],
 "exploration", ENUM, "Exhaustive over the stated alphabet/length/width bounds.")

prop("C06", "Writing a PO file and reading it back preserves its contents",
 "Encoding a PO file and parsing the result yields the same entries (context, id, plural id, translations by index), flags, source references (path and line), translator and extracted comments, previous context and text, and header fields, for every wrap width and encoder setting, apart from what the setting explicitly omits; a sort function decides the order. A missing plural form counts as an empty one. A file that was written and read once no longer changes: writing it again and again gives the same bytes.",
 ["inputs"],
 "all files over small sets of messages x comment shapes x header values x encoder settings",
 "Tests compare the encoder's output with fixed texts; no test feeds the encoder's output back for a space of files.",
 ["catalog/po/encoder.go", "catalog/po/parser.go", "catalog/po/wrap.go", "catalog/po/file.go"],
 [("encoder", "catalog/po/encoder.go"), ("parser", "catalog/po/parser.go")],
 ["po.Encoder", "po.Marshal", "po.Parse"],
 "exploration", ENUM, "Exhaustive over the bounded file space. Comments are compared modulo the whitespace at which wrapping breaks lines; header values containing line breaks, references whose path contains a blank or colon, reference columns, and translations of an index other than 0 without a plural id are outside the statement's scope because the format or encoder has no slot for them.")

prop("C07", "Results never depend on Go's map iteration order",
 "Encoding a PO file or JSON catalog, parsing plural rules, building a bundle or a humanizer collection and reading catalogs give the same result for every iteration order of the maps involved: the same bytes, categories, matched languages, texts and errors. The same holds for the order in which equal content was inserted or passed where that order carries no meaning.",
 ["schedules", "configurations"],
 "every order of every map iteration performed (all permutations for small maps), and every insertion order, for a set of closed scenarios covering the encoders, decoders, plural rules, bundles, humanizers and every call of the C03 alphabets",
 "The runtime picks iteration offsets at random, so a test passes or fails by chance; no test owns that choice.",
 ["catalog/po/encoder.go", "catalog/json.go", "catalog/cldrplural/evaluation.go", "humanize/humanizer.go", "bundle.go"],
 [("sorting before output", "catalog/po/encoder.go encode, encodeTranslations; catalog/json.go MarshalJSON")],
 ["po.Encoder.Encode", "JSONEncoder.Encode", "cldrplural.ParseRules", "humanize.New", "NewBundle"],
 "model_checking", "stateless model checking: the map iterator's random choices are taken over (runtime overlay) and enumerated exhaustively with a deviation bound",
 "All orders within the deviation bound (one iteration, or two where that stays within the budget, deviating from the first or the last order) are executed on the real code; for maps of up to 5 entries every permutation is a choice, up to 8 rotations, reversals and exchanges, beyond that 16 starting points.",
 hook="none in the tree: the Go runtime's map iterator is overlaid at build time")

prop("C08", "MO files are read faithfully in either byte order and any layout",
 "A well-formed MO file in either byte order, with any table placement, string placement and padding, yields exactly its entries: context, id, plural id and translations by index, with the header applied and excluded from lookup. A PO file and the MO file compiled from it give catalogs that answer every lookup alike. Files cut off within, or pointing outside for, a table or string give an error, as do files that are not MO files; never a panic, made-up text or memory use out of proportion to the file.",
 ["inputs"],
 "all MO images over small message sets x byte order x table order x layout x optional hash table x header, and every truncation and every single-word corruption of them",
 "Tests read two or three MO files produced by msgfmt on one machine (little endian, one layout).",
 ["internal/mo/parser.go", "catalog/po_decoder.go"],
 [("byte order detection", "internal/mo/parser.go parseByteOrder"), ("descriptor tables", "internal/mo/parser.go parseMessageData"), ("message split", "internal/mo/parser.go parseMessages")],
 ["catalog.NewMoDecoder().Decode", "DecodeReader"],
 "exploration", ENUM, "Images are generated by an independent MO writer; exhaustive over the stated layouts, truncation points and word corruptions.")

prop("C09", "An I/O fault while loading never yields a partial catalog",
 "For every way the underlying file system or reader can misbehave while a catalog is loaded (an error at any open, stat, read or close, short reads, data returned together with EOF, content cut off by an error at any byte), the outcome is either an error or the complete catalog, never a catalog missing or altering entries. A candidate file that cannot be probed (stat) counts as absent. Delivery of the same bytes in any chunking gives the same catalog.",
 ["fault_sequences"],
 "every single fault (and pairs of faults) at every I/O operation of a load, and every chunking pattern up to a bound, for PO, MO and JSON",
 "Tests use in-memory or on-disk files that never fail and always deliver full reads.",
 ["loader.go", "catalog/po/scanner.go", "internal/mo/parser.go", "catalog/po_decoder.go", "catalog/json_decoder.go"],
 [("error propagation", "loader.go loadFromFile, catalog/po/scanner.go read, internal/mo/parser.go read")],
 ["NewBundle with WithDomainFs", "FilesystemLoader.Load", "DecoderV2.DecodeReader"],
 "fault_enumeration", "exhaustive fault injection: every I/O operation of the load x every fault kind, on the real loader and decoders",
 "Complete for one and two faults per load over the operations the loader actually performs on the small fixture files.")

prop("C10", "Plural-Forms expressions select the form C semantics prescribe",
 "For every Plural-Forms header that is accepted, the form selected for a count is the value of the expression under C operator precedence, associativity and truth rules, for every count from 0 to 2^63-1, whether or not a predefined implementation is used for that header and however the expression is spaced or parenthesised. Headers outside the grammar are rejected with an error and never cause a panic (chains of relational, equality or modulus operators may be rejected).",
 ["inputs"],
 "all expressions up to an operator bound over n and small constants x counts, all published gettext headers x all counts up to a bound plus powers of ten",
 "Tests check some published headers for some counts; the generic evaluator and the table of predefined rules are only compared at those points.",
 ["catalog/poplural/rule.go", "catalog/poplural/ast/parser.go", "catalog/poplural/ast/compile.go", "catalog/poplural/builtin_gen.go"],
 [("predefined rule selection by canonical text", "catalog/poplural/rule.go Parse, ast/compile.go"), ("evaluation", "catalog/poplural/rule.go evaluateNode")],
 ["poplural.Parse", "Rule.Evaluate", "catalog lookups with a Plural-Forms header"],
 "exploration", ENUM, "Independent recursive-descent C evaluator as oracle; exhaustive to the operator bound.")

prop("C11", "Built-in CLDR plural rules implement the CLDR tables",
 "For every language with a built-in CLDR rule set and every number of up to 15 significant digits, the category chosen is the one the CLDR plural rules of that language define from the number's digits, and it is one of the categories the rule set lists. Regional and script variants use their own rule if one exists, otherwise their base language's, and languages without rules use the English ones and say so.",
 ["inputs"],
 "all built-in languages (and regional variants) x all integers up to a bound, powers of ten, and all decimals with up to four visible fraction digits",
 "Generated tests check the sample numbers CLDR lists, at most a few dozen per category.",
 ["catalog/cldrplural/builtin_gen.go", "catalog/cldrplural/builtin.go", "catalog/cldrplural/cldr.go", "catalog/cldrplural/evaluation.go"],
 [("generated form functions", "catalog/cldrplural/builtin_gen.go"), ("operands", "catalog/cldrplural/cldr.go")],
 ["cldrplural.ForLanguage", "RuleSet.Evaluate"],
 "exploration", ENUM, "Oracle: an independent evaluator of the CLDR rule texts (tables transcribed into the check) with exact decimal arithmetic.")

prop("C12", "CLDR rules given as text are evaluated as the specification says",
 "Rule texts accepted at run time are evaluated according to the CLDR rule grammar (or binds weaker than and; ranges and lists; modulus; negated lists), for every number, and categories are tried so that 'other' applies only when no other rule matches. Texts outside the grammar give an error (sample lists and an ellipsis are skipped); no text makes parsing hang, exhaust memory or panic, then or at evaluation.",
 ["inputs"],
 "all rule texts up to a token bound over the grammar's token alphabet x numbers; all relation shapes x operands x moduli",
 "Tests evaluate around twenty rule texts.",
 ["catalog/cldrplural/evaluation.go", "catalog/cldrplural/ast/parser.go", "catalog/cldrplural/ast/scanner.go"],
 [("parser", "catalog/cldrplural/ast/parser.go"), ("evaluator", "catalog/cldrplural/evaluation.go")],
 ["cldrplural.ParseRules", "RuleSet.Evaluate"],
 "exploration", ENUM, "Exhaustive over token sequences to the bound; oracle evaluates with exact decimals.")

prop("C13", "The plural form depends on the number, not on its Go representation",
 "The same number of magnitude up to 2^53 passed as any integer type, as a float (of either width, standing for its shortest decimal), as a decimal string without exponent, through a pointer or as a named numeric type, whatever its String method returns, selects the same plural form in every catalog type and for the source text; a negative number selects the form of its absolute value. Values that are not numbers (words, booleans, structs, lists, maps, nil) produce the documented fallback, never a panic.",
 ["inputs"],
 "all integers in a window plus type boundaries x all numeric representations x catalogs with gettext and CLDR rules x source-language selection",
 "Tests pass int almost everywhere.",
 ["internal/cast/number.go", "catalog/cldrplural/cldr.go", "catalog/poplural/rule.go", "locale.go"],
 [("number conversion", "internal/cast/number.go"), ("operands", "catalog/cldrplural/cldr.go NewOperands")],
 ["NGet … with n of any type", "Rule.Evaluate", "RuleSet.Evaluate"],
 "exploration", ENUM, "Exhaustive over the window |n|<=2100 plus boundaries up to 2^53 for every representation and a set of rules that separates all operands.")

prop("C14", "JSON catalogs load, look up, and re-encode faithfully",
 "For every JSON catalog, each message is found under its key, context and CLDR category with exactly the text written; missing keys, contexts and empty or absent categories are reported as errors, not as other texts. Categories a language does not use are dropped and missing ones added as empty, a plain string is a message without plural, and entries that violate the format are rejected. Encoding a catalog, or a message on its own with at least one category, and decoding it again gives the same messages.",
 ["inputs"],
 "all small catalogs over key/context/category/value shapes x languages x every lookup",
 "Tests load three or four catalogs.",
 ["catalog/json.go", "catalog/json_decoder.go", "catalog/json_encoder.go"],
 [("validation", "catalog/json.go setMessage"), ("category normalisation", "catalog/json.go applyCategoriesToJSONMessage")],
 ["NewJSONDecoder().Decode", "NewJSONCatalogWithMessages", "JSONEncoder.Encode", "Lookup", "LookupPlural"],
 "exploration", ENUM, "Exhaustive over the bounded catalog space.")

prop("C15", "Catalog files are found by the documented search order",
 "For every set of existing files, language and domain, the file loaded is the first existing one in the search order: the language's names from most to least specific, for each name the location patterns in their fixed order (only the category location when searching is disabled), and the registered decoders' extensions in registration order. A file is never used for a language or domain it does not belong to, and absence of every candidate is reported as not found.",
 ["configurations"],
 "all subsets of candidate paths up to a size, for a set of language tags, domains, categories, extensions and search settings",
 "Tests place a handful of files; precedence between two candidates present at the same time is checked for few pairs.",
 ["loader.go", "utils.go"],
 [("search patterns", "loader.go searchFileForLanguageName"), ("language expansion", "utils.go ExpandLanguage"), ("extension order", "loader.go Load")],
 ["NewFilesystemLoader().Load", "Resolver.Resolve", "ExpandLanguage"],
 "exploration", ENUM, "All subsets of size <=3 (and complements) of the candidate paths; oracle computes the documented order independently.")

prop("C16", "The localizer uses the language the matcher selects for the request",
 "For every set of loaded languages and every request (language tags and Accept-Language strings, valid or not, in any number and order), the localizer's language is the one the bundle's matcher picks from the loaded languages; unusable request values are skipped without affecting the others; with no match the fallback language is used and the localizer reports that no locale was found. Translations then come from that language.",
 ["configurations", "inputs"],
 "all ordered language sets up to a size x all request lists up to a length over an alphabet of tags, strings, lists with quality values and invalid values",
 "Tests request about a dozen combinations.",
 ["localizer.go", "bundle.go"],
 [("matching", "localizer.go NewLocalizerForDomain"), ("matcher construction", "bundle.go NewBundle")],
 ["NewLocalizer*", "Language", "HasLocale", "IsLanguageSupported"],
 "exploration", ENUM, "Oracle: golang.org/x/text/language's matcher (trusted) over the loaded languages in load order.")

prop("C17", "Building a bundle succeeds or fails exactly as documented",
 "For every combination of options, loader outcomes per (language, domain) and option order, building fails exactly when a required or fallback language is missing or incomplete, a loader fails for another reason, or an option is invalid; optional languages that are missing are skipped and reported to the callback. On success the supported languages, domains and per-locale domains are exactly those loaded, and an error returned by a loader is preserved in the error chain.",
 ["configurations"],
 "all assignments of loader outcomes to 2 languages x 2 domains x option sets and orders",
 "Tests build around thirty bundles, mostly with real files.",
 ["bundle.go"],
 [("loading", "bundle.go preloadLanguages, createLocale")],
 ["NewBundle", "Bundle.Domains", "SupportedLanguages", "CanLocalize", "Localizer.Domains", "HasDomain"],
 "exploration", ENUM, "Exhaustive over the outcome/option space; oracle is a model of the documented rules.")

prop("C18", "Every date format code renders the documented value",
 "For every instant, time zone and format string, each format code is replaced by the value the Django date syntax documents for it (numerals, padding, names through the locale's translations, zone and ISO-week values; T is the name of the machine's own zone), a backslash makes the next character literal, and all other characters are copied. The named formats use the locale's own format.",
 ["inputs"],
 "all format codes, pairs of codes with escapes x every day of a leap-cycle sample, every hour and minute, DST transitions and zones",
 "Tests format a few fixed dates.",
 ["humanize/dateformat.go", "humanize/date.go", "internal/calendar/calendar.go"],
 [("formatter", "humanize/dateformat.go")],
 ["Humanizer.FormatTime"],
 "exploration", ENUM, "Independent civil-calendar arithmetic as oracle.")

prop("C19", "NaturalDay and NaturalTime describe the distance to now correctly",
 "For every current time, zone and argument, NaturalDay says today, tomorrow or yesterday exactly when the argument's calendar date (in its own zone) is that day, and formats the date otherwise, including across daylight-saving changes. NaturalTime uses 'now', seconds, minutes, hours, then days and larger units, with the count equal to the whole units between the two instants (in whole seconds: past ones truncated, future ones rounded to the nearest) and the correct direction, and never a count of zero. Numbers count as seconds since 1970; a value that is no instant (a number beyond the range of time.Time included) gives the documented error text.",
 ["inputs", "configurations"],
 "all offsets in a dense grid around every unit boundary x current times including DST changes and year ends x zones (clock controlled)",
 "Tests run at the real current time, so results at DST changes, midnight and boundaries are never exercised.",
 ["humanize/date.go"],
 [("NaturalDay", "humanize/date.go"), ("NaturalTime", "humanize/date.go")],
 ["Humanizer.NaturalDay", "Humanizer.NaturalTime"],
 "exploration", ENUM + "; the clock is virtual (testing/synctest) and enumerated", "Exhaustive over the grid of (now, offset, zone).")

prop("C20", "TimeSince and TimeUntil decompose a duration exactly",
 "For every pair of instants, depth and adjacency setting, the result lists the largest applicable units (years of 365 days, months of 30, weeks, days, hours, minutes) with whole counts such that the counted units never exceed the elapsed time and the remainder is less than the smallest adjacent unit listed (in whole seconds; a year may count as complete from 0.0005 years before its end); beforehand one day is discounted for every leap year from the earlier date's year up to but excluding the later one's, if there is any, with one day less if the earlier year is itself a leap year and otherwise one more if the later year is; at most 'depth' units, adjacent ones only unless disabled, '0 minutes' for the future or under a minute. TimeUntil is TimeSince with the instants exchanged.",
 ["inputs"],
 "all deltas within windows around every unit boundary combination x start dates around leap days x depths x adjacency",
 "Tests check around forty pairs.",
 ["humanize/date.go", "internal/calendar/calendar.go"],
 [("decomposition", "humanize/date.go TimeSince"), ("leap days", "internal/calendar/calendar.go LeapDays")],
 ["Humanizer.TimeSince", "TimeSinceFrom", "TimeUntil", "TimeUntilFrom"],
 "exploration", ENUM, "Integer-arithmetic oracle.")

prop("C21", "Numbers are humanized with the right digits, grouping, suffix and unit",
 "For every number and numeric type (a number that is not a float64 stands for the nearest one; Intword: below 10^36), Intcomma shows its digits grouped for the locale, Ordinal the integer with the suffix its last digits require, Apnumber the word for 1-9 and the (possibly grouped) digits otherwise, FilesizeFormat the size in the largest binary unit that does not exceed it, and Intword the value scaled to the largest named power of ten that does not exceed it (Ordinal, Apnumber and FilesizeFormat count whole things and drop the decimals of a number, as Django does; of an exact rounding tie either neighbour may be shown). Values that are not numbers give the documented error text; neither they nor NaN or infinities cause a panic.",
 ["inputs"],
 "all integers in a window, neighbourhoods of every power of ten and two up to the largest float64 and of type limits, signs, representations x English and German",
 "Tests check around a hundred numbers.",
 ["humanize/numbers.go", "humanize/helper.go", "internal/cast/number.go"],
 [("functions", "humanize/numbers.go, humanize/helper.go")],
 ["Humanizer.Intcomma", "Ordinal", "Apnumber", "FilesizeFormat", "Intword"],
 "exploration", ENUM, "Big-integer oracle for the English and German formats.")

prop("C22", "Every shipped locale renders every humanize function without defects",
 "For every shipped humanize locale, every function and every count, the output contains no formatting error marker, no unexpanded placeholder, the count it was given wherever the locale's text shows one, and no empty text; the plural form used is one the locale's file provides. The locale's catalog loads, matches its language and its named formats render, each showing the date and time fields it is named for and no others.",
 ["configurations", "inputs"],
 "all shipped locales x all humanize functions x counts and dates covering every plural category and message",
 "Tests exercise three or four locales.",
 ["humanize/locale", "humanize/humanizer.go", "humanize/date.go", "humanize/numbers.go"],
 [("translations", "humanize/locale/*/django.po"), ("formats", "humanize/locale/*/locale.go")],
 ["all Humanizer methods for all locales"],
 "exploration", ENUM, "Exhaustive over shipped locales and every message x plural category.")

prop("C23", "Localized errors keep the original error",
 "Localizing an error returns either the original error unchanged (same value) when no translation exists in the matched locale, or an error whose text is the translation and which unwraps to the original, so that errors.Is and errors.As still work. Translations are looked up by the error text in the current domain under the bundle's error context, or as the error itself prescribes when it is a localizable message; nil stays nil.",
 ["inputs", "configurations"],
 "all error shapes (plain, wrapped, joined, localizable with each combination of context/domain/plural) x catalogs with and without the translation x error contexts",
 "Tests localize four errors.",
 ["localizer.go", "localize/error.go"],
 [("LocalizeError", "localizer.go")],
 ["Localizer.LocalizeError"],
 "exploration", ENUM, "Exhaustive over the listed shapes.")

prop("C24", "Merging PO entries is an order-independent union that loses nothing",
 "Adding messages to a PO file in any order yields, per context and id, one entry whose references, flags and comment lines are the union of those added, without duplicates (references and flags sorted once merged), whose plural id is the one given and whose translations are kept; adding the same message again changes nothing, a message that was added to another one is not changed itself, and messages under other contexts or ids are untouched.",
 ["histories"],
 "all sequences of additions up to a depth over a set of messages with overlapping ids, contexts, references, flags and comments",
 "Tests merge two messages in one order.",
 ["catalog/po/file.go", "catalog/po/message.go", "catalog/po/comment.go"],
 [("merge", "catalog/po/comment.go Merge"), ("add", "catalog/po/file.go AddMessage")],
 ["File.AddMessage", "Messages.Add", "Message.Merge", "Comment.Merge", "AddReference", "AddFlag"],
 "model_checking", SEQ, "All addition histories to the depth; states are the abstract file contents.")

prop("C25", "PO header fields are stored and found case-insensitively",
 "For every sequence of header assignments and every key spelling, getting a field returns the value last set under that key ignoring (ASCII) case, fields never affect one another, and every field set (to a value without line breaks or surrounding blanks) is written to and read back from a PO file.",
 ["histories"],
 "all sequences of assignments up to a depth over known, unknown and differently spelled keys",
 "Tests set each known field once.",
 ["catalog/po/file.go"],
 [("Get/Set", "catalog/po/file.go Header")],
 ["Header.Get", "Header.Set"],
 "model_checking", SEQ, "All histories to the depth.")

prop("C26", "gettext and CLDR built-in rules agree on which integers share a form",
 "For every language with built-in rules, the predefined gettext rule and the CLDR cardinal rule put two non-negative integers into the same form in the one exactly when they are in the same form in the other, and the form indices used are exactly 0 up to the rule's declared number of forms less one. This is stated for the languages listed in both tables.",
 ["inputs"],
 "all built-in languages x all integers up to a bound and around powers of ten",
 "Tests check fixture samples per language.",
 ["catalog/poplural/builtin_gen.go", "catalog/cldrplural/builtin_gen.go", "catalog/poplural/builtin.go"],
 [("generated rules", "catalog/poplural/builtin_gen.go")],
 ["poplural.ForLanguage", "cldrplural.ForLanguage", "source text plural selection"],
 "exploration", ENUM, "Differential between two independently generated tables, plus the CLDR oracle of C11.")


prop("C27", "A gettext catalog uses the plural rule its header and decoder prescribe",
 "For every PO or MO file and decoder, the form chosen for a count is the one given by the file's Plural-Forms header; by the language's CLDR rule when the file has no such header, when the decoder was created for CLDR rules, or when the header X-spreak-use-CLDR is true; by the Plural-Forms header, else the English rule, when no CLDR rule exists for the language. An invalid Plural-Forms header makes decoding fail exactly when that header would be used. The text returned is the translation stored under that form's index; a form the file does not provide is an error, not another form's text.",
 ["configurations", "inputs"],
 "all combinations of decoder (PO/MO, with and without CLDR) x header presence and spellings x languages with and without CLDR rules x counts",
 "Tests decode a few files, nearly all German with a plain two-form header.",
 ["catalog/po_decoder.go", "catalog/po.go", "catalog/poplural/builtin.go"],
 [("rule choice", "catalog/po_decoder.go decode/buildGettextCatalog")],
 ["NewPoDecoder", "NewPoCLDRDecoder", "NewMoDecoder", "NewMoCLDRDecoder", "LookupPlural"],
 "exploration", ENUM, "Exhaustive over the configuration space; oracles are the C evaluator of C10 and the CLDR reference of C11.")

prop("C28", "A humanizer uses the texts and formats of the locale matched for it",
 "For every list of distinct locale data (own formats, some formats or none; catalog present or missing), bundle options and requested languages, the humanizer's language is the one the matcher picks from the fallback language, English and the locales loaded, in that order. Its texts come from that locale's catalog, otherwise from the fallback language's, otherwise from the English source. Each named format is the matched locale's own where its data has one, otherwise the documented default, never another locale's. A locale without a catalog file is left out; an unreadable one makes building fail.",
 ["configurations", "inputs"],
 "all ordered lists of locale data up to three x formats given (all, some, none) x catalog present or missing x fallback language x requests of up to two languages",
 "Tests build collections of one or two shipped locales and ask for exactly those languages.",
 ["humanize/humanizer.go", "humanize/locale.go"],
 [("collection", "humanize/humanizer.go New, CreateHumanizer"), ("default formats", "humanize/humanizer.go setDefaults"), ("loading", "humanize/locale.go Load")],
 ["humanize.New", "Collection.CreateHumanizer", "Humanizer.FormatTime", "Humanizer.Language"],
 "exploration", ENUM, "Exhaustive for six languages (regional and script variants and the source language among them), lists of up to three locales; quick leaves out some format combinations of lists of three.")

prop("C29", "The default order of PO messages is a consistent total order",
 "The default sort function orders messages by their source references (path, line, column, in sorted order, messages without references first), then by context and id. It is antisymmetric and transitive and puts no two different messages on a par, so the order in which two messages are written depends on nothing but these two; every file is written in that order, or in the order of the caller's own sort function.",
 ["inputs"],
 "all pairs and triples of messages over contexts x ids x reference lists, all files of up to three such messages and files of every size up to the whole universe",
 "Tests compare about ten pairs of messages, nearly all with a single reference; consistency is a statement about triples.",
 ["catalog/po/encoder.go", "catalog/po/comment.go"],
 [("comparison", "catalog/po/encoder.go DefaultSortFunction"), ("sorting before writing", "catalog/po/encoder.go encode")],
 ["po.DefaultSortFunction", "Encoder.Encode", "Encoder.SetSortFunction"],
 "exploration", ENUM, "Exhaustive over the universe of 72 messages (11 reference lists and no comment, two contexts, three ids).")

prop("C30", "A failed write is never reported as a success",
 "For every PO file, encoder setting and JSON catalog, and every way in which the destination can fail (at any call, at any byte, having taken part of the data or none of it, once or for good), encoding returns an error that wraps the destination's. Without a fault it returns none and the destination has received the complete document.",
 ["fault_sequences"],
 "all files of a set x encoder settings x every fault position (call, byte) x partial or no delivery x transient or permanent",
 "Tests encode into buffers that cannot fail.",
 ["catalog/po/encoder.go", "catalog/json_encoder.go"],
 [("PO writing", "catalog/po/encoder.go Encode"), ("JSON writing", "catalog/json_encoder.go Encode")],
 ["po.Encoder.Encode", "catalog.JSONEncoder.Encode"],
 "fault_enumeration", "exhaustive fault injection: the real encoders run against a destination that fails at every possible position", "Every fault position of every document of the set.")

prop("C31", "Language names given as strings name the language they spell",
 "Wherever a bundle option takes a language, a string means the BCP 47 tag or POSIX locale name (underscores, any letter case) it begins with: a codeset after a dot, a modifier after an at sign and all names after a colon are ignored, as are blanks around the name. The catalogs loaded, the supported languages, the localizers and the fallback are those of that tag. Strings that name no language make building fail, and so does any value that is neither a string nor a tag.",
 ["inputs", "configurations"],
 "all names assembled from language, script, region, separators, codeset, modifier, list remainder and blanks x the three options x positions",
 "Tests parse four names.",
 ["utils.go", "bundle.go"],
 [("names", "utils.go parseLanguageName, languageInterfaceToTag"), ("use", "bundle.go preloadLanguages, WithFallbackLanguage")],
 ["WithLanguage", "WithRequiredLanguage", "WithFallbackLanguage"],
 "exploration", ENUM, "Exhaustive over the assembled names.")

prop("C32", "Printers are initialised first, and each text is printed in its language",
 "A bundle initialises its printer exactly once, with the languages that were loaded, before asking it for any print function. Every text is then passed, with its arguments, to the print function of the language the text is in: the localizer's when its catalog had a translation, the fallback's when only that one had, the source language's when neither had. This holds for every printer, wherever its option stands among the others. The default printer leaves texts without arguments untouched, and one printer may serve several bundles.",
 ["configurations", "histories"],
 "all source and fallback languages x ordered language lists of up to three with and without catalogs x printers x position of the printer option x requests x lookups x argument lists",
 "Tests use one printer with one or two languages and print numbers only in a language that has a translation.",
 ["bundle.go", "locale.go", "utils.go", "localizer.go"],
 [("printer set-up", "bundle.go NewBundle"), ("printing", "locale.go lookupSingularTranslation, lookupPluralTranslation"), ("default printer", "utils.go defaultPrinter")],
 ["WithPrinter", "WithPrintFunction", "NewDefaultPrinter", "Localizer.Getf", "Localizer.NGetf", "Localizer.Print"],
 "model_checking", ENUM, "Exhaustive over the configurations; quick takes lists of three only after one first language.")

prop("C33", "No text, however long, nested or repetitive, crashes or stalls a reader",
 "Every text given to a reader of this library (PO, MO and JSON catalogs, Plural-Forms and CLDR rules, plural operands and counts, date formats, language names, PO strings) produces a result or an error, never both and never neither, without stalling: it never panics, never exhausts the stack and never loops, also for texts of megabytes (the time for an MO file is bounded by the total length of the strings its tables name, which may overlap). The same holds for encoding and merging messages with such texts.",
 ["inputs"],
 "all texts head + (unit repeated) + tail, with every unit up to a length over each reader's alphabet, at 16 KiB, 64 KiB and, for the rule languages and long or many lines, 2 to 12 MiB; short texts that name large numbers",
 "Tests and fuzz targets use short texts; exhaustion shows at sizes nobody writes by hand.",
 ["catalog/po/parser.go", "catalog/po/scanner.go", "catalog/poplural/ast/parser.go", "catalog/cldrplural/ast/parser.go", "catalog/po_decoder.go", "catalog/json_decoder.go"],
 [("Plural-Forms recursion", "catalog/poplural/ast/parser.go"), ("PO parser", "catalog/po/parser.go"), ("MO parser", "internal/mo/parser.go")],
 ["Decoder.Decode", "poplural.Parse", "cldrplural.ParseRules", "cldrplural.NewOperands", "po.EncodePoString"],
 "exploration", ENUM, "Exhaustive over the pumped texts of units of up to two or three letters; a crash of the whole process is caught by a supervisor that reruns and names the case.")

prop("C34", "However a domain's files are named, the same catalog is loaded",
 "For every set of existing files, all ways of naming their directory (WithDomainPath, WithDomainFs, WithFilesystemLoader with WithPath, WithFs or WithSystemFs, a loader or resolver of one's own, absolute, relative and untidy paths) load the same catalog: the first that exists in the documented search order of the decoders' extensions. A file system loader takes exactly one file system and at most one resolver; every other combination of its options, and a nil option, is an error.",
 ["configurations"],
 "all sets of up to two (three) files of the candidates x ways of naming x decoders; all sequences of loader options up to a length",
 "Tests name the test data directory in one way per test and never open a file through WithSystemFs.",
 ["loader.go", "bundle.go"],
 [("loader options", "loader.go NewFilesystemLoader, WithPath, WithFs, WithSystemFs"), ("bundle options", "bundle.go WithDomainPath, WithDomainFs, WithFilesystemLoader")],
 ["WithDomainPath", "WithDomainFs", "WithFilesystemLoader", "NewFilesystemLoader", "WithSystemFs"],
 "exploration", ENUM, "Exhaustive over the file sets, ways and option sequences.")

prop("C35", "Syntax trees of plural rules are faithful",
 "The text that CompileToString makes of any parsed Plural-Forms rule is a C expression that gives the same form for every count as the rule itself, and stays so when parsed and compiled again. Visiting the tree of any CLDR rule reaches every node exactly once, in the order of the text, and leaves out precisely the subtrees the visitor declines; a subtree is visited with the visitor its root returned, which is told of its end.",
 ["inputs"],
 "all expression trees up to three (four) operators in three spellings; all CLDR rules up to three conditions, with every pruning",
 "Tests compile the published rules, which need no nested parentheses.",
 ["catalog/poplural/ast/compile.go", "catalog/cldrplural/ast/walk.go"],
 [("compiling", "catalog/poplural/ast/compile.go"), ("walking", "catalog/cldrplural/ast/walk.go")],
 ["ast.Parse", "ast.CompileToString", "ast.Inspect"],
 "exploration", ENUM, "Exhaustive to the stated number of operators and conditions; the oracle is an independent reader of C expressions.")

prop("C36", "Code generated for plural rules computes those rules",
 "For every plural data file (gettext: one form, a condition for two forms, or for more a chain of conditions that each choose a form, with conditions made of comparisons of n or n % k with a number joined by && and ||, each rule once; CLDR: any rules with samples), the code the generators write replaces the former one and compiles. In it every language of the data, under its name and its canonical tag, has the categories and, for every number, the form that its rules prescribe, and languages with the same rules share them; every gettext rule is found by its header too.",
 ["inputs"],
 "all gettext conditions of up to three relations in every grouping, alone and in chains of up to four, with the forms in every order; all CLDR relations of operand, modulus, negation and list, all conditions of up to three relations, all sets of categories; the published rules",
 "The generators have no tests; the tests they write sample the rules of one release of the published data.",
 ["catalog/poplural/generator/compiler.go", "catalog/poplural/generator/main.go", "catalog/cldrplural/generator/compiler.go", "catalog/cldrplural/generator/json.go", "catalog/cldrplural/generator/main.go"],
 [("gettext generator", "catalog/poplural/generator/compiler.go"), ("CLDR generator", "catalog/cldrplural/generator/compiler.go")],
 ["poplural.ForLanguage", "poplural.Parse", "cldrplural.ForLanguage"],
 "exploration", ENUM, "Exhaustive over the rules of the stated shapes; the generators are the real ones, and their output is compiled into the real packages and evaluated against independent evaluators of both rule languages.")
prop("C37", "Errors of lookups say what is missing",
 "The error that a lookup returns, and that the missing-translation callback is given, is of the type for the first thing that is missing: the language, the domain, the context, the message or the plural form. It carries the language, the domain, the context, the id and the index of the form that were asked for (for JSON the id is the key of the file and the index that of the category), its text names all of them, and different misses have different texts. A catalogue's own lookup returns the id as the text. A translation that exists is returned without an error.",
 ["inputs"],
 "five states of four messages in PO, MO and JSON, three languages with two, three and four forms, domains and contexts with and without unusual characters, ids, counts, lookups through the catalogue and through a localizer",
 "The tests check that an error is returned, for one message each, and hardly ever its content.",
 ["catalog/catalog.go", "catalog/po.go", "catalog/json.go", "utils.go", "locale.go"],
 [("catalogue errors", "catalog/catalog.go"), ("gettext lookups", "catalog/po.go:getMessage"), ("JSON lookups", "catalog/json.go:getTranslation"), ("domain and language", "utils.go")],
 ["Catalog.Lookup", "Catalog.LookupPlural", "Locale.LookupError", "WithMissingTranslationCallback"],
 "exploration", ENUM, "Exhaustive over the stated catalogues and requests; the expected error comes from the description of the catalogue, not from the code.")
prop("C38", "The panicking variants are the plain ones",
 "po.MustParse, poplural.MustParse, the MustParse of both syntax trees, cldrplural.MustParseRules, cldrplural.MustNewOperands and humanize.MustNew panic exactly when the plain function fails, with its error, and otherwise return what it returns. po.ParseString returns what po.Parse returns.",
 ["inputs"],
 "all texts of up to four (five) pieces of each language, and pieces that make them wrong; values of all kinds; all lists of up to two (three) options of the humanizer",
 "The tests call the panicking variants with valid input, and with one or two wrong ones.",
 ["catalog/po/parser.go", "catalog/poplural/rule.go", "catalog/poplural/ast/parser.go", "catalog/cldrplural/ast/parser.go", "catalog/cldrplural/evaluation.go", "catalog/cldrplural/cldr.go", "humanize/humanizer.go"],
 [("PO files", "catalog/po/parser.go:MustParse"), ("rules", "catalog/poplural/rule.go:MustParse"), ("operands", "catalog/cldrplural/cldr.go:MustNewOperands"), ("humanizer", "humanize/humanizer.go:MustNew")],
 ["po.MustParse", "poplural.MustParse", "ast.MustParse", "cldrplural.MustParseRules", "cldrplural.MustNewOperands", "humanize.MustNew"],
 "exploration", ENUM, "Exhaustive over the stated inputs, in both directions.")
