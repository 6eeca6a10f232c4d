import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Lexing is lossless and reports true positions",
"For every non-empty string and non-empty set of grammar characters, the tokens the lexer yields are non-empty, contiguous and, joined in order, are exactly the input. Each token's start and length in bytes and in characters (and its end byte) are those of its text inside the input, its grapheme length is the number of grapheme clusters of its own text, and its grapheme start is the sum of the grapheme lengths before it. An empty string or an empty grammar gives an error instead of tokens.",
["inputs"],"every string (any Unicode scalar values, any length, any mix of scripts, combining marks, emoji sequences) and every grammar set",
"The lexer tests tokenise two or three fixed strings and compare token counts; multi-byte characters at token boundaries, clusters cut by a boundary, one-character inputs and arbitrary grammar sets are not sampled.",
["crates/lexer/src/lexer.rs","crates/lexer/src/icu.rs"],
[("LexerIterator::next / token bookkeeping of start_byte, start_character, start_grapheme","crates/lexer/src/lexer.rs"),("GraphemeClusterSegmenter count per token","crates/lexer/src/lexer.rs")],
["LexerIterator::try_new","Iterator::next of LexerIterator","fields of Token"])

p("C02","Tokens are split and typed by Unicode pattern properties and the grammar",
"Every character the lexer reads is white space exactly when it has Pattern_White_Space, syntax exactly when it has Pattern_Syntax, and identifier otherwise; a syntax character that belongs to the given grammar is a Grammar token of its own, one character long. All other tokens are maximal runs: neighbouring tokens of the types WhiteSpace, Identifier or Syntax never have the same type, and no token mixes character kinds.",
["inputs"],"every Unicode scalar value as a character (alone, first, last and between others) and every grammar set",
"The tests use ASCII punctuation and a few letters; the classification is over 1.1 million code points and the first character of a string takes a separate code path from the rest.",
["crates/lexer/src/lexer.rs","crates/lexer/src/icu.rs"],
[("token_type and its copy in try_new for the first character","crates/lexer/src/lexer.rs"),("white_space()/syntax() code point sets","crates/lexer/src/icu.rs")],
["Token.token_type","Token.string"])

p("C03","Language tags are canonical, shared and recorded exactly once",
"The registry answers every well-formed tag made of language, script, region and variant subtags, in any letter case and with hyphens or underscores, with the BCP 47 canonical form of that tag, and every later request that means the same language gets the same shared instance, whatever the order of requests. The list of tags holds each canonical tag once and the deprecated list one entry for each distinct non-canonical spelling requested; the full list is both together. A malformed tag gives an error and leaves the registry unchanged, and the ICU language obtained for a tag is the one that tag denotes.",
["inputs","histories"],"every string offered as a tag, every sequence of tag / icu_language / list calls on one registry",
"Six unit tests request one spelling of one tag; spelling variants, repeated and interleaved requests and malformed tags after valid ones are histories they do not build.",
["crates/utility/src/language.rs","crates/utility/src/error.rs"],
[("tags, deprecated and icu maps consulted in that order","crates/utility/src/language.rs"),("IcuLanguage::canonicalize","crates/utility/src/language.rs")],
["LanguageTagRegistry::tag","icu_language","list","list_deprecated","list_all","LanguageTag::as_str","LanguageTag::icu_language"],
[("tags/deprecated","canonical and alias maps","crates/utility/src/language.rs")])

p("C04","String lookup returns the closest stored language, and only that language",
"Looking up a string returns the stored text for the requested tag if there is one, otherwise a text stored under a more specific tag of the requested language, otherwise the same after removing the rightmost subtag, again and again, until nothing remains and the answer is 'not found'; text of a different language, component or identifier is never returned, and the tag returned is the one the text was stored under. The plural form returns every text at the first level that has any; the exact form returns a text only for exactly the requested tag. The all-in-one database is searched before the component's own database, which is used when the former holds nothing for the request, and an unknown component is an error.",
["inputs","configurations"],"every repository content and layout (all-in-one, own file, both), every component, identifier and requested tag",
"The sqlite3 tests query two shipped identifiers in the shipped databases; languages sharing a prefix (fi/fil), truncation over several subtags, and data split over both layouts are not present in them.",
["crates/provider/sqlite3/src/provider.rs","crates/provider/core/src/provider.rs"],
[("find_strings truncation loop and query_pattern","crates/provider/sqlite3/src/provider.rs"),("string / string_exact_match / strings choice of database","crates/provider/sqlite3/src/provider.rs")],
["LocalisationProviderTrait::string","string_exact_match","strings"])

p("C05","Component, identifier and repository details agree with the stored data",
"The details reported for a component list exactly its languages with a contributor, with for each the number of its stored strings (rows of the all-in-one and of its own database added up), the ratio of that number to the default language's, and its contributors once each; the component's total is the sum of those numbers and its default language is the one recorded for it. Repository details are the union over the components (languages, contributors and component names once each, summed counts and total, ratios against the application component's default language, or no default and zero ratios when there is no application component). When some component's default language is not recorded, or is none of its languages, details queries are errors. An identifier's details list once each the languages for which a string of that identifier exists, whichever database holds it, and repeated or reordered queries give the same answers.",
["inputs","configurations","histories"],"every repository content and layout whose default languages have at least one string, every order of details and lookup calls",
"The tests check the details of one shipped component; aggregation over several components, overlapping databases and contributors, and query order are not sampled.",
["crates/provider/sqlite3/src/provider.rs","crates/provider/core/src/provider.rs"],
[("build_cache aggregation","crates/provider/sqlite3/src/provider.rs"),("query_languages / query_contributors / query_count / query_default / query_identifier_languages","crates/provider/sqlite3/src/provider.rs")],
["component_details","repository_details","identifier_details"],
[("component_details, repository_details","once-cells filled by the first details query","crates/provider/sqlite3/src/provider.rs")])

p("C06","Only conforming repositories open, and reading never changes them",
"Opening a directory succeeds exactly when it is a directory holding at least one component and every .sqlite3 database in it declares schema version 1.0 and has the required tables with the required columns in the order of the schema (name, type, nullability, primary key, no default; further tables, and further columns after them, do no harm); anything else is an error that names the problem (the table, and the column where one is missing, renamed or of another type) and never a panic. Files without the .sqlite3 extension, and directories or dangling links with it, are ignored. Every component of the all-in-one database and every other database's own name is available afterwards. Opening and any number of queries create, modify or delete nothing in the directory (databases in rollback-journal mode).",
["inputs","configurations","fault_sequences"],"every directory content: missing or non-directory path, missing tables, renamed, retyped, nullable or missing columns, wrong version, corrupt files, foreign files",
"The tests open the shipped, valid repository only; no invalid repository is opened by any test.",
["crates/provider/sqlite3/src/provider.rs","crates/provider/sqlite3/src/error.rs","crates/provider/sqlite3/l10n/schema.sql"],
[("verify_schema, table_exists, columns_check","crates/provider/sqlite3/src/provider.rs"),("try_new directory scan; SQLITE_OPEN_READ_ONLY","crates/provider/sqlite3/src/provider.rs")],
["LocalisationProviderSqlite3::try_new","verify_schema","bytes and listing of the directory"])

p("C07","Pattern text, escapes, literals and string values are rendered verbatim",
"Formatting a well-formed pattern string yields its text unchanged and in order, with each backtick-escaped grammar character replaced by that character, each literal pattern replaced by its text (a doubled backtick standing for one), and each string placeholder replaced by exactly the value supplied under its name, whether that value is a plain, tagged or localised string. Values are inserted as data: grammar characters inside a value or a literal have no effect. An empty string or one without grammar characters is returned as it is.",
["inputs","programs"],"every well-formed pattern string and every assignment of string values",
"Existing tests format four shipped strings; escapes, literals, adjacent and nested constructs, branch strings starting with each kind of construct and non-ASCII text are combinations no test covers.",
["crates/localiser/src/tree.rs","crates/localiser/src/formatter.rs","crates/localiser/src/localiser.rs","crates/localiser/docs/pattern strings.asciidoc"],
[("Tree::try_new parser states","crates/localiser/src/tree.rs"),("part_text, PatternPart::Text/PatternString","crates/localiser/src/formatter.rs")],
["Localiser::format"])

p("C08","Plural, ordinal and select patterns render exactly the branch the value selects",
"A plural pattern renders the branch listed for the cardinal plural category of its number in the language of the string, an ordinal pattern the branch for the ordinal category, and a select pattern the branch listed for its string value; when that category or value is not listed the branch for 'other' is rendered. Inside a branch reached by plural or ordinal each number sign is replaced by the number as that language writes it, and branches may themselves contain any pattern, including further plural, ordinal and select patterns over earlier branches. Several patterns of one string, even sharing branches, do not influence each other.",
["inputs","programs","configurations"],"every language, every number (integers of any size, decimals, floats), every set of selectors and every nesting of branches",
"The only tested case is a select with two branches named like their selectors, in English; categories other than other, languages with few/many/two, nesting and shared branches are unsampled.",
["crates/localiser/src/formatter.rs","crates/localiser/src/tree.rs"],
[("pattern_selectors, find_number_sign, select, plural_category","crates/localiser/src/formatter.rs"),("NamedGroup/NamedString/SubString/Keyword states","crates/localiser/src/tree.rs")],
["Localiser::format"],
[("numbers, selectors, patterns","per-formatter tables filled while formatting","crates/localiser/src/formatter.rs")])

p("C09","Decimal placeholders render numbers by locale, grouping and sign options",
"A decimal placeholder renders an integer, unsigned, float or fixed-decimal value as the language of the string writes it, with the grouping and sign display asked for by its options, each defaulting to automatic and independent of the other. The digits shown are exactly those of the value: no precision is lost or invented at any magnitude the value type can hold. A value of any other type is an error.",
["inputs","configurations"],"every numeric value of every numeric type, every language, every combination and order of options",
"No existing test formats a number.",
["crates/localiser/src/formatter.rs"],
[("PatternDecimal formatting, sign_display, decimal_grouping_display, fixed_decimal_formatter","crates/localiser/src/formatter.rs")],
["Localiser::format"])

p("C10","Date-time placeholders render the given moment by locale and length options",
"A date_time placeholder renders a date, a time or a date with a time as the language of the string writes it in the lengths asked for by the date and time options (each medium by default and independent of the other); a date shows no time and a time no date. A string value in one of the documented ISO 8601 forms (dates YYYY, YYYY-MM, YYYY-MM-DD, YYYYMMDD and their signed expanded forms; times after T in extended or basic form down to hours, with optional fraction and ignored zone, the end of the day 24:00:00 and the leap second 60 included) renders exactly as the corresponding typed value. Impossible dates and times (month 00 or 13, day 00, 30 February, hour 25, minute 61, second 62) are errors, and so are lengths that cannot be rendered without a time zone (full and long times).",
["inputs","configurations"],"every valid date and time, every documented ISO 8601 spelling, every language and every length combination",
"No existing test formats a date or a time or parses an ISO string.",
["crates/localiser/src/formatter.rs"],
[("PatternDateTime formatting, decompose_iso_date, decompose_iso_time, date_length, time_length","crates/localiser/src/formatter.rs")],
["Localiser::format with DateTime, Date, Time and String values"])

p("C11","Malformed patterns and unsuitable values give errors, never a crash",
"For any string whatsoever stored as a pattern and any values whatsoever supplied, formatting returns, in time proportional to the text to be rendered and stack proportional to the nesting of branches, with either a text or an error: it never panics, aborts, recurses without end or hangs. A pattern that is not closed, has a stray closing brace in its main text, repeats a placeholder or a branch name, uses an unknown keyword, option, option value, plural category, branch or command, omits the 'other' selector of a plural or ordinal, or puts two number signs side by side is an error. A missing value, or one whose type the placeholder cannot render, is an error, and an error never yields partial text.",
["inputs","programs"],"every byte sequence that is a valid string as pattern; every value map",
"Tests feed only valid patterns and complete values; the space of malformed strings is unbounded and the parser is a hand-written state machine full of unwraps.",
["crates/localiser/src/tree.rs","crates/localiser/src/formatter.rs","crates/localiser/src/error.rs"],
[("TreeError / FormatterError returns in every parser state","crates/localiser/src/tree.rs"),("semantic checks in part_pattern and part_command","crates/localiser/src/formatter.rs")],
["Localiser::format"])

p("C12","Caching never changes what a request returns",
"For every sequence of format, literal and localisation-data requests on one localiser, each request returns the same text, tag or error as it would on a fresh localiser with caching off, whatever was requested, cached or failed before and whichever requests asked for caching, different values, languages, fallback choices, components or identifiers. The single exception is that asking for the literal text of a pattern already cached for formatting may instead report that the cache entry requires values.",
["histories","inputs"],"every sequence of requests over every repository content",
"Each test makes one request on a fresh localiser, so no test ever reads a cache entry made by another request.",
["crates/localiser/src/localiser.rs","crates/localiser/src/formatter.rs"],
[("cache lookup and fill in actual_format, actual_literal, add_string_to_cache","crates/localiser/src/localiser.rs"),("mutable number table of a cached formatter","crates/localiser/src/formatter.rs")],
["format","format_with_defaults","literal","literal_with_defaults","format_localisation_data","defaults"],
[("cache","per language map of parsed formatters and plain strings","crates/localiser/src/localiser.rs")])

p("C13","Language fallback and localiser defaults are honoured on every request",
"When no string is stored for the requested language (after subtag removal) a request with fallback returns the string in the component's default language, and a request without fallback, or with nothing in the default language either, is a 'string not found' error carrying the component, identifier, requested tag and fallback choice; when a string is stored, fallback changes nothing. The tag returned is always the tag the text is stored under, and numbers, dates and plurals follow that language. Explicit arguments override the localiser's defaults, absent ones use them, requests 'with defaults' use the current default language, fallback and caching, and changing one default leaves the others as they were.",
["inputs","histories","configurations"],"every repository content, every requested language, every combination of explicit and default flags, every sequence of default changes",
"Tests always ask for a language that is stored, with both flags on and never change the defaults.",
["crates/localiser/src/localiser.rs"],
[("fallback branch of actual_format and actual_literal","crates/localiser/src/localiser.rs"),("defaults()","crates/localiser/src/localiser.rs")],
["format","format_with_defaults","literal","literal_with_defaults","defaults","default_language"],
[("fallback, caching, language_tag","current defaults","crates/localiser/src/localiser.rs")])

p("C14","Localisation data and errors render completely, with nested parts localised",
"Formatting localisation data yields what formatting its string with its values yields, where every nested localisation data, to any depth, is first rendered for the same requested language and its text inserted; data without values yields the stored text as it is, and a failure in any nested part is an error. Every error value of the library that carries a message of its own can be rendered by a localiser over the shipped repository, in every shipped language or the default one, and the rendered text contains the details the error carries (names, tags, tokens, numbers), as does its plain display text.",
["inputs","programs"],"every nesting of localisation data; every error variant with every content; every shipped language",
"Tests render one error variant in one language; most variants' messages are stored in databases the compiler cannot check against the placeholders the code supplies.",
["crates/localiser/src/localiser.rs","crates/localiser/src/error.rs","crates/lexer/src/error.rs","crates/provider/core/src/error.rs","crates/provider/sqlite3/src/error.rs","crates/utility/src/error.rs"],
[("actual_format_localisation_data recursion","crates/localiser/src/localiser.rs"),("LocalisationTrait::localisation_data of each error","crates/localiser/src/error.rs")],
["format_localisation_data","format_localisation_data_with_defaults","format_error","format_error_with_defaults"])

p("C15","Script data matches the script of the language",
"For every language tag the localiser reports the script data of the script named in the tag, or of the language's likely script when the tag names none, and nothing for languages without a known script; the data for the default language follows every change of the default. The category, writing directions and historic state reported for a script are those recorded for it in the table of ISO 15924 scripts; the direction of a script reported with a single horizontal direction runs right to left exactly for the right-to-left scripts (Arabic, Hebrew, Syriac, Thaana, N'Ko, Adlam and the other right-to-left scripts of CLDR), and the parts of a direction (line and character direction) are those its name states.",
["inputs","histories"],"every language tag, every script, every sequence of default changes",
"No test requests script data; the table has 185 hand-written entries.",
["crates/localiser/src/localiser.rs","crates/localiser/src/script.rs","crates/utility/src/script.rs"],
[("get_script_data and LocaleExpander","crates/localiser/src/localiser.rs"),("table of scripts","crates/localiser/src/script.rs"),("ScriptDirection::directions/line/grapheme","crates/utility/src/script.rs")],
["Localiser::script_data","script_data_for_language_tag","ScriptDirection"])

p("C16","Commands receive exactly their arguments, at the documented time",
"A command pattern is replaced by the text its registered function returns; the function receives the command name followed by the pattern's parameters in order, identifiers and backtick-quoted literals alike, as strings. A command marked as delayed is looked up and run only when its pattern is rendered, at every such formatting, with parameters that name a supplied value replaced by that value, and an unmarked one receives only the pattern's own parameters; an error of the function, or an unknown command, is an error of the request. Registering a name twice is an error that keeps the first function, the registry lists each registered name once, and the built-in commands return a result or an error for every parameter list.",
["inputs","programs","histories"],"every parameter list and every interleaving of registration, lookup and formatting",
"The command tests call the two built-in functions with one argument each; no test puts a command into a pattern.",
["crates/localiser/src/command.rs","crates/localiser/src/formatter.rs","crates/localiser/src/tree.rs"],
[("part_command and PatternPart::Command","crates/localiser/src/formatter.rs"),("CommandRegistry","crates/localiser/src/command.rs"),("ParserState::Command","crates/localiser/src/tree.rs")],
["CommandRegistry::insert/command/list","file_path","english_a_or_an","Localiser::format"])

p("C17","A registry and provider shared between threads behave as if used by one",
"With the sync feature, any number of threads using one language tag registry and one sqlite3 provider at the same time get exactly the answers a single thread would get: every tag canonical and the same shared instance for equal languages, the ICU language already kept for a tag, every lookup and every details query the same as in a sequential run, and after all threads finish the registry lists each tag and each deprecated spelling exactly once. No schedule deadlocks, panics, poisons a lock or races on memory.",
["schedules","histories"],"every number of threads and every interleaving of tag, icu_language, list, lookup and details calls",
"The existing tests are single threaded and built without the sync feature.",
["crates/utility/src/language.rs","crates/provider/sqlite3/src/provider.rs"],
[("Mutex around tags, deprecated, icu, queries; OnceLock for details; one connection per call","crates/utility/src/language.rs, crates/provider/sqlite3/src/provider.rs")],
["LanguageTagRegistry and LocalisationProviderSqlite3 through Arc from many threads"])

p("C18","Cargo feature choices do not change results",
"The same sequence of calls on lexer, registry, provider and localiser gives the same texts, tags, details and errors whether the crates are built with their default features, with sync, with logging or with icu_extended, alone or together, for every language tag made of language, script, region and variant subtags.",
["configurations","histories","inputs"],"every combination of the documented cargo features and every call sequence",
"The test suite is run in one feature configuration; the code has separate bodies for sync and non-sync in every crate.",
["crates/utility/src/language.rs","crates/localiser/src/localiser.rs","crates/localiser/src/formatter.rs","crates/provider/sqlite3/src/provider.rs","crates/lexer/src/lexer.rs"],
[("#[cfg(feature = \"sync\")] twins of every stateful operation","all crates"),("get_script_data variants for icu_extended","crates/localiser/src/localiser.rs")],
["recorded transcript of calls and results in each build"])

p("C19","Faults of the repository become errors and leave no trace",
"When the repository fails during a request (a table or database file is gone or unreadable, a stored text is not text, a stored language tag is malformed, or the provider reports any other error), every lookup, details query or formatting that needs the failing data is an error carrying the provider's failure: never a panic, a partial answer, the text of another language or database, or 'not found'. Requests that do not need the failing data are answered as usual, and as soon as the fault is gone the same provider and the same localiser, with or without caching, answer every request exactly as ones that never met it.",
["fault_sequences","histories","crash_points"],"every point of a request at which the provider fails, every stored value or table that becomes unreadable, every history of requests before, during and after",
"The tests read intact repositories only; no error path of a query is ever executed by them.",
["crates/provider/sqlite3/src/provider.rs","crates/localiser/src/localiser.rs"],
[("error arms of find_strings, languages, identifier_languages, contributors, count, default_language; build_cache sets its results only at the end","crates/provider/sqlite3/src/provider.rs"),("? on every provider call before anything is cached","crates/localiser/src/localiser.rs")],
["string","strings","string_exact_match","component_details","identifier_details","repository_details","format","literal","format_localisation_data"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
