#!/usr/bin/env python3
# regenerates properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"state":state or [],"observe_at":observe or [],"hook_needed":None}})

p("C01","PO strings survive encoding and decoding",
 "Decoding a PO-encoded string yields exactly the original text, for every valid text including quotes, backslashes, tabs, line breaks, control characters and non-ASCII letters, at every wrap width. The encoder and decoder terminate on every input and never panic.",
 ["inputs"],"every valid UTF-8 text and every wrap width; for termination every byte string given to the decoder",
 "Tests encode and decode a couple of dozen literals; the interplay of escapes, line splitting, wrapping and multi-byte characters is over all strings.",
 ["catalog/po/po_string.go","catalog/po/wrap.go"],[("EncodePoString","catalog/po/po_string.go"),("DecodePoString","catalog/po/po_string.go"),("wrapString","catalog/po/wrap.go")],["po.EncodePoString","po.DecodePoString"])
p("C02","Writing a PO file and parsing it gives back the same messages",
 "Encoding a PO file and parsing the result yields the same messages: every context, id, plural id, translated form, flag, reference, comment text and header value is preserved, attached to the same message, at every wrap width. Nothing is invented, lost, merged or moved between messages.",
 ["inputs","configurations"],"all files whose text fields are arbitrary valid text (within the format's own limits on comments and headers), all wrap widths and encoder options",
 "Round-trip tests use fixed files; escaping, wrapping, gaps in plural forms and neighbouring messages interact over all contents.",
 ["catalog/po/encoder.go","catalog/po/parser.go","catalog/po/scanner.go","catalog/po/file.go","catalog/po/wrap.go"],[("Encoder.Encode","catalog/po/encoder.go"),("Parse","catalog/po/parser.go")],["po.NewEncoder","po.Parse"])
p("C03","The PO parser ends on every input with a result or an error",
 "Parsing any bytes as a PO file terminates and returns either a file or an error: it never panics, never loops, and never uses memory out of proportion to the input.",
 ["inputs"],"every byte string",
 "Tests feed a handful of malformed files; a hang or panic needs a particular sequence of bytes and tokens.",
 ["catalog/po/scanner.go","catalog/po/parser.go","catalog/po/po_string.go"],[("scanner.scan","catalog/po/scanner.go"),("Parser.Parse","catalog/po/parser.go")],["po.Parse"])
p("C04","PO layout variations never change what is read",
 "Blank lines, indentation, spacing between a keyword and its quoted text, Windows line ends, splitting a text over several quoted lines, and the presence or absence of separating blank lines do not change the parsed messages: each variation is read as the same messages with the same comments, or rejected with an error, never silently read as something else.",
 ["inputs"],"every combination of these layout choices around messages with arbitrary contents",
 "Each test file has one layout; the combinations of keyword, spacing, comment kind and neighbouring message are not enumerated.",
 ["catalog/po/scanner.go","catalog/po/parser.go"],[("scanner.scan","catalog/po/scanner.go"),("Parser.Parse","catalog/po/parser.go")],["po.Parse"])
p("C05","Only finished translations are served from a PO file",
 "A message flagged fuzzy or written as obsolete is never served as a translation, and every other non-empty translated message is served, wherever the flag stands in a list of flags and whatever comments surround the message. An untranslated or unknown message makes lookup return the source text and an error saying so.",
 ["inputs"],"all arrangements of flags, comments and obsolete markers around messages of a catalog",
 "Tests use one fuzzy message; the flag position, comment order and neighbouring messages vary without bound.",
 ["catalog/po.go","catalog/po_decoder.go","catalog/po/parser.go","catalog/po/comment.go"],[("poDecoder.Decode","catalog/po_decoder.go"),("Comment.HasFlag","catalog/po/comment.go")],["catalog.NewPoDecoder"])
p("C06","A failing or slow reader never yields a silently partial catalog",
 "When the underlying reader fails part-way, parsing reports an error instead of returning the messages read so far. When it delivers the same bytes in smaller pieces, the result is the same.",
 ["fault_sequences","inputs"],"every position of a read fault and every split of the data into reads, for the PO and MO readers",
 "Tests parse from complete in-memory buffers; no test injects a fault at each read.",
 ["catalog/po/scanner.go","catalog/po/parser.go","internal/mo/parser.go"],[("scanner.read","catalog/po/scanner.go"),("mo parser","internal/mo/parser.go")],["po.ParseReader","mo.ParseReader"])
p("C07","MO files are decoded to exactly the messages they contain",
 "For every well-formed MO file, little- or big-endian and with its tables and strings at any offsets, decoding gives exactly the stored contexts, ids, plural forms and header, the same catalog as the equivalent PO file.",
 ["inputs"],"all well-formed MO images: byte order, table order and offsets, contexts, plural forms, arbitrary text",
 "Tests decode a few files made by msgfmt; layouts other tools may choose and separators inside strings are not covered.",
 ["internal/mo/parser.go","catalog/po_decoder.go"],[("mo.ParseReader","internal/mo/parser.go"),("moDecoder.Decode","catalog/po_decoder.go")],["catalog.NewMoDecoder"])
p("C08","A damaged MO file is rejected, never crashes or exhausts memory",
 "Decoding any bytes as an MO file terminates with a catalog or an error; it never panics and never allocates memory out of proportion to the file. A truncated file, or one whose tables point outside it, gives an error and never a catalog with made-up text.",
 ["inputs","fault_sequences"],"every byte string, in particular every header and table entry value and every truncation point",
 "Tests try a wrong magic number; counts, lengths and offsets are 32-bit values with interacting overflow and truncation cases.",
 ["internal/mo/parser.go"],[("mo.ParseReader","internal/mo/parser.go")],["mo.ParseBytes","catalog.NewMoDecoder"])
p("C09","Writing the same catalog twice gives identical bytes",
 "Encoding equal PO files gives byte-identical output whatever the order in which messages were added and however the runtime orders its maps; sorted output follows one total order. The JSON encoder is equally deterministic.",
 ["inputs","schedules"],"all message sets and all map iteration orders",
 "Map iteration order varies per run and a test sees one order; ties in the sort keys depend on the data.",
 ["catalog/po/encoder.go","catalog/po/file.go","catalog/json_encoder.go"],[("Encoder.Encode","catalog/po/encoder.go"),("DefaultSortFunction","catalog/po/file.go")],["po.NewEncoder"])
p("C10","JSON catalogs survive encoding and decoding",
 "Encoding a catalog of messages to the JSON format and decoding it yields the same contexts, comments, ids and translated forms for every plural category the language has. Decoding any bytes terminates with a catalog or an error, and the same bytes always give the same catalog.",
 ["inputs"],"all message sets over the supported languages, with and without contexts and plural forms",
 "Tests use fixed files; which categories are written depends on language, context and which forms are present.",
 ["catalog/json.go","catalog/json_encoder.go","catalog/json_decoder.go"],[("jsonEncoder","catalog/json_encoder.go"),("jsonDecoder.Decode","catalog/json_decoder.go")],["catalog.NewJSONEncoder","catalog.NewJSONDecoder"])
p("C11","JSON lookups return the form the language's plural rule selects",
 "A plural lookup in a JSON catalog returns the stored form of the category the language's rule gives for the number, with the documented fallback when that form is absent, and an error when nothing applies. A lookup never returns another message's text, and never panics.",
 ["inputs"],"all numbers and all combinations of present and absent forms",
 "Tests look up a few numbers in fixed files.",
 ["catalog/json.go","catalog/json_decoder.go"],[("jsonCatalog.LookupNPlural","catalog/json.go")],["catalog.Catalog"])
p("C12","Plural-Forms expressions mean what C makes of them",
 "A Plural-Forms header is evaluated as the C expression it contains, with C precedence, associativity and truth values, for every number of objects. The selected index is the one gettext would select, whichever of the library's evaluators (built-in table or interpreted) is used.",
 ["inputs","programs"],"every expression of the gettext grammar and every non-negative number",
 "Tests evaluate known headers at small numbers; equivalence must hold for all numbers and for expressions nobody listed.",
 ["catalog/poplural/rule.go","catalog/poplural/builtin.go","catalog/poplural/ast"],[("poplural.Parse","catalog/poplural/rule.go"),("ast parser","catalog/poplural/ast")],["poplural.Parse"])
p("C13","Built-in gettext plural tables agree with their rule text",
 "For every plural rule the library ships compiled, the compiled function gives, for every number, the index the rule text evaluates to, and the index is always smaller than the declared number of forms.",
 ["inputs"],"every built-in rule and all 64-bit numbers",
 "The generated tests sample numbers; the equality is over all numbers.",
 ["catalog/poplural/builtin_gen.go","catalog/poplural/builtin.go"],[("compiled rules","catalog/poplural/builtin_gen.go")],["poplural.Parse"])
p("C14","Malformed Plural-Forms headers are rejected, never misread",
 "Parsing any text as a Plural-Forms header terminates without panic and either yields a rule whose evaluation never panics and never yields an index outside the declared number of forms, or an error. Text that is not a valid header is not accepted.",
 ["inputs","programs"],"every header text and every number",
 "Tests try a few bad headers; parser states and division or nplurals edge cases are unbounded.",
 ["catalog/poplural/rule.go","catalog/poplural/ast"],[("poplural.Parse","catalog/poplural/rule.go")],["poplural.Parse"])
p("C15","Built-in CLDR plural categories agree with the CLDR rules",
 "For every language with built-in CLDR plural rules, the category chosen for a number is the one the CLDR rule text prescribes, for every integer and decimal operand, and it is one of the categories declared for that language.",
 ["inputs"],"every built-in language group and all operand values",
 "Generated tests check the CLDR sample values only; the rule constrains every number.",
 ["catalog/cldrplural/builtin_gen.go","catalog/cldrplural/builtin.go"],[("built-in rules","catalog/cldrplural/builtin_gen.go")],["cldrplural.ForLanguage"])
p("C16","Plural operands do not depend on how a number is typed",
 "The plural operands computed from a number are those CLDR defines for its value and visible digits, and equal values given as any integer type, or as equivalent text, give equal operands; negative numbers behave as their absolute value. Unsupported or malformed values give an error, never a panic or a wrong operand.",
 ["inputs"],"all values of all supported numeric types and all decimal texts",
 "Tests convert a few literals; extreme values, signs, exponents and long fractions are not covered.",
 ["catalog/cldrplural/evaluation.go"],[("NewOperands","catalog/cldrplural/evaluation.go")],["cldrplural.NewOperands"])
p("C17","CLDR rules parsed at run time mean what CLDR specifies",
 "A set of CLDR plural rules parsed from text chooses for every number the category the CLDR rule language defines: 'and' binds tighter than 'or', ranges include both ends and only integers, sample lists are ignored, and exactly one category results. The choice does not depend on the order in which the rules are held.",
 ["inputs","programs","schedules"],"all rule texts of the CLDR grammar, all operands, all map iteration orders",
 "Tests parse a few rules and evaluate samples; precedence, ranges and order interact over all rules and numbers.",
 ["catalog/cldrplural/cldr.go","catalog/cldrplural/evaluation.go","catalog/cldrplural/ast"],[("ParseRules","catalog/cldrplural/cldr.go"),("rule evaluation","catalog/cldrplural/evaluation.go")],["cldrplural.ParseRules"])
p("C18","The CLDR rule parser ends on every input with a rule or an error",
 "Parsing any text as a CLDR plural rule terminates promptly with a rule or an error, without panic, and evaluating an accepted rule never panics and ends promptly for every number.",
 ["inputs","programs"],"every text and every operand value",
 "Tests try a few bad rules; hangs and panics need particular sample ranges, operands or modulus values.",
 ["catalog/cldrplural/ast","catalog/cldrplural/evaluation.go"],[("ast.Parse","catalog/cldrplural/ast"),("rule evaluation","catalog/cldrplural/evaluation.go")],["cldrplural.ParseRules","ast.Parse"])
p("C19","Every language gets the plural rules of its closest supported language",
 "Looking up plural rules for a language tag gives the rules of the tag itself if listed, otherwise of its closest listed parent (pt-AO: pt-PT before pt), otherwise of its bare language, otherwise the English ones, and reports whether a listed language was found. The result always is usable.",
 ["inputs"],"all language tags built from supported and unknown languages, scripts and regions",
 "Tests look up a few tags.",
 ["catalog/cldrplural/builtin.go","catalog/cldrplural/cldr.go","catalog/poplural/builtin.go"],[("ForLanguage","catalog/cldrplural/builtin.go")],["cldrplural.ForLanguage","poplural.ForLanguage"])
p("C20","Looking up a message always gives the translation or the source text",
 "A localizer returns the stored translation of its language when there is one, otherwise that of the fallback language, otherwise the source text with its arguments formatted; for plurals the form fitting the number is chosen. It never returns a foreign message, reports the miss exactly when the text is not from the requested language, and calls the missing callback once for each language that lacks the text.",
 ["inputs","configurations","histories"],"all combinations of present and missing translations over domains, contexts and languages, all numbers and arguments",
 "Tests fix one bundle; the fallback chain is a product of choices (language, domain, context, form, error).",
 ["localizer.go","locale.go","bundle.go"],[("Localizer","localizer.go"),("locale lookups","locale.go")],["spreak.Localizer"])
p("C21","Every lookup method asks for exactly what its name says",
 "Each of the lookup methods (plain, plural, with context, with domain, formatted or not) resolves exactly the given domain, context, message id, plural id and number, with the defaults of the localizer for those not given, and the formatted ones apply the given arguments to the text found.",
 ["inputs","configurations"],"all methods and all argument values",
 "Tests call each method once or twice with fixed arguments.",
 ["localizer.go"],[("Get family","localizer.go")],["spreak.Localizer"])
p("C22","Translating concurrently is free of shared writes",
 "Once a bundle is built, localizers may be created and used for lookups from any number of goroutines at once: no such operation writes memory another one can see. Results are the same as without concurrency.",
 ["schedules","histories"],"all interleavings of lookups and localizer creation on a shared bundle",
 "Tests run single-threaded; a race needs a particular schedule, but any write to shared state is a race in some schedule.",
 ["localizer.go","locale.go","bundle.go","catalog/json.go","catalog/po.go","humanize/humanizer.go"],[("read-only catalogs","catalog/po.go"),("Bundle","bundle.go")],["spreak.Localizer"])
p("C23","Callers cannot corrupt a catalog or bundle through returned values",
 "Slices, maps and messages handed out by bundles, localizers and catalogs are copies: changing them never changes later lookups, other localizers or the catalog.",
 ["histories"],"all modifications of all returned values followed by all lookups",
 "Tests do not modify what they get back.",
 ["bundle.go","localizer.go","catalog/po.go","catalog/json.go"],[("SupportedLanguages","bundle.go"),("Messages","catalog/catalog.go")],["spreak.Bundle"])
p("C24","A bundle offers exactly the languages that were loaded",
 "Building a bundle either fails with an error or yields a bundle whose supported languages are exactly those for which a catalog was loaded (plus the source language), where required languages that cannot be loaded make it fail, and every localizer request is matched to a supported language or falls back as documented. A custom printer is initialised with these languages before it is asked for the print function of any.",
 ["configurations","inputs","fault_sequences"],"all option combinations, all subsets of loadable languages and domains, all kinds of load errors",
 "Tests build a few bundles; the outcome depends on which catalogs are missing or broken, per language and domain.",
 ["bundle.go","utils.go"],[("NewBundle","bundle.go")],["spreak.NewBundle"])
p("C25","Catalog files are found in the documented order and faults surface",
 "The file system loader tries the documented candidate paths in order and uses the first existing file with the decoder belonging to its extension; when there is none this is reported as not found; any fault of the file found (open, read, decode, close, a directory in its place) is reported as an error, whatever the error wraps, and no other file is used instead; every opened file is closed. An empty path means the root of the file system.",
 ["fault_sequences","configurations"],"all subsets of existing candidate files, all decoders and a fault at every file operation",
 "Tests use a fixed directory tree without faults.",
 ["loader.go"],[("FilesystemLoader.Load","loader.go"),("defaultResolver","loader.go")],["spreak.NewFilesystemLoader"])
p("C26","Language expansion lists candidates from most to least specific",
 "Expanding a language tag lists the full tag, its language in the two- and three-letter code, and its language with its region and with its script in both spellings, and nothing else, each once; longer names come first, so that no name comes after one it extends, and the bare language is last.",
 ["inputs"],"all tags with and without script, region and extension, in all spellings",
 "Tests expand a few tags.",
 ["loader.go","utils.go"],[("ExpandLanguage","utils.go")],["spreak.ExpandLanguage"])
p("C27","Errors are localized without losing the original error",
 "Localizing an error that is localizable gives the translation with its own context, domain and arguments; any other error is looked up by its text in the error context of the default domain. The result wraps the original error, which can be found by unwrapping. Without a translation in the requested language the error is returned unchanged; nil stays nil.",
 ["inputs"],"all chains of wrapped localizable and plain errors, present and missing translations",
 "Tests localize a few errors.",
 ["localizer.go","localize"],[("LocalizeError","localizer.go")],["Localizer.LocalizeError"])
p("C28","Merging comments and messages loses nothing and adds no duplicates",
 "Merging a comment into another keeps everything both had, adds nothing else and no duplicates, and merging the same thing again changes nothing; merging messages does so with their comments and takes over the plural id where there was none. Sorting references and flags yields an ordered permutation.",
 ["inputs","histories"],"all pairs of comments and messages and all sequences of merges",
 "Tests merge a few fixed comments.",
 ["catalog/po/comment.go","catalog/po/message.go"],[("Comment.Merge","catalog/po/comment.go"),("Message.Merge","catalog/po/message.go")],["po.Comment","po.Message"])
p("C29","Number formatting keeps the number's value",
 "Thousands grouping keeps sign and digits and groups by three for every integer; ordinals take the correct ending; large-number words name the right magnitude and value within rounding; single digits become words. No value of any numeric type causes a panic.",
 ["inputs"],"all values of all numeric types",
 "Tests sample a few numbers; sign, magnitude and type extremes are not covered.",
 ["humanize/numbers.go","humanize/helper.go"],[("Ordinal","humanize/numbers.go"),("Intcomma","humanize/numbers.go"),("Intword","humanize/numbers.go")],["humanize.Humanizer"])
p("C30","Relative times state the true distance",
 "The relative time texts state the distance between two instants rounded down to the shown units: full years, months of 30 days, weeks, days, hours and minutes, each within its range and with the right plural form, at most two adjacent units unless the depth and adjacency options say otherwise. A year is 365 days with the leap days in between left out, so full years agree with the calendar. An instant in the other direction, or less than a minute away, is zero minutes. Durations and seconds since 1970 count like the instants they stand for.",
 ["inputs"],"all pairs of instants, all calendar positions and option combinations",
 "Tests check a table of durations; month lengths, leap years and carries between units vary.",
 ["humanize/date.go","internal/calendar/calendar.go"],[("TimeSince","humanize/date.go")],["Humanizer.TimeSince","Humanizer.TimeUntil","Humanizer.TimeSinceFrom","Humanizer.TimeUntilFrom"])
p("C31","Natural day and time words fit the instant",
 "Natural day names today, tomorrow and yesterday exactly for dates that are zero, one ahead or one behind on the calendar of the value's own time zone, and prints the date for all others; natural time words state the true direction and the distance, to the second, in the largest fitting unit with the right plural form. A duration means the time it leads to from the moment of the call, however long the call takes: its distance is stated exactly.",
 ["inputs","schedules"],"all pairs of instants and zones, all durations",
 "Tests check a few offsets against the running clock.",
 ["humanize/date.go"],[("NaturalDay","humanize/date.go"),("NaturalTime","humanize/date.go")],["Humanizer.NaturalDay","Humanizer.NaturalTime"])
p("C32","File sizes are shown in the largest fitting unit",
 "A formatted file size uses the largest binary unit not exceeding the size, with the value rounded to one decimal, keeps the sign, and never panics or overflows for any value of any numeric type.",
 ["inputs"],"all values of all numeric types",
 "Tests check values near a few unit borders.",
 ["humanize/helper.go","humanize/numbers.go"],[("FilesizeFormat","humanize/helper.go")],["Humanizer.FilesizeFormat"])
p("C33","Date format characters print the date's own fields",
 "Each format character prints the field it documents, correctly padded, for every instant; escaped characters are printed literally, and every format string is processed to its end without panic.",
 ["inputs"],"all format strings and all instants",
 "Tests format a few instants; field ranges and escapes combine freely.",
 ["humanize/dateformat.go"],[("FormatTime","humanize/dateformat.go")],["Humanizer.FormatTime"])
p("C34","ISO calendar fields follow the Gregorian calendar",
 "Days in month, leap year, day of year, ISO week number and week-numbering year printed for a date are those of the Gregorian calendar for every date.",
 ["inputs"],"all dates",
 "Tests check a few dates; week-year boundaries depend on the weekday and leap status of the year.",
 ["humanize/dateformat.go","humanize/dates.go"],[("calendar fields","humanize/dateformat.go")],["Humanizer.FormatTime"])
p("C35","A humanizer speaks the language selected for it",
 "The language of a humanizer depends only on the languages supported, in the order given, and the languages asked for; its texts and its predefined formats are those of that language, and formats the language leaves out are the documented fallbacks.",
 ["inputs","histories"],"all sets of languages and requests, every order of map iteration",
 "Tests create one humanizer at a time and cannot see that another run selects another language.",
 ["humanize/humanizer.go","humanize/locale.go"],[("New","humanize/humanizer.go"),("CreateHumanizer","humanize/humanizer.go")],["humanize.New"])
p("C36","Gettext catalogs serve the plural form their rule selects",
 "A plural lookup in a PO or MO catalog returns the translation the number selects: by the Plural-Forms header of the file, or, when the decoder or the file asks for CLDR rules or the file has no such header, by the place of the number's CLDR category in the list of categories of the language. A form that is missing or empty gives an error with the source text. A lookup without number gives the first form.",
 ["inputs","configurations"],"all numbers, all decoders, all spellings of the headers, every form missing or empty",
 "Tests look a few numbers up in one or two files; forms, headers, decoders, languages and numbers combine freely.",
 ["catalog/po_decoder.go","catalog/po.go"],[("buildGettextCatalog","catalog/po_decoder.go"),("GettextCatalog.LookupPlural","catalog/po.go")],["GettextCatalog.LookupPlural"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
