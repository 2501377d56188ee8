#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the table below is its source)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or ["return value of Parse"], hook_needed=None)))


p("C01", "Same call, same answer",
  "With a fixed moment of reference, parsing or searching the same text with the same configuration gives the same date, period, locale, matches and success, whatever was parsed before on the same parser object (as long as it does not try previous locales), in every process, and for every time zone of the host except for Unix timestamps, which are shown in the host's zone but denote the same instant.",
  ["histories", "inputs", "configurations"],
  "every sequence of Parse/Search/SearchWithLanguage/ParseHijri/ParseJalali/PopTzOffset calls before the call, on the same or other parser objects; every process; every host time zone",
  "The tests run each text once, in one order, in one process; Go randomises map iteration per iteration and the package keeps lazily built tables, caches and a default parser, so an order dependence shows up only across repetitions, orders and processes.",
  ["parser.go", "search.go", "internal/language", "internal/timezone", "internal/parser/absolute/parser.go", "internal/data"],
  [("ordered tables, sorting with tie-breaks", "internal/timezone, internal/language/loader.go"), ("config clone per call", "config.go:initiate")],
  state=[dict(name="Parser.usedLocales, uniqueCharsets", meaning="state a parser keeps between calls", where="parser.go")])

p("C02", "Concurrent use is safe",
  "Any number of goroutines may call Parse, Search, SearchWithLanguage, ParseHijri, ParseJalali and PopTzOffset at the same time, on one shared parser, on the package's default parser or on parsers of their own: every call returns, none panics, no data race occurs, and (for a parser that does not try previous locales) each answer is the one the call gives alone.",
  ["schedules", "inputs", "histories"],
  "every interleaving of concurrent calls on shared and separate parsers",
  "The tests are sequential and run without the race detector.",
  ["parser.go", "search.go", "internal/strutil", "internal/language", "internal/regexp"],
  [("mutex held for a whole Parse call", "parser.go:Parse"), ("charset table read under the mutex", "search.go:initUniqueCharsets"), ("pooled text transformers", "internal/strutil")],
  state=[dict(name="usedLocales/uniqueCharsets/ParserTypes", meaning="mutable parser state", where="parser.go")])

p("C03", "The caller's data is left alone",
  "A call changes nothing the caller can see of what it passed in: the configuration, each of its lists including the unused capacity behind them, and the list of formats are the same after the call as before it, whether the call succeeds or fails.",
  ["inputs", "configurations"],
  "every configuration (all list-valued fields filled, with spare capacity), text, format list and entry point",
  "No test compares its configuration before and after a call.",
  ["config.go", "parser.go", "search.go", "hijri-parser.go", "jalali-parser.go"],
  [("Clone before defaults are applied", "config.go:initiate"), ("slices.Clone before append", "parser.go:getApplicableLocales")],
  observe=["the caller's Configuration and slices after Parse, Search, SearchWithLanguage, ParseHijri, ParseJalali"])

p("C04", "Previously used locales are tried first",
  "A parser that is asked to try previous locales remembers, in order of first success, the locales that parsed something under that option; for a later text the earliest remembered locale that is allowed by the configuration of that call and applicable to the text is tried first, and only if it fails the usual order follows. Calls without the option neither use nor extend that memory, and a locale that the configuration of the call excludes is never used.",
  ["histories", "inputs", "configurations"],
  "every sequence of calls on one parser, with the option on or off and any locale selection per call",
  "One test makes three calls with the option; the property ranges over histories.",
  ["parser.go"],
  [("usedLocales + tracker", "parser.go:saveUsedLocale"), ("checkPreviousLocales", "parser.go")],
  state=[dict(name="Parser.usedLocales", meaning="locales in order of first use", where="parser.go")])

p("C05", "Only the selected locales, in the documented order",
  "The locale of a result is one that the configuration selects: the given locales, else the given (or detected) languages combined with the region, else every known language; and of the locales that could parse the text, the one that comes first wins, by prevalence or by the given order when that is asked for. Languages given as defaults are tried only after all of those, and unknown or conflicting locales and unknown languages are reported as errors.",
  ["inputs", "configurations"],
  "every text and every combination of locales, languages, region, given order, default languages and language detector",
  "Tests sample single selections; the winner depends on the interplay of selection, ordering, applicability and what each locale alone would answer.",
  ["parser.go", "internal/language/loader.go", "internal/language/applicable-check.go"],
  [("GetLocales", "internal/language/loader.go"), ("getApplicableLocales", "parser.go")])

p("C06", "Parser types select and order the methods",
  "Only the enabled parsing methods produce results, and when several of them understand a text the first one in the given order answers (an empty list means all methods in the documented order); an unknown method is an error. A complete custom format given with the call is tried before all of them.",
  ["inputs", "configurations"],
  "every text and every ordered selection of the six methods",
  "Tests use a handful of selections; 1957 ordered selections exist and texts that several methods understand are rare.",
  ["parser.go"],
  [("loop over ParserTypes per locale", "parser.go:Parse")])

p("C07", "Dates written in parts are completed as documented",
  "For a text that writes any of weekday, day, month, year and time, the result carries exactly the parts that are written, and the rest comes from the moment of reference and the configured preferences (side of the reference, day of month, month of year); a filled-in day that the month does not have becomes its last day, a 29 February without a year moves to a leap year, and written parts that do not exist together (31 April, 29 February 2015) give no date.",
  ["inputs", "configurations"],
  "every combination of written parts and their values, every moment of reference, every combination of preferences",
  "Tests sample some hundreds of points of a space where month lengths, leap years, year ends and five preferences interact.",
  ["internal/parser/absolute", "internal/parser/common", "internal/dateutil"],
  [("component tokens, createDateTime", "internal/parser/absolute/root.go"), ("correctForTimeFrame, correctForMonth, correctForDay", "internal/parser/absolute/parser.go")])

p("C08", "Preferred side of the reference is honoured",
  "When past is preferred, a time alone, a weekday alone, a month without a year, or a date whose year has two digits never resolves to a moment after the reference, and when future is preferred never to one before it, wherever the reference lies in its day, month, year or leap cycle and whatever the time zones of the reference, the text and the configuration; among the moments on the right side it is the nearest one. (A year of two digits: as long as the reference lies in 1970-2067, so that the right century is next to the usual one, and the date exists in that century.)",
  ["inputs", "configurations"],
  "every moment of reference and time zone, every incomplete date or time, both preferences",
  "Tests use a few fixed references, none of them at the border between both sides in another time zone.",
  ["internal/parser/absolute/parser.go"],
  [("correctForTimeFrame", "internal/parser/absolute/parser.go")])

p("C09", "Strictness and required parts",
  "With strict parsing a text is accepted only if it writes day, month and year, and with required parts only if it writes those parts; the demand never changes the date of a text that meets it, and never rejects one that does. This holds for dates in words and numbers, for custom formats, and for dates without spaces of eight digits or more (shorter ones are refused under such a demand).",
  ["inputs", "configurations"],
  "every combination of written parts, every subset of required parts, strict or not",
  "Tests cover strict parsing on a few texts and required parts hardly at all.",
  ["internal/parser/common/strict-check.go", "internal/parser/absolute/parser.go", "internal/parser/nospace/parser.go", "internal/parser/formatted/parser.go"],
  [("CheckStrictParsing", "internal/parser/common/strict-check.go")])

p("C10", "The period tells how precise the text is",
  "The period of a result is the finest of day, month and year that the text writes (a weekday or time alone counts as day); for relative dates it is that of the finest unit; and only when asked to return time as period, a text with a time of day, a time unit or a timestamp yields hour, minute or second according to how precisely that is written (custom formats and dates without spaces stay at day). The option changes nothing but the period.",
  ["inputs", "configurations"],
  "every text and both settings of the option",
  "Tests check the period of single examples.",
  ["internal/parser/absolute/parser.go", "internal/parser/relative/parser.go", "internal/parser/timestamp/parser.go", "internal/parser/common/time.go", "internal/parser/formatted/parser.go", "internal/parser/nospace/parser.go"],
  [("getPeriod", "internal/parser/absolute/parser.go"), ("getPeriod", "internal/parser/relative/parser.go")])

p("C11", "Relative dates are exact calendar arithmetic",
  "A relative date is the moment of reference moved by exactly the written amount: decades, years, months, weeks and days on the calendar of the zone the reference is in (optionally keeping the end of month; the wall clock stays), hours, minutes and seconds as durations, with fractions (written with a period) carried into smaller units; 'in' moves forward, 'ago' backward, an undirected amount follows the preference, and a time of day written next to it replaces the clock.",
  ["inputs", "configurations"],
  "every combination of units, amounts and directions that stays within representable durations, every moment of reference",
  "Tests fix one or two references and small amounts; month ends, leap days, mixed units and fractions are a product space.",
  ["internal/parser/relative/parser.go"],
  [("getKwargs / applyTime / AddDate", "internal/parser/relative/parser.go")])

p("C12", "Time zones",
  "A time zone written in the text - a known abbreviation, UTC/GMT with an offset, or a bare offset - is removed from the text and decides the offset of the result; otherwise the default zone of the configuration does, and without one the zone of the reference (UTC for custom formats and dates without spaces), with the offset it has at that wall clock; the wall clock of an absolute date is never changed by it (except where the zone skips it) and a relative date denotes the same instant as without it.",
  ["inputs", "configurations"],
  "every abbreviation and offset form, every default zone including those with daylight saving, every date",
  "The tests list some zones for one date; which of hundreds of patterns matches depends on their order and on the text around them.",
  ["internal/timezone", "parser.go", "internal/parser/relative/parser.go"],
  [("PopTzOffset over ordered patterns", "internal/timezone"), ("applyTimezone", "parser.go")],
  observe=["return value of Parse and PopTzOffset"])

p("C13", "Unix timestamps denote their instant",
  "Ten digits, optionally followed by three or six more, denote the instant that many seconds, milliseconds or microseconds after the epoch, and with a minus sign (when negative timestamps are enabled) the whole seconds count backwards; the value is exact, and numbers with another count of digits are not timestamps.",
  ["inputs", "configurations"],
  "every digit string, the reference and zone notwithstanding",
  "Tests check a few values.",
  ["internal/parser/timestamp/parser.go"],
  [("rxTimestamp", "internal/parser/timestamp/parser.go")])

p("C14", "Date order decides ambiguous numbers",
  "In a date of numbers the order of day, month and year is the configured one, which is asked for by the name of the locale in use, or the one of that locale when none (or an invalid one) is configured; numbers that cannot be read in that order are read in another one that makes a date, and surely when one of three numbers is a year of four digits, or the text gives no date.",
  ["inputs", "configurations"],
  "every triple and pair of numbers, separators, the six orders, every locale",
  "Tests use some dates in some locales.",
  ["parser.go", "internal/parser/absolute/parser.go", "internal/data"],
  [("dateOrder per locale", "parser.go:Parse"), ("NumberDirectives", "internal/parser/absolute/parser.go")])

p("C15", "Surface form does not matter",
  "Writing the digits of a text in any Unicode decimal script, changing the case of its letters (where a letter has exactly one capital and one small form), adding spaces around it or doubling spaces inside it, or using full-width or non-breaking space characters or marks of the direction of writing for spaces, leaves the date, period, locale and success unchanged.",
  ["inputs"],
  "every text and every such rewriting of it, without custom formats and skipped tokens (which describe the text as it is written)",
  "Tests contain a few rewritten examples; there are dozens of digit scripts.",
  ["internal/digit", "internal/strutil", "internal/language"],
  [("digit.NormalizeString", "internal/digit"), ("SanitizeDate, NormalizeString", "internal/strutil")])

p("C16", "Search finds what is there, as Parse would read it",
  "Every match of a search is a piece of the text, the matches come in the order of the text and do not overlap, and each carries the searched language and the date that this piece denotes in that language under the given configuration (moment of reference, preferences, date order, time zone); every date phrase that stands in prose is found, once; without a moment of reference a relative date counts from the last date before it that stands by itself; words and sentences without dates change nothing, so what is found in a text is what is found in its parts.",
  ["inputs", "configurations"],
  "every text, language and configuration",
  "Tests list expected matches of some texts with default configuration.",
  ["search.go", "internal/language/translate-search.go", "internal/language/detector.go"],
  [("parseFoundObjects", "search.go"), ("TranslateSearch", "internal/language/translate-search.go")],
  observe=["return values of Search and SearchWithLanguage"])

p("C17", "Hijri dates",
  "A Hijri date with day, month and year denotes its day of the Umm al-Qura calendar (years 1356 to 1500; a day beyond the end of the month counts as its last day, two-digit years mean 1390 to 1489), the time written beside it is kept, and a year outside of the calendar gives an error.",
  ["inputs", "configurations"],
  "every day of the calendar, digit script, separator, time and moment of reference",
  "Tests check nine dates.",
  ["hijri-parser.go", "internal/parser/hijri"],
  [("createDateTime", "internal/parser/hijri/parser.go")], observe=["return value of ParseHijri"])

p("C18", "Jalali dates",
  "A Jalali date with day, month and year, with the month as number or Persian name, the day as number or Persian word, and Persian or Latin digits, denotes its day of the Solar Hijri calendar, the time written beside it is kept, and without a year the Jalali year of the moment of reference is used.",
  ["inputs", "configurations"],
  "every day of the years 1244 to 1472, every spelling, time and moment of reference",
  "Tests check some twenty dates.",
  ["jalali-parser.go", "internal/parser/jalali"],
  [("createDateTime, translate", "internal/parser/jalali")], observe=["return value of ParseJalali"])

p("C19", "Every input gets an answer",
  "Every call returns for every text, configuration and list of formats, without panicking and in time proportionate to the text, and the answer is either an error with the zero date or a date with a time and one of the six periods; parsing results name a known locale, or none when a custom format matched the raw text.",
  ["inputs", "configurations"],
  "every byte string up to a few hundred bytes, including invalid UTF-8, in every entry point",
  "Tests feed well-formed texts.",
  ["parser.go", "search.go", "hijri-parser.go", "jalali-parser.go", "internal/language", "internal/parser"],
  [("error returns", "parser.go:Parse")])

p("C20", "Both regular expression engines agree",
  "The library built with the alternative regular expression engine gives the same answer to every call with a text in valid UTF-8 as the library built with the default one.",
  ["inputs", "configurations"],
  "every text and configuration, both builds",
  "The suite runs on each build by itself against the same samples.",
  ["internal/regexp"],
  [("build tag re2_wasm", "internal/regexp")])

p("C21", "Custom formats",
  "A text in one of the given layouts yields exactly the moment that the layout reads from it, with a missing year taken from the reference, a missing month and day from the preferences, the period year when no month is written, month when no day is, day otherwise, the first matching format winning, and month and weekday names in the text may be in any selected language.",
  ["inputs", "configurations"],
  "every layout, date, preference and locale",
  "Tests use about a dozen layouts.",
  ["internal/parser/formatted/parser.go", "parser.go"],
  [("formatted.Parse", "internal/parser/formatted/parser.go")])

p("C22", "Dates without spaces",
  "A run of digits that spells day, month and a year of four digits with two digits each, alone or followed by hours, minutes and seconds with two digits each, in the configured order yields that date and time with period day; any other run is read by the first layout that makes an existing date, those of the configured order first and the widest parts first, and one that spells no existing date yields nothing. (In month-day-year order, year-month-day followed by hour and minute is tried before it.)",
  ["inputs", "configurations"],
  "every date and the six orders, with and without time",
  "Tests check a few numbers.",
  ["internal/parser/nospace"],
  [("formats per order", "internal/parser/nospace/constants.go")])

p("C23", "Invalid configurations are refused",
  "Every entry point refuses, with an error and without a result, a preference outside of its range, an unknown required part, an unknown parsing method, an unknown locale or language and two locales of one language - each where the entry point uses it: a search uses locales by their language only, the Hijri and Jalali parsers use no locales and methods, and unknown default languages are skipped - and accepts everything else.",
  ["configurations", "inputs"],
  "every value of every field, every entry point",
  "No test passes invalid preferences.",
  ["config.go", "internal/language/loader.go", "internal/language/languages.go", "parser.go", "search.go", "hijri-parser.go", "jalali-parser.go"],
  [("validate", "config.go"), ("GetLocales", "internal/language/loader.go")])

p("C24", "The vocabulary of every language",
  "In each supported language the names of months and weekdays denote those months and weekdays, the phrases for today, yesterday, tomorrow and for amounts of a unit ago or ahead - in digits or in a number word of the language - denote what they say, the words for the halves of the day are read beside a clock, and a date in one of the layouts of the language that the library reads is read as the parts it writes.",
  ["inputs", "configurations"],
  "every locale and every word of its vocabulary",
  "Tests sample a few phrases for some of the two hundred languages.",
  ["internal/data", "internal/language"],
  [("locale data tables", "internal/data"), ("Translate", "internal/language/translate.go")])

p("C25", "Time of day",
  "A time of day is read exactly: hours with or without minutes, seconds and a fraction down to microseconds, on the 24-hour clock or with AM/PM (12 AM is midnight, 12 PM noon), before or after the date, separated by colons or - alone or beside a date in parts - by a period; hours, minutes and seconds out of range give no date with that time.",
  ["inputs", "configurations"],
  "every time of day in every spelling, alone and next to a date",
  "Tests sample some times.",
  ["internal/parser/common/time.go", "internal/parser/absolute/parser.go", "internal/parser/relative/parser.go", "internal/language/translate.go"],
  [("ParseTime", "internal/parser/common/time.go")])

p("C26", "The language of a search",
  "A search chooses its language among the selected ones (those of the locales, else the given, else the detected, else all), whatever the order and the repetitions of the list unless the given order is asked for: the first of them for a text without letters; one that alone uses a letter of the text; else, of those that use any of its letters, the one that knows most of its words, the earlier of equals; else the first default language, and an error when there is none. The matches carry that language, and are those of a search in that language alone.",
  ["inputs", "configurations", "histories"],
  "every text, every selection of languages in every order and with repetitions, every history of searches on a parser",
  "The tests search texts in some languages with one or two languages given; the choice is an interplay of the alphabets of all selected languages.",
  ["search.go", "internal/language/languages.go", "internal/language/detector.go"],
  [("DetectFullTextLanguage", "internal/language/detector.go"), ("initUniqueCharsets", "search.go"), ("GetLanguages", "internal/language/languages.go")])

p("C27", "Words to skip",
  "A token that the configuration lists as one to skip (small letters, no accents), or \"t\" when it lists none (unless the language gives it a meaning), is as if it were not in the text, wherever it stands between the parts of a date, whatever the order and the repetitions of the list; words that follow each other without a part of a date between them are one token. A text with a word that is neither listed nor known to the language, nor the name of a zone, is no date in that language.",
  ["inputs", "configurations"],
  "every text with words before, between and behind its parts, and every list",
  "Few tests set the list.",
  ["internal/language/split.go", "internal/language/utils.go", "internal/language/applicable-check.go", "config.go"],
  [("Split", "internal/language/split.go"), ("mapSkippedTokens", "internal/language/utils.go"), ("IsApplicable", "internal/language/applicable-check.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert x["statement"].count(". ") <= 2, x["id"]
