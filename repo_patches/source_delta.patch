From 36f1317081cb2039278bdbc5bb9c23edc35c6aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 01/77] fix: check timezone patterns in a deterministic order

The table was built by ranging over Go maps, so which pattern of a string
such as '10:34 UTC+0530' (or of a string with two timezone names) won changed
from one process to another.
---
 internal/timezone/timezones.go  | 27 +++++++++++++++++----------
 internal/timezone/tz-offsets.go | 17 +++++++++++------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/internal/timezone/timezones.go b/internal/timezone/timezones.go
index 3dd841a..605ace0 100644
--- a/internal/timezone/timezones.go
+++ b/internal/timezone/timezones.go
@@ -5,10 +5,17 @@ import "github.com/markusmobius/go-dateparser/internal/regexp"
 // Info is the data for parsing timezone from a string.
 type Info struct {
 	RegexPatterns       []string
-	AlternativePatterns map[*regexp.Regexp]string
+	AlternativePatterns []AlternativePattern
 	Timezones           map[string]int
 }
 
+// AlternativePattern is the rule to generate an alternative pattern of a timezone.
+// The rules are applied in the order they are listed.
+type AlternativePattern struct {
+	Regex       *regexp.Regexp
+	Replacement string
+}
+
 // These timezone list are taken fromseveral sources:
 // - http://stackoverflow.com/q/1703546
 // - http://en.wikipedia.org/wiki/List_of_time_zone_abbreviations
@@ -19,20 +26,20 @@ var timezoneInfoList = []Info{
 		RegexPatterns: []string{
 			`(.)%s$`,
 		},
-		AlternativePatterns: map[*regexp.Regexp]string{
+		AlternativePatterns: []AlternativePattern{
 			// UTC+n, UTC-n, GMT+n, GMT-n:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+n:mm, UTC-n:mm, GMT+n:mm, GMT-n:mm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`): `(?:UTC|GMT)\$1$2:$3`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`), `(?:UTC|GMT)\$1$2:$3`},
 			// UTC+nn, UTC-nn, GMT+nn, GMT-nn:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+nnmm, UTC-nnmm, GMT+nnmm, GMT-nnmm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`): `(?:UTC|GMT)\$1$2:?$3.*`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`), `(?:UTC|GMT)\$1$2:?$3.*`},
 			// Others:
-			regexp.MustCompile(`UTC`):   "",
-			regexp.MustCompile(`:`):     "",
-			regexp.MustCompile(`:|UTC`): "",
-			regexp.MustCompile(`UTC`):   "GMT",
+			{regexp.MustCompile(`UTC`), ""},
+			{regexp.MustCompile(`:`), ""},
+			{regexp.MustCompile(`:|UTC`), ""},
+			{regexp.MustCompile(`UTC`), "GMT"},
 		},
 		Timezones: map[string]int{
 			`UTC-12:00`: -43200,
diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index b53a382..90c5b03 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -2,6 +2,8 @@ package timezone
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"sort"
 	"strings"
 
@@ -25,9 +27,12 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	searchPatterns := map[string]struct{}{}
 
 	for _, tzInfo := range timezoneInfoList {
+		// Sort the names to make sure the patterns are always checked in the same order
+		tzNames := slices.Sorted(maps.Keys(tzInfo.Timezones))
+
 		for _, pattern := range tzInfo.RegexPatterns {
 			// Main pattern
-			for tzName, offset := range tzInfo.Timezones {
+			for _, tzName := range tzNames {
 				searchPattern := regexp.QuoteMeta(tzName)
 				regexPattern := fmt.Sprintf(pattern, searchPattern)
 				if _, exist := regexPatterns[regexPattern]; exist {
@@ -38,15 +43,15 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 				offsets = append(offsets, OffsetData{
 					Name:   tzName,
 					Regex:  regexp.MustCompile(`(?i)` + regexPattern),
-					Offset: offset,
+					Offset: tzInfo.Timezones[tzName],
 				})
 			}
 
 			// Alternative patterns
-			for replacer, replacement := range tzInfo.AlternativePatterns {
-				for tzName, offset := range tzInfo.Timezones {
+			for _, alternative := range tzInfo.AlternativePatterns {
+				for _, tzName := range tzNames {
 					searchPattern := regexp.QuoteMeta(tzName)
-					searchPattern = replacer.ReplaceAllString(searchPattern, replacement)
+					searchPattern = alternative.Regex.ReplaceAllString(searchPattern, alternative.Replacement)
 					regexPattern := fmt.Sprintf(pattern, searchPattern)
 					if _, exist := regexPatterns[regexPattern]; exist {
 						continue
@@ -56,7 +61,7 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 					offsets = append(offsets, OffsetData{
 						Name:   tzName,
 						Regex:  regexp.MustCompile(`(?i)` + regexPattern),
-						Offset: offset,
+						Offset: tzInfo.Timezones[tzName],
 					})
 				}
 			}
-- 
2.43.0


From d87e8ad47f12d0ca26a75b8a7064b6e86cf62194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 02/77] fix: do not join the last word of a sentence with a
 missing one

For languages without word spacing, joining the last word with nothing gives
the word itself, so a dictionary word in the last position indexed past the
end of the tokens and panicked in SearchWithLanguage.
---
 internal/language/translate-search.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 3812bba..c350806 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -32,7 +32,8 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 
 		for i, word := range simplifiedTokens {
 			var nextWord string
-			if i < lastTokenIndex {
+			hasNextWord := i < lastTokenIndex
+			if hasNextWord {
 				nextWord = simplifiedTokens[i+1]
 			}
 
@@ -47,7 +48,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
+			} else if hasNextWord && isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
 				translations, _ := translateWord(ld, currentAndNextJoined)
 				joinedOriginalToken := joinChunk(ld, originalTokens[i], originalTokens[i+1])
 
-- 
2.43.0


From f11b3f138ef6dffbdcfcbafb06948a3b5483c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 03/77] fix: do not share chained text transformers between
 goroutines

transform.Chain returns a transformer that keeps its state and its buffers
inside itself. The two package level chains were used at the same time by
separate parsers, ParseHijri, ParseJalali and SearchWithLanguage, which is a
data race and could corrupt the normalized string.
---
 internal/strutil/strutil.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 4a95223..4573875 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -3,6 +3,7 @@ package strutil
 import (
 	"encoding/json"
 	"strings"
+	"sync"
 	"unicode"
 
 	"github.com/markusmobius/go-dateparser/internal/regexp"
@@ -13,8 +14,14 @@ import (
 )
 
 var (
-	nfkcTransformer    = transform.Chain(norm.NFKD, norm.NFKC)
-	unicodeTransformer = transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
+	// A chained transformer keeps its state and buffers inside itself, so unlike the other
+	// transformers it must never be shared between goroutines.
+	nfkcTransformers = sync.Pool{New: func() any {
+		return transform.Chain(norm.NFKD, norm.NFKC)
+	}}
+	unicodeTransformers = sync.Pool{New: func() any {
+		return transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
+	}}
 
 	aposthropeTransformer = runes.Map(func(r rune) rune {
 		switch r {
@@ -58,7 +65,10 @@ func SanitizeSpaces(s string) string {
 // NormalizeUnicode removes Nonspacing Mark (Mn) characters then
 // use NFKC as the normal forms.
 func NormalizeUnicode(str string) string {
-	normalized, _, err := transform.String(unicodeTransformer, str)
+	transformer := unicodeTransformers.Get().(transform.Transformer)
+	defer unicodeTransformers.Put(transformer)
+
+	normalized, _, err := transform.String(transformer, str)
 	if err != nil {
 		return str
 	}
@@ -74,7 +84,10 @@ func NormalizeAposthrope(s string) string {
 // NormalizeCharset is used to normalize charset in a string. Used before
 // detecting language of a string.
 func NormalizeCharset(str string) string {
-	normalized, _, err := transform.String(nfkcTransformer, str)
+	transformer := nfkcTransformers.Get().(transform.Transformer)
+	defer nfkcTransformers.Put(transformer)
+
+	normalized, _, err := transform.String(transformer, str)
 	if err == nil {
 		str = normalized
 	}
-- 
2.43.0


From 24fb6ad0923a5ecd8f16566939dc1431f03aa44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 04/77] fix: read the charsets of a search while holding the
 lock

Search read the cached charsets after releasing the lock, while another Search
of the same parser with other languages could replace them, so a text could be
detected with the charsets of someone else's languages.
---
 search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 84d0be9..a8eb08d 100644
--- a/search.go
+++ b/search.go
@@ -65,11 +65,11 @@ func (p *Parser) Search(cfg *Configuration, text string) (string, []SearchResult
 	}
 
 	// Generate charsets
-	p.initUniqueCharsets(languages)
+	uniqueCharsets := p.initUniqueCharsets(languages)
 
 	// Detect language of the text
 	iCfg := cfg.toInternalConfig()
-	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, p.uniqueCharsets)
+	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, uniqueCharsets)
 	if err != nil {
 		return "", nil, err
 	}
@@ -140,7 +140,7 @@ func (p *Parser) initSearchConfig(cfg *Configuration) (*Configuration, error) {
 	return cfg, nil
 }
 
-func (p *Parser) initUniqueCharsets(languages []string) {
+func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	// Lock parser
 	p.Lock()
 	defer p.Unlock()
@@ -164,6 +164,8 @@ func (p *Parser) initUniqueCharsets(languages []string) {
 	if mustGenerate {
 		p.uniqueCharsets = language.GetUniqueCharsets(languages)
 	}
+
+	return p.uniqueCharsets
 }
 
 func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
-- 
2.43.0


From 9fdbbe73a1ba691d7e0201b359c8fd967442248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 05/77] fix: accept day, month and year as required parts

The check was inverted: it rejected the documented parts and accepted anything
else. The parts are validated ignoring case, so compare them the same way.
---
 config.go                              | 1 +
 internal/parser/common/strict-check.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index cb8a2c6..eaf4608 100644
--- a/config.go
+++ b/config.go
@@ -194,6 +194,7 @@ func (c Configuration) validate() error {
 	for _, part := range c.RequiredParts {
 		switch strings.ToLower(part) {
 		case "day", "month", "year":
+		default:
 			return fmt.Errorf("invalid component in required parts: %s", part)
 		}
 	}
diff --git a/internal/parser/common/strict-check.go b/internal/parser/common/strict-check.go
index 271ec2b..8d08b76 100644
--- a/internal/parser/common/strict-check.go
+++ b/internal/parser/common/strict-check.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
@@ -23,7 +24,7 @@ func CheckStrictParsing(cfg *setting.Configuration, missingParts strutil.Dict) e
 
 	// Check if there are any missing required parts
 	for _, requiredPart := range requiredParts {
-		if missingParts.Contain(requiredPart) {
+		if missingParts.Contain(strings.ToLower(requiredPart)) {
 			return fmt.Errorf("required part \"%s\" is missing", requiredPart)
 		}
 	}
-- 
2.43.0


From 37056ce7b788c3ce0724544d8d9d79e23730b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 06/77] fix: do not alter a day, month or year that is written
 in the string

An explicit day that does not exist in its month was silently replaced: '31
April 2015' gave April 30, '29 February 2015' gave 2016-02-29, and 'February
2015' gave 2016-02-29 on the 29th of a month. The fallback for unset tokens
also accepted any number as month, so '31/31/2015' gave 2017-07-31. Such a
string is rejected now, as in the original dateparser; only a February 29
without year is still moved to a leap year, and only a day that is filled in by
the parser is limited to the length of its month.
---
 internal/parser/absolute/root.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 8853c0f..dbefe52 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -1,6 +1,7 @@
 package absolute
 
 import (
+	"fmt"
 	"strings"
 	"time"
 
@@ -35,6 +36,16 @@ func getDateTimeParams(p *Parser) map[string]int {
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
 		month = int(p.Now.Month())
+
+		// If day is specified it must be checked using the month that preferred by user
+		if dayExist && p.Config != nil {
+			switch p.Config.PreferredMonthOfYear {
+			case setting.FirstMonth:
+				month = 1
+			case setting.LastMonth:
+				month = 12
+			}
+		}
 	}
 
 	year, yearExist := p.ComponentValues["year"]
@@ -53,14 +64,25 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
+	// Month that taken from unset tokens might be out of range
+	if M < 1 || M > 12 {
+		return time.Time{}, fmt.Errorf("month is out of range: %d", M)
+	}
+
+	_, tokenDayExist := p.ComponentTokens["day"]
+	_, tokenYearExist := p.ComponentTokens["year"]
+
+	// Fix leap year, only if it's not specified in the string
+	if tokenDayExist && !tokenYearExist && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
 		Y = p.getCorrectLeapYear(Y)
 	}
 
-	// Fix max day
+	// Fix max day, only if it's not specified in the string
 	lastDayOfMonth := dateutil.GetLastDayOfMonth(Y, M)
 	if D > lastDayOfMonth {
+		if tokenDayExist {
+			return time.Time{}, fmt.Errorf("day is out of range for month: %d", D)
+		}
 		D = lastDayOfMonth
 	}
 
-- 
2.43.0


From 4d7ea4b0ab1dca8931c32188d28ec5b79581df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 07/77] fix: keep month and year when a preferred period leads
 to February 29

A day that is filled in by the parser could become February 29 of a leap year
and then move 'February' to another leap year, or '02/00' to March 2100, when
the past or future period is not a leap year.
---
 internal/parser/absolute/parser.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 71a5708..c5409ba 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -508,7 +508,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		}
 
 		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			tYear = p.getCorrectLeapYear(tYear)
+			if tokenDayExist {
+				tYear = p.getCorrectLeapYear(tYear)
+			} else {
+				tDay = 28
+			}
 		}
 
 		t = time.Date(tYear, tMonth, tDay,
@@ -519,11 +523,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	if tokenYearExist && len(tokenYear.Text) == 2 {
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
-				t = t.AddDate(-100, 0, 0)
+				t = p.moveCentury(t, -100)
 			}
 		} else {
 			if dateSource == setting.Future {
-				t = t.AddDate(100, 0, 0)
+				t = p.moveCentury(t, 100)
 			}
 		}
 	}
@@ -548,6 +552,21 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	return t
 }
 
+// moveCentury moves `t` to another century. If it's February 29 and not exist in that century,
+// the day is limited to the last day of month, unless it's specified in the string.
+func (p *Parser) moveCentury(t time.Time, years int) time.Time {
+	moved := t.AddDate(years, 0, 0)
+	if moved.Day() == t.Day() {
+		return moved
+	}
+
+	if _, tokenDayExist := p.ComponentTokens["day"]; tokenDayExist {
+		return t
+	}
+
+	return t.AddDate(0, 0, -1).AddDate(years, 0, 0)
+}
+
 func (p *Parser) correctForDay(t time.Time) time.Time {
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenTimeExist := p.ComponentTokens["time"]
-- 
2.43.0


From 5092d84f7234ee560d62b5f563e35510a2c4076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 08/77] fix: do not move a string that only has time to another
 month

The day of a string such as '23:50' comes from the current time, moved one day
when a past or future time is preferred. Replacing its month afterwards turned
2015-02-28 23:50 into 2015-03-28 23:50 (current time March 1, past period), and
2015-01-31 into January 1 instead of February 1 (future period).
---
 internal/parser/absolute/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index c5409ba..09c0203 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -586,12 +586,13 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
-	// If only a weekday is provided (without year, month, or day), no adjustment is
+	// If only a weekday or time is provided (without year, month, or day), no adjustment is
 	// needed as well, because it's been handled previously by `correctForTimeFrame`
 	_, tokenDayExist := p.ComponentTokens["day"]
+	_, tokenTimeExist := p.ComponentTokens["time"]
 	_, tokenYearExist := p.ComponentTokens["year"]
 	_, tokenWeekdayExist := p.ComponentTokens["weekday"]
-	if tokenWeekdayExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
+	if (tokenWeekdayExist || tokenTimeExist) && !tokenYearExist && !tokenDayExist {
 		return t
 	}
 
-- 
2.43.0


From 4fbca0aa901748d6e68713072321e4c8d9b99d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 09/77] fix: use the offset of the default timezone at the
 parsed wall clock

The offset was read at the instant of the wall clock in UTC (or in the zone of
the current time), so in New York '2015-03-08 03:30', which is already EDT, was
returned as EST.
---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0dc6ace..3f22628 100644
--- a/parser.go
+++ b/parser.go
@@ -323,7 +323,10 @@ func (p *Parser) applyTimezone(iCfg *setting.Configuration, dt date.Date, tz tim
 	if !tz.IsZero() {
 		tzName, tzOffset = tz.Name, tz.Offset
 	} else {
-		tzName, tzOffset = dt.Time.In(iCfg.DefaultTimezone).Zone()
+		// Use the offset at the wall clock of the parsed date
+		tzName, tzOffset = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
+			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
+			iCfg.DefaultTimezone).Zone()
 	}
 
 	dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
-- 
2.43.0


From 9130800e1af075618a52afa6affbdee02120c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 10/77] fix: compare a time with the current time in the
 timezone of the string

The wall clock was taken in the zone of the current time before the offset was
subtracted, so with a current time outside UTC a preferred past or future time
was compared at the wrong instant, and one step of a day is not always enough
when the dates of the two zones differ.
---
 internal/parser/absolute/parser.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 09c0203..75293c5 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -533,18 +533,24 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		tzOffset := tz.Offset
-		if tz.IsZero() && p.Config.DefaultTimezone != nil {
-			_, tzOffset = t.In(p.Config.DefaultTimezone).Zone()
+		// Time in string is a wall clock in its own timezone
+		loc := t.Location()
+		if !tz.IsZero() {
+			loc = time.FixedZone(tz.Name, tz.Offset)
+		} else if p.Config != nil && p.Config.DefaultTimezone != nil {
+			loc = p.Config.DefaultTimezone
 		}
 
-		tmp := t.Add(-time.Duration(tzOffset) * time.Second)
+		fnInstant := func() time.Time {
+			return time.Date(t.Year(), t.Month(), t.Day(),
+				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
+		}
 
-		if dateSource == setting.Past && p.Now.Before(tmp) {
+		for dateSource == setting.Past && p.Now.Before(fnInstant()) {
 			t = t.AddDate(0, 0, -1)
 		}
 
-		if dateSource == setting.Future && p.Now.After(tmp) {
+		for dateSource == setting.Future && p.Now.After(fnInstant()) {
 			t = t.AddDate(0, 0, 1)
 		}
 	}
-- 
2.43.0


From 7af9d51a93f41740b41be589dc96dba127cb3af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 11/77] fix: do not lose a second to floating point error in
 relative date

'2.3 hours ago' subtracted 2 hours, 17 minutes and 59 seconds, because 0.3 * 60
is calculated from 2.3 - 2 = 0.29999999999999982.
---
 internal/parser/relative/parser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index 3432407..d64b2ed 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -24,6 +24,8 @@ var (
 	relativeUnits      = `decade|year|month|week|day|hour|minute|second`
 )
 
+const floatTolerance = 1e-9
+
 // Parse parses date string like "1 year, 2 months ago" and "3 hours, 50 minutes ago".
 func Parse(cfg *setting.Configuration, str string) date.Date {
 	// Prepare string
@@ -295,9 +297,15 @@ func splitFraction(fl float64) (intPart, fractionPart float64, hasFraction bool)
 		return 0, 0, false
 	}
 
+	// Ignore the floating point error, e.g. the fraction of 2.3 is 0.29999999999999982
 	value := math.Abs(fl)
-	floorValue := math.Floor(value)
-	return floorValue, value - floorValue, value != floorValue
+	floorValue := math.Floor(value + floatTolerance)
+	fraction := max(value-floorValue, 0)
+	if fraction < floatTolerance {
+		return floorValue, 0, false
+	}
+
+	return floorValue, fraction, true
 }
 
 func addMapValue(m map[string]float64, key string, value float64) {
-- 
2.43.0


From 731cae0c86588c35887e6c5c914ce39849395ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 12/77] fix: keep the specified day when filling date from a
 custom format

The year was filled after month and day, and month was replaced without looking
at the day, so 'Feb' (last day of month preferred) and 'Feb 29' gave March 1 in
a common year and '31' gave March 3 in February.
---
 internal/parser/formatted/parser.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index d436d07..2c8856d 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -48,23 +48,28 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		formatHasDay := strings.Contains(checkerText, "4")
 		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
 
-		if !formatHasMonth && !formatHasDay {
-			period = date.Year
-			t = common.ApplyMonthFromConfig(cfg, t)
-			t = common.ApplyDayFromConfig(cfg, t)
-		} else if !formatHasMonth {
+		// Check if format has year. Must be done before month and day, so those
+		// are derived from the correct year.
+		parsedDay := t.Day()
+		if t.Year() == 0 {
+			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
+				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+				t.Location())
+		}
+
+		if !formatHasMonth {
 			period = date.Year
 			t = common.ApplyMonthFromConfig(cfg, t)
 		} else if !formatHasDay {
 			period = date.Month
-			t = common.ApplyDayFromConfig(cfg, t)
 		}
 
-		// Check if format has year
-		if t.Year() == 0 {
-			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
-				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-				t.Location())
+		if !formatHasDay {
+			t = common.ApplyDayFromConfig(cfg, t)
+		} else if t.Day() != parsedDay {
+			// The specified day is not exist in that year and month
+			period = date.Day
+			continue
 		}
 
 		return date.Date{Time: t, Period: period}
-- 
2.43.0


From 8e569b67e69bbee8224233130036b454e0554904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 13/77] fix: use the specified date order when searching dates

Search and SearchWithLanguage dropped Configuration.DateOrder, so with DMY the
text 'on 02/03/2016' was still found as February 3.
---
 config.go | 6 ++++++
 search.go | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/config.go b/config.go
index eaf4608..677acb8 100644
--- a/config.go
+++ b/config.go
@@ -234,7 +234,13 @@ func (c Configuration) toInternalConfig() *setting.Configuration {
 }
 
 func configFromInternal(c *setting.Configuration) *Configuration {
+	var dateOrder DateOrder
+	if c.DateOrder != "" {
+		dateOrder = func(_ string) string { return c.DateOrder }
+	}
+
 	return &Configuration{
+		DateOrder:            dateOrder,
 		CurrentTime:          c.CurrentTime,
 		DefaultTimezone:      c.DefaultTimezone,
 		PreferredDayOfMonth:  PreferredDayOfMonth(c.PreferredDayOfMonth),
diff --git a/search.go b/search.go
index a8eb08d..2e9cc1b 100644
--- a/search.go
+++ b/search.go
@@ -88,6 +88,13 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 	}
 	iCfg := cfg.toInternalConfig()
 
+	// Use the date order that specified for this language
+	if cfg.DateOrder != nil {
+		if do, valid := validateDateOrder(cfg.DateOrder(lang)); valid {
+			iCfg.DateOrder = do
+		}
+	}
+
 	// Find the locale data
 	ld, exist := data.GetLocaleData(lang)
 	if ld == nil || !exist {
-- 
2.43.0


From 0aab01d7daa3796e303df684b6fb3377d688d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 14/77] fix: use the current Jalali date to fill the missing
 parts of Jalali date

---
 internal/parser/jalali/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 45e9bf7..e9d26d4 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -61,22 +61,22 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
 	// Get current time in Jalali
-	jd := jalaali.From(p.Now)
+	nowYear, nowMonth, nowDay, _ := jalaali.ToJalaali(p.Now.Year(), p.Now.Month(), p.Now.Day())
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
 	if !dayExist || day == 0 {
-		day = jd.Day()
+		day = nowDay
 	}
 
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
-		month = int(jd.Month())
+		month = int(nowMonth)
 	}
 
 	year, yearExist := p.ComponentValues["year"]
 	if !yearExist || year == 0 {
-		year = jd.Year()
+		year = nowYear
 	}
 
 	return map[string]int{
-- 
2.43.0


From 17ff3cf868348f3aecd0b464c89cde0e115d51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 15/77] fix: accept the 31st day of Jalali month

---
 internal/parser/jalali/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index e9d26d4..84eb9ba 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -121,7 +121,7 @@ func getDatePartValue(p *absolute.Parser, component, token, directive string) (i
 
 	if component == "day" && tokenLength <= 2 && tokenIsDigit {
 		day, _ := strconv.Atoi(token)
-		if day >= 1 && day <= 30 {
+		if day >= 1 && day <= 31 {
 			return day, true
 		}
 	}
-- 
2.43.0


From c526af367c0e1a72bfa3f592b2f82a791c3e753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 16/77] fix: do not alter a Jalali year that is written in the
 string

---
 internal/parser/jalali/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 84eb9ba..b600fbd 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -133,13 +133,14 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
+	// Fix leap year, only if it's not specified in the string
+	_, tokenYearExist := p.ComponentTokens["year"]
 	isLeapYear, err := jalaali.IsLeapYear(Y)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	if D == 30 && M == 12 && !isLeapYear {
+	if D == 30 && M == 12 && !isLeapYear && !tokenYearExist {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
-- 
2.43.0


From 6e1fb18d16cf8f5742b81b955c09e7f28a1f7f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 17/77] fix: use the real length of month in Umm al-Qura
 calendar

---
 internal/parser/hijri/parser.go | 39 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index e2e0e6b..37e8cbf 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -1,6 +1,7 @@
 package hijri
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 	"time"
@@ -130,8 +131,14 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
+	// Make sure the month is inside the scope of Umm al-Qura calendar
+	if !isInScope(Y, M) {
+		return time.Time{}, fmt.Errorf("date is outside Umm al-Qura scope: %d-%d", Y, M)
+	}
+
+	// Fix leap year, only if it's not specified in the string
+	_, tokenYearExist := p.ComponentTokens["year"]
+	if D == 30 && M == 12 && !tokenYearExist && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
 	}
 
@@ -156,11 +163,13 @@ func isDigit(s string) bool {
 	return true
 }
 
+// isInScope checks if the month exist in Umm al-Qura calendar, which known for year 1356 until 1500.
+func isInScope(year, month int) bool {
+	return year >= 1356 && year <= 1500 && month >= 1 && month <= 12
+}
+
 func isHijriLeapYear(year int) bool {
-	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: 12, Day: 30}
-	gd := hd.ToGregorian()
-	rhd, _ := hijri.CreateUmmAlQuraDate(gd)
-	return rhd.Day == 30
+	return getLastDayOfHijriMonth(year, 12) == 30
 }
 
 func getHijriLeapYear(year int, toFuture bool) int {
@@ -169,9 +178,13 @@ func getHijriLeapYear(year int, toFuture bool) int {
 		step = -1
 	}
 
+	originalYear := year
+
 	for {
 		year += step
-		if isHijriLeapYear(year) {
+		if !isInScope(year, 12) {
+			return originalYear
+		} else if isHijriLeapYear(year) {
 			return year
 		}
 	}
@@ -200,15 +213,15 @@ func getCorrectHijriLeapYear(cfg *setting.Configuration, currentYear int) int {
 	}
 }
 
+// getLastDayOfHijriMonth returns the length of month. Umm al-Qura is an astronomical calendar,
+// so the length of month is different in each year.
 func getLastDayOfHijriMonth(year, month int) int {
-	switch {
-	case month == 12 && isHijriLeapYear(year):
-		return 30
-	case month%2 == 0:
-		return 29
-	default:
+	gd := hijri.UmmAlQuraDate{Year: int64(year), Month: int64(month), Day: 30}.ToGregorian()
+	hd, err := hijri.CreateUmmAlQuraDate(gd)
+	if err != nil || hd.Day == 30 {
 		return 30
 	}
+	return 30 - int(hd.Day)
 }
 
 func handleTwoDigitYear(year int) int {
-- 
2.43.0


From 828a77da33bb754b9f3d7871d8874020ff66829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 18/77] fix: only try the previous locales that allowed by the
 config

---
 parser.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/parser.go b/parser.go
index 3f22628..fcf7833 100644
--- a/parser.go
+++ b/parser.go
@@ -225,15 +225,6 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 		dateStrings = append(dateStrings, poppedTz)
 	}
 
-	// Fetch previously used locales first
-	if cfg.TryPreviousLocales {
-		ld := p.checkPreviousLocales(iCfg, dateStrings)
-		if ld != nil {
-			results = append(results, ld)
-			resultTracker.Add(ld.Name)
-		}
-	}
-
 	// If specified, use external detector to fetch languages
 	languages := slices.Clone(cfg.Languages)
 	if p.DetectLanguagesFunction != nil && len(cfg.Locales) == 0 && len(languages) == 0 {
@@ -247,6 +238,22 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 		return nil, err
 	}
 
+	// Load locales of default languages
+	var defaultLocales []*data.LocaleData
+	if len(iCfg.DefaultLanguages) > 0 {
+		defaultLocales, _ = language.GetLocales(nil, cfg.DefaultLanguages, cfg.Region, cfg.UseGivenOrder, false)
+	}
+
+	// Fetch previously used locales first, as long as it's allowed by this config
+	if cfg.TryPreviousLocales {
+		allowedLocales := slices.Concat(locales, defaultLocales)
+		ld := p.checkPreviousLocales(iCfg, dateStrings, allowedLocales)
+		if ld != nil {
+			results = append(results, ld)
+			resultTracker.Add(ld.Name)
+		}
+	}
+
 	for _, locale := range locales {
 		if resultTracker.Contain(locale.Name) {
 			continue
@@ -268,20 +275,21 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 	}
 
 	// Finally, append locales of default languages
-	if len(iCfg.DefaultLanguages) > 0 {
-		locales, _ := language.GetLocales(nil, cfg.DefaultLanguages, cfg.Region, cfg.UseGivenOrder, false)
-		for _, locale := range locales {
-			if !resultTracker.Contain(locale.Name) {
-				results = append(results, locale)
-			}
+	for _, locale := range defaultLocales {
+		if !resultTracker.Contain(locale.Name) {
+			results = append(results, locale)
 		}
 	}
 
 	return results, nil
 }
 
-func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, dateStrings []string) *data.LocaleData {
+func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, dateStrings []string, allowedLocales []*data.LocaleData) *data.LocaleData {
 	for _, usedLocale := range p.usedLocales {
+		if !slices.Contains(allowedLocales, usedLocale) {
+			continue
+		}
+
 		for _, ds := range dateStrings {
 			if p.localeIsApplicable(iCfg, usedLocale, ds) {
 				return usedLocale
-- 
2.43.0


From e4023841bb265d28739ad12bf90868dcf02a4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 19/77] fix: parse the found dates in the language of the
 search

---
 search.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 2e9cc1b..efd785a 100644
--- a/search.go
+++ b/search.go
@@ -194,7 +194,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 			continue
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, entry, translation[i], parsedList, needRelativeBase)
+		parsedEntry, isRelative := p.parseEntry(iCfg, languages, entry, translation[i], parsedList, needRelativeBase)
 		if !parsedEntry.IsZero() {
 			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
 			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
@@ -218,7 +218,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 						continue
 					}
 
-					parsedJEntry, jIsRelative := p.parseEntry(iCfg, jEntry,
+					parsedJEntry, jIsRelative := p.parseEntry(iCfg, languages, jEntry,
 						split.EntryParts[j], currentParseResult, needRelativeBase)
 
 					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
@@ -244,13 +244,14 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 	return parsedList, subStrings
 }
 
-func (p *Parser) parseEntry(iCfg *setting.Configuration, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
+func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = strings.ReplaceAll(entry, "am", "")
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
+	cfg.Languages = languages
 	parsedEntry, _ := p.Parse(cfg, entry)
 
 	// If needed, generate relative base and parse the entry
-- 
2.43.0


From e7da6f818bd54ea62bb9744cfa6b56269cf63ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 20/77] fix: use the date order of language when searching
 dates

---
 search.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/search.go b/search.go
index efd785a..d2d97d6 100644
--- a/search.go
+++ b/search.go
@@ -88,19 +88,20 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 	}
 	iCfg := cfg.toInternalConfig()
 
+	// Find the locale data
+	ld, exist := data.GetLocaleData(lang)
+	if ld == nil || !exist {
+		return nil, fmt.Errorf("unknown language: %s", lang)
+	}
+
 	// Use the date order that specified for this language
+	iCfg.DateOrder = ld.DateOrder
 	if cfg.DateOrder != nil {
 		if do, valid := validateDateOrder(cfg.DateOrder(lang)); valid {
 			iCfg.DateOrder = do
 		}
 	}
 
-	// Find the locale data
-	ld, exist := data.GetLocaleData(lang)
-	if ld == nil || !exist {
-		return nil, fmt.Errorf("unknown language: %s", lang)
-	}
-
 	// Translate the text
 	translation, original := language.TranslateSearch(iCfg, ld, text)
 
-- 
2.43.0


From dc7368330058a5c0bcbee2dd72aa79a327118064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 21/77] fix: compare every incomplete date with the current
 time in its timezone and day

---
 internal/parser/absolute/parser.go | 77 +++++++++++++++++-------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 75293c5..bb13558 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -458,6 +458,19 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		dateSource = p.Config.PreferredDateSource
 	}
 
+	// Date in string is a wall clock in its own timezone
+	loc := t.Location()
+	if !tz.IsZero() {
+		loc = time.FixedZone(tz.Name, tz.Offset)
+	} else if p.Config != nil && p.Config.DefaultTimezone != nil {
+		loc = p.Config.DefaultTimezone
+	}
+
+	fnInstant := func(t time.Time) time.Time {
+		return time.Date(t.Year(), t.Month(), t.Day(),
+			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
+	}
+
 	if tokenWeekdayExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
 		dayIndex := int(t.Weekday())
 		day := strings.ToLower(tokenWeekday.Text[:3])
@@ -492,36 +505,45 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		}
 
 		t = t.AddDate(0, 0, steps)
+
+		for dateSource == setting.Past && p.Now.Before(fnInstant(t)) {
+			t = t.AddDate(0, 0, -7)
+		}
+
+		for dateSource == setting.Future && p.Now.After(fnInstant(t)) {
+			t = t.AddDate(0, 0, 7)
+		}
 	}
 
 	if monthExist && !yearExist {
-		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
-
-		if p.Now.Before(t) {
-			if dateSource == setting.Past {
-				tYear--
-			}
-		} else {
-			if dateSource == setting.Future {
-				tYear++
+		fnWithYear := func(tYear int) time.Time {
+			tDay := t.Day()
+			if tDay == 29 && t.Month() == 2 && !dateutil.IsLeapYear(tYear) {
+				if tokenDayExist {
+					tYear = p.getCorrectLeapYear(tYear)
+				} else {
+					tDay = 28
+				}
 			}
+
+			return p.correctForDay(time.Date(tYear, t.Month(), tDay,
+				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+				t.Location()))
 		}
 
-		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			if tokenDayExist {
-				tYear = p.getCorrectLeapYear(tYear)
-			} else {
-				tDay = 28
-			}
+		t = fnWithYear(t.Year())
+
+		for dateSource == setting.Past && p.Now.Before(fnInstant(t)) {
+			t = fnWithYear(t.Year() - 1)
 		}
 
-		t = time.Date(tYear, tMonth, tDay,
-			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-			t.Location())
+		for dateSource == setting.Future && !p.Now.Before(fnInstant(t)) {
+			t = fnWithYear(t.Year() + 1)
+		}
 	}
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
-		if p.Now.Before(t) {
+		if p.Now.Before(fnInstant(t)) {
 			if dateSource == setting.Past {
 				t = p.moveCentury(t, -100)
 			}
@@ -533,24 +555,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		// Time in string is a wall clock in its own timezone
-		loc := t.Location()
-		if !tz.IsZero() {
-			loc = time.FixedZone(tz.Name, tz.Offset)
-		} else if p.Config != nil && p.Config.DefaultTimezone != nil {
-			loc = p.Config.DefaultTimezone
-		}
-
-		fnInstant := func() time.Time {
-			return time.Date(t.Year(), t.Month(), t.Day(),
-				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
-		}
-
-		for dateSource == setting.Past && p.Now.Before(fnInstant()) {
+		for dateSource == setting.Past && p.Now.Before(fnInstant(t)) {
 			t = t.AddDate(0, 0, -1)
 		}
 
-		for dateSource == setting.Future && p.Now.After(fnInstant()) {
+		for dateSource == setting.Future && p.Now.After(fnInstant(t)) {
 			t = t.AddDate(0, 0, 1)
 		}
 	}
-- 
2.43.0


From d3ef76b8afaf9f01c30a8a3f51aa60557a0c13b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 22/77] fix: do not cut a character that precedes the timezone

---
 internal/timezone/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 7893109..2f37d5e 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -1,5 +1,7 @@
 package timezone
 
+import "unicode/utf8"
+
 // PopTzOffset extracts timezone data from str then return the
 // str with the timezone code removed.
 func PopTzOffset(str string) (string, OffsetData) {
@@ -10,7 +12,9 @@ func PopTzOffset(str string) (string, OffsetData) {
 				continue
 			}
 
-			str = str[:idxs[0]+1] + str[idxs[1]:]
+			// Keep the whole character that precedes the timezone
+			_, width := utf8.DecodeRuneInString(str[idxs[0]:])
+			str = str[:idxs[0]+width] + str[idxs[1]:]
 			return str, offsetData
 		}
 	}
-- 
2.43.0


From 1d768c8c5e0e857059a513d434bd8dfcc9b5c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 23/77] fix: keep month and day of a format that has day of the
 year

---
 internal/parser/formatted/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 2c8856d..cdfcb8d 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -1,7 +1,6 @@
 package formatted
 
 import (
-	"strings"
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
@@ -35,6 +34,8 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 
 	// Try each format
 	checker := time.Date(12, 3, 4, 5, 6, 7, 8, time.UTC)
+	checkerDay := checker.AddDate(0, 0, 7)   // differs only in day, weekday is the same
+	checkerMonth := checker.AddDate(0, 8, 0) // differs only in month, weekday is the same
 
 	for _, format := range formats {
 		// Parse time
@@ -45,8 +46,8 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 
 		// Check if format has day or month
 		checkerText := checker.Format(format)
-		formatHasDay := strings.Contains(checkerText, "4")
-		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
+		formatHasDay := checkerText != checkerDay.Format(format)
+		formatHasMonth := checkerText != checkerMonth.Format(format)
 
 		// Check if format has year. Must be done before month and day, so those
 		// are derived from the correct year.
-- 
2.43.0


From 2f4ea5bdd579942ccf2a2b634d97335819537927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 24/77] fix: do not report a missing year in date without
 spaces

---
 internal/parser/nospace/parser.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index ac023d2..9ae602d 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -71,15 +71,19 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 					continue
 				}
 
-				missingParts := strutil.NewDict()
-				for key, part := range formatMapping {
-					if !strings.Contains(format, key) {
-						missingParts.Add(part)
+				// Short digits might as well be an incomplete date or a time (e.g. "2015"
+				// or "10:11"), so here it's only complete if the year is fully written.
+				missingParts := strutil.NewDict("day", "month", "year")
+				if strings.Contains(format, "Y") && len(token.Text) >= 8 {
+					for key, part := range formatMapping {
+						if strings.Contains(format, key) {
+							missingParts.Remove(part)
+						}
 					}
 				}
 
 				if err := common.CheckStrictParsing(cfg, missingParts); err != nil {
-					continue
+					return date.Date{}, err
 				}
 
 				return dt, nil
-- 
2.43.0


From d7ae889c6c8211d7b171ef1f3221037bd249eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 25/77] fix: check the required parts in custom format

---
 internal/parser/formatted/parser.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index cdfcb8d..7d14090 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -6,6 +6,7 @@ import (
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
+	"github.com/markusmobius/go-dateparser/internal/strutil"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
 
@@ -52,7 +53,8 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		// Check if format has year. Must be done before month and day, so those
 		// are derived from the correct year.
 		parsedDay := t.Day()
-		if t.Year() == 0 {
+		formatHasYear := t.Year() != 0
+		if !formatHasYear {
 			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
 				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 				t.Location())
@@ -73,6 +75,23 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			continue
 		}
 
+		// Check if the format has the parts that required by the config
+		missingParts := strutil.NewDict()
+		if !formatHasDay {
+			missingParts.Add("day")
+		}
+		if !formatHasMonth {
+			missingParts.Add("month")
+		}
+		if !formatHasYear {
+			missingParts.Add("year")
+		}
+
+		if err := common.CheckStrictParsing(cfg, missingParts); err != nil {
+			period = date.Day
+			continue
+		}
+
 		return date.Date{Time: t, Period: period}
 	}
 
-- 
2.43.0


From f3c07698d9b936c1f9da10a96f1f37ac3c73f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 26/77] fix: treat a non-breaking space as a space

---
 internal/strutil/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 4573875..2d2427d 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -57,7 +57,7 @@ var (
 // SanitizeSpaces replaces non-breaking spaces into a normal one,
 // then remove any excess whitespaces.
 func SanitizeSpaces(s string) string {
-	s = strings.ReplaceAll(s, "\u00A0", "")
+	s = strings.ReplaceAll(s, "\u00A0", " ")
 	s = strings.Join(strings.Fields(s), " ")
 	return s
 }
-- 
2.43.0


From 81f499d2e730ab53b357b81098df7d120dc47073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 27/77] fix: use a leftover number for one component of date
 only

---
 internal/parser/absolute/parser.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index bb13558..3b18022 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -247,16 +247,23 @@ func (p *Parser) Init(str string) error {
 		}
 	}
 
-	// Use fallback for unknown component
-	for _, component := range []string{"day", "month", "year"} {
-		if _, exist := p.ComponentValues[component]; !exist {
-			for _, ut := range p.UnsetTokens {
-				if ut.Type == tokenizer.Digit {
-					newValue, _ := strconv.Atoi(ut.Text)
-					p.ComponentTokens[component] = ut
-					p.ComponentValues[component] = newValue
-				}
+	// Use fallback for unknown component. Each token is only used once, for
+	// the first unknown component in date order that can hold its value.
+	for _, ut := range p.UnsetTokens {
+		if ut.Type != tokenizer.Digit {
+			continue
+		}
+
+		newValue, _ := strconv.Atoi(ut.Text)
+		for _, component := range p.Components {
+			_, exist := p.ComponentValues[component]
+			if exist || (component == "month" && newValue > 12) {
+				continue
 			}
+
+			p.ComponentTokens[component] = ut
+			p.ComponentValues[component] = newValue
+			break
 		}
 	}
 
-- 
2.43.0


From 025dce0b7d5d339a05b76e6b266c17e51b76717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 28/77] fix: read "from now" as a future direction

---
 data-supplementary/date-translation/en.yaml | 2 +-
 internal/data/en.go                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-supplementary/date-translation/en.yaml b/data-supplementary/date-translation/en.yaml
index 19d1931..140a716 100644
--- a/data-supplementary/date-translation/en.yaml
+++ b/data-supplementary/date-translation/en.yaml
@@ -84,7 +84,7 @@ simplifications:
   - (?:12\s+)?noon: '12:00'
   - (?:12\s+)?midnight: '00:00'
   - (\d+[.,]?\d*)h(\d+[.,]?\d*): \1:\2
-  - (from\s+)now: \1in
+  - from\s+now: in
   - less than 1 minute ago: 45 second ago
   - (\d+[.,]?\d*) (decade|year|month|week|day|hour|minute|second)s? later: in \1 \2
   - one: '1'
diff --git a/internal/data/en.go b/internal/data/en.go
index 614e7c1..a6b5d58 100755
--- a/internal/data/en.go
+++ b/internal/data/en.go
@@ -123,7 +123,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(?:12\s+)?noon(\z|[^\pL\pM\d_])`), "${1}12:00${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(?:12\s+)?midnight(\z|[^\pL\pM\d_])`), "${1}00:00${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)h(\d+[.,]?\d*)(\z|[^\pL\pM\d_])`), "${1}${2}:${3}${4}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(from\s+)now(\z|[^\pL\pM\d_])`), "${1}${2}in${3}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(from\s+)now(\z|[^\pL\pM\d_])`), "${1}in${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])less than 1 minute ago(\z|[^\pL\pM\d_])`), "${1}45 second ago${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*) (decade|year|month|week|day|hour|minute|second)s? later(\z|[^\pL\pM\d_])`), "${1}in ${2} ${3}${4}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])one(\z|[^\pL\pM\d_])`), "${1}1${2}"},
-- 
2.43.0


From 9101c3eebae5b747188469622a5fc1f0b3718dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 29/77] fix: do not accumulate floating point error in relative
 date

---
 internal/parser/relative/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index d64b2ed..ce9deb9 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -300,8 +300,8 @@ func splitFraction(fl float64) (intPart, fractionPart float64, hasFraction bool)
 	// Ignore the floating point error, e.g. the fraction of 2.3 is 0.29999999999999982
 	value := math.Abs(fl)
 	floorValue := math.Floor(value + floatTolerance)
-	fraction := max(value-floorValue, 0)
-	if fraction < floatTolerance {
+	fraction := math.Round((value-floorValue)/floatTolerance) * floatTolerance
+	if fraction < floatTolerance/2 {
 		return floorValue, 0, false
 	}
 
-- 
2.43.0


From 56680cb0282276488723c5202663276899d8e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 30/77] fix: keep the instant when a relative date moves no day

---
 internal/parser/relative/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index ce9deb9..6e35b53 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -127,6 +127,11 @@ func parseDate(cfg *setting.Configuration, str string, now time.Time) (time.Time
 }
 
 func addDate(cfg *setting.Configuration, date time.Time, years, months, days int) time.Time {
+	// Keep the instant, its wall clock might happen twice when the clocks are turned back
+	if years == 0 && months == 0 && days == 0 {
+		return date
+	}
+
 	if !cfg.PreserveEndOfMonth {
 		return date.AddDate(years, months, days)
 	}
-- 
2.43.0


From 7b11518b7915f741e2758241a2eb437210664036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 31/77] fix: keep the future direction of decades

---
 internal/language/00-constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 468051d..b97a5cc 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -50,7 +50,7 @@ var (
 
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
-	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "hour", "minute", "second")
+	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "decade", "hour", "minute", "second")
 	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
-- 
2.43.0


From e47abf552eddff92a0b3d7707cc594e6d2944929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 32/77] fix: read "this decade" as the current decade

---
 data-supplementary/date-translation/en.yaml | 1 +
 internal/data/en.go                         | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/data-supplementary/date-translation/en.yaml b/data-supplementary/date-translation/en.yaml
index 140a716..a3f3abf 100644
--- a/data-supplementary/date-translation/en.yaml
+++ b/data-supplementary/date-translation/en.yaml
@@ -64,6 +64,7 @@ relative-type:
     - day before yesterday
   1 decade ago:
     - last decade
+  0 decade ago:
     - this decade
   in 1 decade:
     - next decade
diff --git a/internal/data/en.go b/internal/data/en.go
index a6b5d58..409542e 100755
--- a/internal/data/en.go
+++ b/internal/data/en.go
@@ -251,7 +251,7 @@ func init() {
 			"day after tomorrow":   "in 2 day",
 			"last decade":          "1 decade ago",
 			"next decade":          "in 1 decade",
-			"this decade":          "1 decade ago",
+			"this decade":          "0 decade ago",
 			"this minute":          "0 minute ago",
 			"last month":           "1 month ago",
 			"next month":           "in 1 month",
-- 
2.43.0


From 25d551213bbb9d4e5d8f4b454cd3b4c08dd2f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 33/77] fix: read a number that can only be the day as the day

---
 internal/parser/absolute/parser.go | 41 ++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 3b18022..4e5e219 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -255,16 +255,30 @@ func (p *Parser) Init(str string) error {
 		}
 
 		newValue, _ := strconv.Atoi(ut.Text)
+		var isUsed, isMissing bool
 		for _, component := range p.Components {
-			_, exist := p.ComponentValues[component]
-			if exist || (component == "month" && newValue > 12) {
+			if _, exist := p.ComponentValues[component]; exist {
+				continue
+			}
+
+			isMissing = true
+			if component == "month" && newValue > 12 {
 				continue
 			}
 
 			p.ComponentTokens[component] = ut
 			p.ComponentValues[component] = newValue
+			isUsed = true
 			break
 		}
+
+		// If the number can't be the missing month, it must be the day. If not,
+		// then this is not a date.
+		if isMissing && !isUsed {
+			if _, moved := p.moveDayToMonth(ut); !moved {
+				return fmt.Errorf("unable to parse %s", ut.Text)
+			}
+		}
 	}
 
 	return nil
@@ -396,9 +410,32 @@ func (p *Parser) parseDigitToken(tokenText string, skippedComponent string) ([]T
 		}
 	}
 
+	if results, moved := p.moveDayToMonth(token); moved {
+		return results, nil
+	}
+
 	return nil, fmt.Errorf("unable to parse %s", tokenText)
 }
 
+// moveDayToMonth uses the specified token as day, and the number that was used as day as
+// the missing month. Used for number that can't be anything but a day.
+func (p *Parser) moveDayToMonth(token tokenizer.Token) ([]TokenParseResult, bool) {
+	dayToken := p.ComponentTokens["day"]
+	_, monthExist := p.ComponentValues["month"]
+	month, monthFound := p.FnGetDatePartValue(p, "month", dayToken.Text, "1")
+	day, dayFound := p.FnGetDatePartValue(p, "day", token.Text, "2")
+	if monthExist || !monthFound || !dayFound || dayToken.Type != tokenizer.Digit {
+		return nil, false
+	}
+
+	p.ComponentTokens["month"], p.ComponentValues["month"] = dayToken, month
+	p.ComponentTokens["day"], p.ComponentValues["day"] = token, day
+	return []TokenParseResult{
+		{Component: "month", Value: month},
+		{Component: "day", Value: day},
+	}, true
+}
+
 func (p *Parser) parseLetterToken(tokenText string, skippedComponent string) ([]TokenParseResult, error) {
 	// Prepare token data for return later
 	token := tokenizer.Token{
-- 
2.43.0


From a8957c0a94e1ae4ea28cf472dbf3fc6661ac9083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 34/77] fix: use the date order of locale without its
 punctuation

---
 parser.go | 19 ++++++++++++++++++-
 search.go |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index fcf7833..1913acd 100644
--- a/parser.go
+++ b/parser.go
@@ -121,7 +121,7 @@ func (p *Parser) Parse(cfg *Configuration, str string, formats ...string) (date.
 	// Process each locale
 	for _, locale := range locales {
 		// Create date order for this locale
-		dateOrder := locale.DateOrder
+		dateOrder := localeDateOrder(locale)
 		if cfg.DateOrder != nil {
 			do := cfg.DateOrder(locale.Name)
 			if do, valid := validateDateOrder(do); valid {
@@ -344,6 +344,23 @@ func (p *Parser) applyTimezone(iCfg *setting.Configuration, dt date.Date, tz tim
 	return dt
 }
 
+// localeDateOrder returns the date order of locale without its punctuation, e.g. "DMY." for
+// Croatian. If locale doesn't have any, it will use MDY.
+func localeDateOrder(ld *data.LocaleData) string {
+	var sb strings.Builder
+	for _, r := range ld.DateOrder {
+		if strings.ContainsRune("DMY", r) {
+			sb.WriteRune(r)
+		}
+	}
+
+	if do, valid := validateDateOrder(sb.String()); valid {
+		return do
+	}
+
+	return "MDY"
+}
+
 func validateDateOrder(do string) (string, bool) {
 	if len(do) != 3 {
 		return do, false
diff --git a/search.go b/search.go
index d2d97d6..ab36628 100644
--- a/search.go
+++ b/search.go
@@ -95,7 +95,7 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 	}
 
 	// Use the date order that specified for this language
-	iCfg.DateOrder = ld.DateOrder
+	iCfg.DateOrder = localeDateOrder(ld)
 	if cfg.DateOrder != nil {
 		if do, valid := validateDateOrder(cfg.DateOrder(lang)); valid {
 			iCfg.DateOrder = do
-- 
2.43.0


From 7be02a73a71ee57ec6da0a1c22ab77d8007c9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 35/77] fix: do not use a leftover zero as day or month

---
 internal/parser/absolute/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 4e5e219..968ccf2 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -262,7 +262,7 @@ func (p *Parser) Init(str string) error {
 			}
 
 			isMissing = true
-			if component == "month" && newValue > 12 {
+			if component == "month" && newValue > 12 || component != "year" && newValue == 0 {
 				continue
 			}
 
-- 
2.43.0


From 967383173cb70aadec4a310bf0363af876f9ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 36/77] fix: refuse a search with an invalid parser type

---
 search.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/search.go b/search.go
index ab36628..6bdc958 100644
--- a/search.go
+++ b/search.go
@@ -141,6 +141,16 @@ func (p *Parser) initSearchConfig(cfg *Configuration) (*Configuration, error) {
 		return nil, err
 	}
 
+	// Validate parsers
+	p.Lock()
+	defer p.Unlock()
+
+	for _, parser := range p.ParserTypes {
+		if parser > NoSpacesTime {
+			return nil, fmt.Errorf("invalid parser type: %d", parser)
+		}
+	}
+
 	if !cfgHasCurrentTime {
 		cfg.CurrentTime = time.Time{}
 	}
-- 
2.43.0


From 7ce857006b119f8d04dc688e9bc25f0025adf968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 37/77] fix: limit the combinations of ambiguous words

---
 internal/language/utils.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/language/utils.go b/internal/language/utils.go
index c496b97..78d285f 100644
--- a/internal/language/utils.go
+++ b/internal/language/utils.go
@@ -60,11 +60,20 @@ func isInDictionary(ld *data.LocaleData, word string) bool {
 	return exist
 }
 
+// maxPermutations is the limit for the count of permutations, which grows exponentially
+// with the count of ambiguous words. It's far above what needed by a real date.
+const maxPermutations = 64
+
 func createPermutation[T comparable](input [][]T) [][]T {
-	// Calculate count of possible permutation
+	// Calculate count of possible permutation. Once there are too many of them,
+	// only use the first entry of the remaining inputs.
+	input = slices.Clone(input)
 	nPermutation := 1
-	for _, entries := range input {
-		nPermutation *= len(entries)
+	for i, entries := range input {
+		if nPermutation*len(entries) > maxPermutations {
+			input[i] = entries[:1]
+		}
+		nPermutation *= len(input[i])
 	}
 
 	// Create result container
-- 
2.43.0


From 6627a8cb4a497a437c0495c4abd947f0b7c1ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 38/77] fix: split sentences at opening punctuation without
 crashing

---
 internal/language/split.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/language/split.go b/internal/language/split.go
index 01e9238..ceb6e29 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -65,6 +65,11 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	var lastPosition int
 	useDigitAbbrs := langWithDigitAbbrs.Contain(ld.Name)
 	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(str, -1) {
+		// If splitter only made of opening punctuations, there are no word before it
+		if pos[2] < 0 {
+			pos[2], pos[3] = pos[0], pos[0]
+		}
+
 		// Fetch end of sentence from this match
 		eos := str[pos[2]:pos[3]]
 
-- 
2.43.0


From ae628e82e6b1d0ac2eafbbc8283ad1c9d6e8dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:34 +0000
Subject: [PATCH 39/77] fix: translate words of a search that follow an opening
 punctuation

---
 internal/language/translate-search.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index c350806..943c11d 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -60,10 +60,14 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				translatedChunk = append(translatedChunk, translations)
 				originalChunk = append(originalChunk, originalTokens[i])
 			} else if isInDictionary(ld, cleanedWord) && !dashes.Contain(word) {
-				punct := word[len(cleanedWord):]
+				prefix, suffix, _ := strings.Cut(word, cleanedWord)
 				translations, _ := translateWord(ld, cleanedWord)
 				for i, translation := range translations {
-					translations[i] = translation + punct
+					// A skipped word that opens another phrase is not translated
+					if translation == "" && prefix != "" {
+						translation = cleanedWord
+					}
+					translations[i] = prefix + translation + suffix
 				}
 
 				translatedChunk = append(translatedChunk, translations)
-- 
2.43.0


From 04bade96549eef6b9277294a4d645a28461335a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:34 +0000
Subject: [PATCH 40/77] fix: keep the am of a clock when searching dates

---
 search.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index 6bdc958..8a8f1c0 100644
--- a/search.go
+++ b/search.go
@@ -13,6 +13,7 @@ import (
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/language"
+	"github.com/markusmobius/go-dateparser/internal/regexp"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
 )
@@ -20,6 +21,9 @@ import (
 var (
 	splitters     = []string{",", "،", "——", "—", "–", ".", " "}
 	relativeWords = []string{"ago", "in", "from now", "tomorrow", "today", "yesterday"}
+
+	// rxExceptClockAm is used to remove every "am", except the one that follows a clock.
+	rxExceptClockAm = regexp.MustCompile(`(:\d{2}\s*am)|am`)
 )
 
 type SearchResult struct {
@@ -258,7 +262,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
-	entry = strings.ReplaceAll(entry, "am", "")
+	entry = rxExceptClockAm.ReplaceAllString(entry, "$1")
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
-- 
2.43.0


From e7d44ad709b3c308ad75d8afad2165cad917d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:08 +0000
Subject: [PATCH 41/77] fix: do not report every reading of an ambiguous text
 in a search

---
 internal/language/translate-search.go | 48 ++++++++++++++++---------
 internal/language/utils.go            |  2 +-
 search.go                             | 50 ++++++++++++++-------------
 3 files changed, 58 insertions(+), 42 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 943c11d..0af0db4 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -12,13 +12,30 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
 
+// TranslateSearch extracts the parts of `str` that might be a date, then returns every possible
+// translation of them along with their original text.
 func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string) ([]string, []string) {
+	var translations, originals []string
+	chunks, chunkOriginals := TranslateSearchChunks(cfg, ld, str)
+	for i, chunk := range chunks {
+		for _, translation := range chunk {
+			translations = append(translations, translation)
+			originals = append(originals, chunkOriginals[i])
+		}
+	}
+
+	return translations, originals
+}
+
+// TranslateSearchChunks extracts the parts of `str` that might be a date, then returns a list of
+// possible translations for each part along with its original text.
+func TranslateSearchChunks(cfg *setting.Configuration, ld *data.LocaleData, str string) ([][]string, []string) {
 	// Parse config
 	skippedTokens := mapSkippedTokens(cfg, ld)
 
 	// Split string to sentences
 	var original [][]string
-	var translated [][]string
+	var translated [][][]string
 	sentences := SplitSentence(ld, str)
 	joinUnusable := ld.Name == "zh" || ld.Name == "ja"
 
@@ -79,35 +96,32 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
 			} else if len(translatedChunk) > 0 {
-				translatedChunkPermutations := createPermutation(translatedChunk)
-				for _, permutation := range translatedChunkPermutations {
-					translated = append(translated, permutation)
-					original = append(original, originalChunk)
-				}
-
+				translated = append(translated, createPermutation(translatedChunk))
+				original = append(original, originalChunk)
 				originalChunk, translatedChunk = []string{}, [][]string{}
 			}
 		}
 
 		if len(translatedChunk) > 0 {
-			translatedChunkPermutations := createPermutation(translatedChunk)
-			for _, permutation := range translatedChunkPermutations {
-				translated = append(translated, permutation)
-				original = append(original, originalChunk)
-			}
+			translated = append(translated, createPermutation(translatedChunk))
+			original = append(original, originalChunk)
 		}
 	}
 
 	// Merge translation
 	var mergedOriginal []string
-	var mergedTranslation []string
+	var mergedTranslation [][]string
 
-	for i := range translated {
+	for i, permutations := range translated {
 		originalChunk := filterChunk(original[i]...)
-		translatedChunk := filterChunk(clearFutureWords(translated[i])...)
-
 		mergedOriginal = append(mergedOriginal, joinChunk(ld, originalChunk...))
-		mergedTranslation = append(mergedTranslation, joinChunk(ld, translatedChunk...))
+
+		var translations []string
+		for _, permutation := range permutations {
+			translatedChunk := filterChunk(clearFutureWords(permutation)...)
+			translations = append(translations, joinChunk(ld, translatedChunk...))
+		}
+		mergedTranslation = append(mergedTranslation, translations)
 	}
 
 	return mergedTranslation, mergedOriginal
diff --git a/internal/language/utils.go b/internal/language/utils.go
index 78d285f..dcc5b1f 100644
--- a/internal/language/utils.go
+++ b/internal/language/utils.go
@@ -62,7 +62,7 @@ func isInDictionary(ld *data.LocaleData, word string) bool {
 
 // maxPermutations is the limit for the count of permutations, which grows exponentially
 // with the count of ambiguous words. It's far above what needed by a real date.
-const maxPermutations = 64
+const maxPermutations = 16
 
 func createPermutation[T comparable](input [][]T) [][]T {
 	// Calculate count of possible permutation. Once there are too many of them,
diff --git a/search.go b/search.go
index 8a8f1c0..5cdd276 100644
--- a/search.go
+++ b/search.go
@@ -8,8 +8,6 @@ import (
 	"unicode"
 	"unicode/utf8"
 
-	"slices"
-
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/language"
@@ -107,7 +105,7 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 	}
 
 	// Translate the text
-	translation, original := language.TranslateSearch(iCfg, ld, text)
+	translations, original := language.TranslateSearchChunks(iCfg, ld, text)
 
 	// Create languages for the temporary parser
 	var languages []string
@@ -118,7 +116,7 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 	}
 
 	// Parse the text
-	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, translation, original)
+	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, translations, original)
 
 	// Create final result
 	result := make([]SearchResult, len(parsedSearch))
@@ -190,34 +188,38 @@ func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	return p.uniqueCharsets
 }
 
-func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
-	// Specify entries to parse
-	var parserEntries []string
-	if languages[0] == "en" {
-		parserEntries = slices.Clone(translation)
-	} else {
-		parserEntries = slices.Clone(original)
-	}
-
-	// Parse each entries
+func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages []string, translations [][]string, original []string) ([]parsedSearch, []string) {
+	// Parse each chunk
 	var parsedList []parsedSearch
 	var subStrings []string
 	needRelativeBase := iCfg.CurrentTime.IsZero()
 
-	for i, entry := range parserEntries {
-		if utf8.RuneCountInString(entry) <= 2 {
-			continue
+	for i, entries := range translations {
+		// Specify entries to parse
+		if languages[0] != "en" {
+			entries = []string{original[i]}
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, languages, entry, translation[i], parsedList, needRelativeBase)
-		if !parsedEntry.IsZero() {
-			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
-			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
-			continue
+		// The first entry that can be parsed is the meaning of this chunk
+		var parsed bool
+		var possibleSplits []splitResult
+		for j, entry := range entries {
+			if utf8.RuneCountInString(entry) <= 2 {
+				continue
+			}
+
+			parsedEntry, isRelative := p.parseEntry(iCfg, languages, entry, translations[i][j], parsedList, needRelativeBase)
+			if !parsedEntry.IsZero() {
+				parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
+				subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
+				parsed = true
+				break
+			}
+
+			possibleSplits = append(possibleSplits, splitIfNotParsed(entry, original[i])...)
 		}
 
-		possibleSplits := splitIfNotParsed(entry, original[i])
-		if len(possibleSplits) == 0 {
+		if parsed || len(possibleSplits) == 0 {
 			continue
 		}
 
-- 
2.43.0


From af5d4bef13e3857b211e95fda7345ca1e3011c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 42/77] fix: sanitize spaces of a date before its punctuation

---
 internal/strutil/strutil.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 2d2427d..bc601c9 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -113,6 +113,7 @@ func NormalizeString(str string) string {
 // it parsed by the parser.
 func SanitizeDate(s string) string {
 	s = rxSanitizeSkip.ReplaceAllString(s, " ")
+	s = SanitizeSpaces(s)
 	s = rxSanitizeRussian.ReplaceAllString(s, "$1 ")        // remove 'г.' (Russian for year) but not in words
 	s = rxSanitizeCroatian.ReplaceAllString(s, "$1.$2.$3 ") // extra '.' and 'u' interferes with parsing relative fractional dates
 	s = SanitizeSpaces(s)
-- 
2.43.0


From d0fc6244f2687278f3ac2f77c51be1a530d07f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 43/77] fix: read timestamps that written in other digits

---
 parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 1913acd..9f1e6fa 100644
--- a/parser.go
+++ b/parser.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/data"
+	"github.com/markusmobius/go-dateparser/internal/digit"
 	"github.com/markusmobius/go-dateparser/internal/language"
 	"github.com/markusmobius/go-dateparser/internal/parser/absolute"
 	"github.com/markusmobius/go-dateparser/internal/parser/formatted"
@@ -111,6 +112,7 @@ func (p *Parser) Parse(cfg *Configuration, str string, formats ...string) (date.
 	// Sanitize string
 	originalStr := str
 	str = strutil.SanitizeDate(str)
+	timestampStr := digit.NormalizeString(strutil.NormalizeString(str))
 
 	// Find the suitable locales for this string
 	locales, err := p.getApplicableLocales(cfg, iCfg, str)
@@ -140,9 +142,9 @@ func (p *Parser) Parse(cfg *Configuration, str string, formats ...string) (date.
 		for _, parserType := range p.ParserTypes {
 			switch parserType {
 			case Timestamp:
-				dt = timestamp.Parse(lCfg, str, false)
+				dt = timestamp.Parse(lCfg, timestampStr, false)
 			case NegativeTimestamp:
-				dt = timestamp.Parse(lCfg, str, true)
+				dt = timestamp.Parse(lCfg, timestampStr, true)
 			case RelativeTime:
 				dt = p.tryRelativeTime(lCfg, translations)
 			case CustomFormat:
-- 
2.43.0


From bcc44124284f7698fb52172c1ad83da19517e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 44/77] fix: recognise the Catalan word for the day before
 yesterday

---
 internal/data/ca.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/data/ca.go b/internal/data/ca.go
index 1a068a1..7bedb91 100755
--- a/internal/data/ca.go
+++ b/internal/data/ca.go
@@ -124,7 +124,7 @@ func init() {
 			"el mes passat":      "1 month ago",
 			"el mes que ve":      "in 1 month",
 			"endema passat":      "in 3 day",
-			"abans-d’ahir":       "2 day ago",
+			"abans-d'ahir":       "2 day ago",
 			"aquest minut":       "0 minute ago",
 			"aquesta hora":       "0 hour ago",
 			"aquesta setm":       "0 week ago",
@@ -190,7 +190,7 @@ func init() {
 		},
 		RxCombined:      regexp.MustCompile(`(?i)(\A|[^\pL\pM\d]|_)(d'aqui a \d+[.,]?\d* setmanes|d'aqui a \d+[.,]?\d* setmana|d'aqui a \d+[.,]?\d* minuts|d'aqui a \d+[.,]?\d* segons|d'aqui a \d+[.,]?\d* hores|d'aqui a \d+[.,]?\d* mesos|d'aqui a \d+[.,]?\d* minut|d'aqui a \d+[.,]?\d* segon|d'aqui a \d+[.,]?\d* anys|d'aqui a \d+[.,]?\d* dies|d'aqui a \d+[.,]?\d* hora|d'aqui a \d+[.,]?\d* setm|d'aqui a \d+[.,]?\d* any|d'aqui a \d+[.,]?\d* dia|d'aqui a \d+[.,]?\d* mes|d'aqui a \d+[.,]?\d* min|fa \d+[.,]?\d* setmanes|d'aqui a \d+[.,]?\d* h|d'aqui a \d+[.,]?\d* s|d‘aqui a \d+[.,]?\d* h|fa \d+[.,]?\d* setmana|fa \d+[.,]?\d* minuts|fa \d+[.,]?\d* segons|fa \d+[.,]?\d* hores|fa \d+[.,]?\d* mesos|fa \d+[.,]?\d* minut|fa \d+[.,]?\d* segon|fa \d+[.,]?\d* anys|fa \d+[.,]?\d* dies|fa \d+[.,]?\d* hora|fa \d+[.,]?\d* setm|fa \d+[.,]?\d* any|fa \d+[.,]?\d* dia|fa \d+[.,]?\d* mes|fa \d+[.,]?\d* min|fa \d+[.,]?\d* h|fa \d+[.,]?\d* s)(\z|[^\pL\pM\d]|_)`),
 		RxExactCombined: regexp.MustCompile(`(?i)^(d'aqui a \d+[.,]?\d* setmanes|d'aqui a \d+[.,]?\d* setmana|d'aqui a \d+[.,]?\d* minuts|d'aqui a \d+[.,]?\d* segons|d'aqui a \d+[.,]?\d* hores|d'aqui a \d+[.,]?\d* mesos|d'aqui a \d+[.,]?\d* minut|d'aqui a \d+[.,]?\d* segon|d'aqui a \d+[.,]?\d* anys|d'aqui a \d+[.,]?\d* dies|d'aqui a \d+[.,]?\d* hora|d'aqui a \d+[.,]?\d* setm|d'aqui a \d+[.,]?\d* any|d'aqui a \d+[.,]?\d* dia|d'aqui a \d+[.,]?\d* mes|d'aqui a \d+[.,]?\d* min|fa \d+[.,]?\d* setmanes|d'aqui a \d+[.,]?\d* h|d'aqui a \d+[.,]?\d* s|d‘aqui a \d+[.,]?\d* h|fa \d+[.,]?\d* setmana|fa \d+[.,]?\d* minuts|fa \d+[.,]?\d* segons|fa \d+[.,]?\d* hores|fa \d+[.,]?\d* mesos|fa \d+[.,]?\d* minut|fa \d+[.,]?\d* segon|fa \d+[.,]?\d* anys|fa \d+[.,]?\d* dies|fa \d+[.,]?\d* hora|fa \d+[.,]?\d* setm|fa \d+[.,]?\d* any|fa \d+[.,]?\d* dia|fa \d+[.,]?\d* mes|fa \d+[.,]?\d* min|fa \d+[.,]?\d* h|fa \d+[.,]?\d* s)$`),
-		KnownWords:      []string{"la propera setmana", "la proxima setmana", "la setmana passada", "la setmana que ve", "la setmana vinent", "aquesta setmana", "la setm passada", "la setm que ve", "el mes passat", "el mes que ve", "endema passat", "abans-d’ahir", "aquest minut", "aquesta hora", "aquesta setm", "l'any passat", "l'any que ve", "setm passada", "de desembre", "de novembre", "de setembre", "dema passat", "despus-ahir", "despus-dema", "passat dema", "setm vinent", "aquest mes", "della-ahir", "mes passat", "mes vinent", "d'octubre", "de febrer", "de juliol", "divendres", "de gener", "desembre", "dimecres", "dissabte", "diumenge", "novembre", "setembre", "d'abril", "d'agost", "de febr", "de juny", "de maig", "de marc", "dilluns", "dimarts", "enguany", "octubre", "sendema", "setmana", "de des", "de gen", "de jul", "de nov", "de set", "dijous", "endema", "febrer", "juliol", "abril", "agost", "d'abr", "d'oct", "gener", "minut", "segon", "ahir", "avui", "d'ag", "dema", "febr", "hora", "juny", "maig", "marc", "setm", "abr", "any", "ara", "del", "des", "dia", "gen", "gmt", "hui", "jul", "mes", "min", "nov", "oct", "set", "utc", "ag", "am", "dc", "de", "dg", "dj", "dl", "ds", "dt", "dv", "en", "l'", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "h", "i", "s", "z", "|"},
+		KnownWords:      []string{"la propera setmana", "la proxima setmana", "la setmana passada", "la setmana que ve", "la setmana vinent", "aquesta setmana", "la setm passada", "la setm que ve", "el mes passat", "el mes que ve", "endema passat", "abans-d'ahir", "aquest minut", "aquesta hora", "aquesta setm", "l'any passat", "l'any que ve", "setm passada", "de desembre", "de novembre", "de setembre", "dema passat", "despus-ahir", "despus-dema", "passat dema", "setm vinent", "aquest mes", "della-ahir", "mes passat", "mes vinent", "d'octubre", "de febrer", "de juliol", "divendres", "de gener", "desembre", "dimecres", "dissabte", "diumenge", "novembre", "setembre", "d'abril", "d'agost", "de febr", "de juny", "de maig", "de marc", "dilluns", "dimarts", "enguany", "octubre", "sendema", "setmana", "de des", "de gen", "de jul", "de nov", "de set", "dijous", "endema", "febrer", "juliol", "abril", "agost", "d'abr", "d'oct", "gener", "minut", "segon", "ahir", "avui", "d'ag", "dema", "febr", "hora", "juny", "maig", "marc", "setm", "abr", "any", "ara", "del", "des", "dia", "gen", "gmt", "hui", "jul", "mes", "min", "nov", "oct", "set", "utc", "ag", "am", "dc", "de", "dg", "dj", "dl", "ds", "dt", "dv", "en", "l'", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "h", "i", "s", "z", "|"},
 	})
 
 	ca_AD_Locale = merge(&ca_Locale, LocaleData{
-- 
2.43.0


From 189ef993a1457a13fad3f2def43e58cb0449f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 45/77] fix: read Persian words that are joined by zero width
 non-joiner

---
 internal/parser/jalali/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index b600fbd..28dfb5a 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -2,6 +2,7 @@ package jalali
 
 import (
 	"strconv"
+	"strings"
 	"time"
 	"unicode"
 
@@ -19,6 +20,9 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 	str = strutil.NormalizeString(str)
 	str = digit.NormalizeString(str)
 
+	// Persian words might be joined by zero width non-joiner, e.g. "سه‌شنبه" or "سی‌ام"
+	str = strings.ReplaceAll(str, "\u200c", "")
+
 	// Translate the foreign texts
 	str = replaceMonths(str)
 	str = replaceWeekdays(str)
-- 
2.43.0


From 19ba026d1d690f7b0cbed3fd3182a5d2e7e9b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 46/77] fix: read a single digit hour, minute and second in
 Persian words

---
 internal/parser/jalali/translate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/parser/jalali/translate.go b/internal/parser/jalali/translate.go
index a237493..95bf273 100644
--- a/internal/parser/jalali/translate.go
+++ b/internal/parser/jalali/translate.go
@@ -9,9 +9,9 @@ import (
 )
 
 var (
-	rxHourPattern   = stdregex.MustCompile(`ساعت\s+\d{2}`)
-	rxMinutePattern = stdregex.MustCompile(`\d{2}\s+دقیقه`)
-	rxSecondPattern = stdregex.MustCompile(`\d{2}\s+ثانیه`)
+	rxHourPattern   = stdregex.MustCompile(`ساعت\s+\d{1,2}`)
+	rxMinutePattern = stdregex.MustCompile(`\d{1,2}\s+دقیقه`)
+	rxSecondPattern = stdregex.MustCompile(`\d{1,2}\s+ثانیه`)
 
 	rxColonPattern   = regexp.MustCompile(`\s+و\s+`)
 	rxOrdinalPattern = regexp.MustCompile(`ام|م|ین`)
-- 
2.43.0


From b9584afd1a071299661f2bf327f385ca4561fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 47/77] fix: do not split a word at its Arabic vowel marks

---
 internal/strutil/strutil.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index bc601c9..e77b98d 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -47,7 +47,8 @@ var (
 		'[', ']',
 	)))
 
-	rxSanitizeSkip     = regexp.MustCompile(`\t|\n|\r|\x{00bb}|,\s\x{0432}\b|\x{200e}|\x{b7}|\x{200f}|\x{064e}|\x{064f}`)
+	rxSanitizeSkip     = regexp.MustCompile(`\t|\n|\r|\x{00bb}|,\s\x{0432}\b|\x{200e}|\x{b7}|\x{200f}`)
+	rxSanitizeMark     = regexp.MustCompile(`\x{064e}|\x{064f}`)
 	rxSanitizeRussian  = regexp.MustCompile(`(?i)([\PL\pN])\x{0433}\.`)
 	rxSanitizeCroatian = regexp.MustCompile(`(?i)(\pN+)\.\s?(\pN+)\.\s?(\pN+)\.( u)?`)
 	rxSanitizePeriod   = regexp.MustCompile(`(?i)([^\pN\.\s])\.`)
@@ -112,6 +113,7 @@ func NormalizeString(str string) string {
 // SanitizeDate is used to sanitize the specified date string before
 // it parsed by the parser.
 func SanitizeDate(s string) string {
+	s = rxSanitizeMark.ReplaceAllString(s, "") // vowel marks are part of a word, so must not split it
 	s = rxSanitizeSkip.ReplaceAllString(s, " ")
 	s = SanitizeSpaces(s)
 	s = rxSanitizeRussian.ReplaceAllString(s, "$1 ")        // remove 'г.' (Russian for year) but not in words
-- 
2.43.0


From ea4cac8199db44b90173c0064ab27ac714441989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 48/77] fix: read minutes ahead in Afrikaans as minutes

---
 internal/data/af.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/af.go b/internal/data/af.go
index 5771ef7..ee89e24 100755
--- a/internal/data/af.go
+++ b/internal/data/af.go
@@ -123,7 +123,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) min gelede`), "$1 minute ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) sek gelede`), "$1 second ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) uur gelede`), "$1 hour ago"},
-			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) minuut`), "in $1 month"},
+			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) minuut`), "in $1 minute"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) md gelede`), "$1 month ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) w gelede`), "$1 week ago"},
 			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) jaar`), "in $1 year"},
-- 
2.43.0


From 660200e46512a9cf3164eb7157fd263691e5d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 49/77] fix: read seconds ahead in Malay as seconds

---
 internal/data/ms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/ms.go b/internal/data/ms.go
index 7c173ba..c08f137 100755
--- a/internal/data/ms.go
+++ b/internal/data/ms.go
@@ -119,7 +119,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) minit lalu`), "$1 minute ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) tahun lalu`), "$1 year ago"},
 			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) hari`), "in $1 day"},
-			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) saat`), "in $1 year"},
+			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) saat`), "in $1 second"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) hari lalu`), "$1 day ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) saat lalu`), "$1 second ago"},
 			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) jam`), "in $1 hour"},
-- 
2.43.0


From d29e4624d5510ebd79b405317321c930bf1a0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 50/77] fix: keep the future direction of a unit that has its
 own number

---
 internal/language/00-constant.go | 1 +
 internal/language/translate.go   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index b97a5cc..950e52f 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -51,6 +51,7 @@ var (
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
 	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "decade", "hour", "minute", "second")
+	rxCountedFreshWord = regexp.MustCompile(`^\d+ (?:day|week|month|year|decade|hour|minute|second)$`)
 	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
diff --git a/internal/language/translate.go b/internal/language/translate.go
index 4aa0610..655ec4a 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -109,7 +109,7 @@ func clearFutureWords(words []string) []string {
 	var hasFreshness bool
 	var wordsWithoutIn []string
 	for _, word := range words {
-		isFreshWord := freshnessWords.Contain(word)
+		isFreshWord := freshnessWords.Contain(word) || rxCountedFreshWord.MatchString(word)
 		hasFreshness = hasFreshness || isFreshWord
 
 		if word != "in" {
-- 
2.43.0


From e8f366e830a7f668d03559c25b0b333a611cc9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 51/77] fix: do not force the Arabic "one hour" into the past

---
 data-supplementary/date-translation/ar.yaml | 2 +-
 internal/data/ar.go                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-supplementary/date-translation/ar.yaml b/data-supplementary/date-translation/ar.yaml
index d55101f..c7d84c1 100644
--- a/data-supplementary/date-translation/ar.yaml
+++ b/data-supplementary/date-translation/ar.yaml
@@ -40,5 +40,5 @@ relative-type:
     - يومين
   2 hour:
     - ساعتين
-  1 hour ago:
+  1 hour:
     - ساعة واحدة
diff --git a/internal/data/ar.go b/internal/data/ar.go
index 51a9d9e..cddad0c 100755
--- a/internal/data/ar.go
+++ b/internal/data/ar.go
@@ -119,7 +119,7 @@ func init() {
 			"اليوم السابق":   "1 day ago",
 			"هذا الاسبوع":    "0 week ago",
 			"هذه الدقيقة":    "0 minute ago",
-			"ساعة واحدة":     "1 hour ago",
+			"ساعة واحدة":     "1 hour",
 			"هذا الشهر":      "0 month ago",
 			"ساعتين":         "2 hour",
 			"الامس":          "1 day ago",
-- 
2.43.0


From 33faf0acf8db193bfce6bbc2f3c1deb9ae08816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 52/77] fix: keep the number of hours in Belarusian

---
 data-supplementary/date-translation/be.yaml | 3 ++-
 internal/data/be.go                         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/data-supplementary/date-translation/be.yaml b/data-supplementary/date-translation/be.yaml
index 6b3005f..f6cfe76 100644
--- a/data-supplementary/date-translation/be.yaml
+++ b/data-supplementary/date-translation/be.yaml
@@ -84,7 +84,8 @@ relative-type:
 
 simplifications:
   - ^гадзіна: 1 гадзіна
-  - гадзіну: 1 гадзіну
+  - ^гадзіну: 1 гадзіну
+  - ([^\d\s]+)\s+гадзіну: \1 1 гадзіну
   - ^хвіліну: 1 хвіліну
   - ^секунду: 1 секунду
   - некалькі секунд: 44 секунды
diff --git a/internal/data/be.go b/internal/data/be.go
index 1c2b2f0..2ffdbd4 100755
--- a/internal/data/be.go
+++ b/internal/data/be.go
@@ -16,7 +16,8 @@ func init() {
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^гадзіна(\z|[^\pL\pM\d_])`), "${1}1 гадзіна${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])гадзіну(\z|[^\pL\pM\d_])`), "${1}1 гадзіну${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^гадзіну(\z|[^\pL\pM\d_])`), "${1}1 гадзіну${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])([^\d\s]+)\s+гадзіну(\z|[^\pL\pM\d_])`), "${1}${2} 1 гадзіну${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^хвіліну(\z|[^\pL\pM\d_])`), "${1}1 хвіліну${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^секунду(\z|[^\pL\pM\d_])`), "${1}1 секунду${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])некалькі секунд(\z|[^\pL\pM\d_])`), "${1}44 секунды${2}"},
-- 
2.43.0


From 21271fe70595cca90daa3a76ee72acf8be348adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 53/77] fix: read the French abbreviation of September

---
 data-supplementary/date-translation/fr.yaml | 2 +-
 internal/data/fr.go                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-supplementary/date-translation/fr.yaml b/data-supplementary/date-translation/fr.yaml
index 526a89d..2e0156d 100644
--- a/data-supplementary/date-translation/fr.yaml
+++ b/data-supplementary/date-translation/fr.yaml
@@ -74,7 +74,7 @@ simplifications:
   - quatre: '4'
   - cinq: '5'
   - six: '6'
-  - sept: '7'
+  - sept\s+(ans?|années?|mois|semaines?|sem|jours?|j|heures?|h|minutes?|min|secondes?|s|janvier|février|mars|avril|mai|juin|juillet|août|octobre|novembre|décembre): 7 \1
   - huit: '8'
   - neuf: '9'
   - dix: '10'
diff --git a/internal/data/fr.go b/internal/data/fr.go
index 3a27d0a..296fe09 100755
--- a/internal/data/fr.go
+++ b/internal/data/fr.go
@@ -75,7 +75,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])quatre(\z|[^\pL\pM\d_])`), "${1}4${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])cinq(\z|[^\pL\pM\d_])`), "${1}5${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])six(\z|[^\pL\pM\d_])`), "${1}6${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])sept(\z|[^\pL\pM\d_])`), "${1}7${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])sept\s+(ans?|annees?|mois|semaines?|sem|jours?|j|heures?|h|minutes?|min|secondes?|s|janvier|fevrier|mars|avril|mai|juin|juillet|aout|octobre|novembre|decembre)(\z|[^\pL\pM\d_])`), "${1}7 ${2}${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])huit(\z|[^\pL\pM\d_])`), "${1}8${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])neuf(\z|[^\pL\pM\d_])`), "${1}9${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])dix(\z|[^\pL\pM\d_])`), "${1}10${2}"},
-- 
2.43.0


From a3066d507e2f8a8385bf53bfc5fa4818251c957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 54/77] fix: recognise the words of a language in its regional
 locales

---
 internal/data/00-locale-data.go | 5 +++++
 scripts/codegen/05-templates.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/data/00-locale-data.go b/internal/data/00-locale-data.go
index 873ed96..562554a 100755
--- a/internal/data/00-locale-data.go
+++ b/internal/data/00-locale-data.go
@@ -76,6 +76,11 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.RxExactCombined = parent.RxExactCombined
 	}
 
+	// Replace the known words
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
 	return child
 }
 
diff --git a/scripts/codegen/05-templates.go b/scripts/codegen/05-templates.go
index 0a33237..12d1f68 100644
--- a/scripts/codegen/05-templates.go
+++ b/scripts/codegen/05-templates.go
@@ -264,6 +264,11 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.RxExactCombined = parent.RxExactCombined
 	}
 
+	// Replace the known words
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
 	return child
 }
 
-- 
2.43.0


From fc91fbaf1ba907b9da3565904b500fab7efd0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 55/77] fix: translate a relative phrase only by a pattern that
 covers it

---
 internal/language/translate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/language/translate.go b/internal/language/translate.go
index 655ec4a..efa0bca 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -35,7 +35,8 @@ func Translate(cfg *setting.Configuration, ld *data.LocaleData, str string, keep
 		// Try to use regex to translate relative type
 		var translationFound bool
 		for _, data := range ld.RelativeTypeRegexes {
-			if data.Rx.MatchString(token) {
+			// The pattern must cover the entire token, e.g. `ha (\d+) s` is not for "ha 1 semana"
+			if loc := data.Rx.FindStringIndex(token); loc != nil && loc[0] == 0 && loc[1] == len(token) {
 				translation := data.Rx.ReplaceAllString(token, data.Replacement)
 				translatedTokens[i] = []string{translation}
 				translationFound = true
-- 
2.43.0


From e613b318c92d13ab3b00a5fb2fae05fad7c2e1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:46 +0000
Subject: [PATCH 56/77] fix: read the Chinese and Slovak words for the day
 after tomorrow

---
 data-supplementary/date-translation/sk.yaml      | 2 +-
 data-supplementary/date-translation/zh-Hans.yaml | 2 +-
 data-supplementary/date-translation/zh.yaml      | 2 +-
 internal/data/sk.go                              | 2 +-
 internal/data/zh-hans.go                         | 2 +-
 internal/data/zh.go                              | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/data-supplementary/date-translation/sk.yaml b/data-supplementary/date-translation/sk.yaml
index f554527..2150934 100644
--- a/data-supplementary/date-translation/sk.yaml
+++ b/data-supplementary/date-translation/sk.yaml
@@ -18,7 +18,7 @@ in:
 relative-type:
   2 day ago:
     - predvčerom
-  in 2 days:
+  in 2 day:
     - pozajtra
 
 relative-type-regex:
diff --git a/data-supplementary/date-translation/zh-Hans.yaml b/data-supplementary/date-translation/zh-Hans.yaml
index e285057..d98f465 100644
--- a/data-supplementary/date-translation/zh-Hans.yaml
+++ b/data-supplementary/date-translation/zh-Hans.yaml
@@ -10,5 +10,5 @@ relative-type:
   0 hour ago:
     - 这一时间
     - 此时
-  in 2 days:
+  in 2 day:
     - 后天
diff --git a/data-supplementary/date-translation/zh.yaml b/data-supplementary/date-translation/zh.yaml
index 0d9be1b..1add3e7 100644
--- a/data-supplementary/date-translation/zh.yaml
+++ b/data-supplementary/date-translation/zh.yaml
@@ -42,7 +42,7 @@ relative-type:
   0 hour ago:
     - 这一时间
     - 此时
-  in 2 days:
+  in 2 day:
     - 后天
 
 simplifications:
diff --git a/internal/data/sk.go b/internal/data/sk.go
index fc14fd7..7ec3ffd 100755
--- a/internal/data/sk.go
+++ b/internal/data/sk.go
@@ -131,7 +131,7 @@ func init() {
 			"minuly rok":     "1 year ago",
 			"predvcerom":     "2 day ago",
 			"tento rok":      "0 year ago",
-			"pozajtra":       "in 2 days",
+			"pozajtra":       "in 2 day",
 			"zajtra":         "in 1 day",
 			"teraz":          "0 second ago",
 			"vcera":          "1 day ago",
diff --git a/internal/data/zh-hans.go b/internal/data/zh-hans.go
index 3ef64f7..251145f 100755
--- a/internal/data/zh-hans.go
+++ b/internal/data/zh-hans.go
@@ -98,7 +98,7 @@ func init() {
 			"刚刚":        "0 second ago",
 			"前天":        "2 day ago",
 			"去年":        "1 year ago",
-			"后天":        "in 2 days",
+			"后天":        "in 2 day",
 			"明天":        "in 1 day",
 			"明年":        "in 1 year",
 			"昨天":        "1 day ago",
diff --git a/internal/data/zh.go b/internal/data/zh.go
index 8f1d1ca..dd4316c 100755
--- a/internal/data/zh.go
+++ b/internal/data/zh.go
@@ -121,7 +121,7 @@ func init() {
 			"刚刚":        "0 second ago",
 			"前天":        "2 day ago",
 			"去年":        "1 year ago",
-			"后天":        "in 2 days",
+			"后天":        "in 2 day",
 			"明天":        "in 1 day",
 			"明年":        "in 1 year",
 			"昨天":        "1 day ago",
-- 
2.43.0


From 7a63142c7b58f4e5a7601360aa79b912852c7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 57/77] fix: read "now" as November in Bambara, Hawaiian and
 Sorbian

---
 internal/data/bm.go  | 1 -
 internal/data/dsb.go | 1 -
 internal/data/haw.go | 1 -
 internal/data/hsb.go | 1 -
 4 files changed, 4 deletions(-)

diff --git a/internal/data/bm.go b/internal/data/bm.go
index ba3ff97..a03dc05 100755
--- a/internal/data/bm.go
+++ b/internal/data/bm.go
@@ -88,7 +88,6 @@ func init() {
 			"this year":   "0 year ago",
 			"kunu":        "1 day ago",
 			"sini":        "in 1 day",
-			"now":         "0 second ago",
 			"bi":          "0 day ago",
 		},
 		KnownWords: []string{"this minute", "last month", "next month", "this month", "desanburu", "last week", "last year", "next week", "next year", "nowanburu", "sɛtanburu", "this hour", "this week", "this year", "ɔkutɔburu", "feburuye", "alamisa", "awirili", "dɔgɔkun", "sekondi", "zanwuye", "marisi", "miniti", "sibiri", "tarata", "zuluye", "araba", "ntɛnɛ", "zuwɛn", "juma", "kalo", "kari", "kunu", "lɛrɛ", "sini", "ala", "ara", "awi", "des", "don", "feb", "gmt", "jum", "kar", "mar", "now", "ntɛ", "san", "sib", "sɛt", "tar", "utc", "uti", "zan", "zul", "zuw", "ɔku", "am", "bi", "mɛ", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "z", "|"},
diff --git a/internal/data/dsb.go b/internal/data/dsb.go
index 7c2cfcb..22faef7 100755
--- a/internal/data/dsb.go
+++ b/internal/data/dsb.go
@@ -115,7 +115,6 @@ func init() {
 			"znowa":          "in 1 year",
 			"cora":           "1 day ago",
 			"łoni":           "1 year ago",
-			"now":            "0 second ago",
 		},
 		RelativeTypeRegexes: []ReplacementData{
 			{regexp.MustCompile(`(?i)psed (\d+[.,]?\d*) mjasecami`), "$1 month ago"},
diff --git a/internal/data/haw.go b/internal/data/haw.go
index 350a6be..e19ad0e 100755
--- a/internal/data/haw.go
+++ b/internal/data/haw.go
@@ -90,7 +90,6 @@ func init() {
 			"yesterday":   "1 day ago",
 			"tomorrow":    "in 1 day",
 			"today":       "0 day ago",
-			"now":         "0 second ago",
 		},
 		KnownWords: []string{"this minute", "kepakemapa", "last month", "next month", "this month", "last week", "last year", "next week", "next year", "pepeluali", "this hour", "this week", "this year", "yesterday", "'apelila", "'okakopa", "kekemapa", "nowemapa", "po'akahi", "po'akolu", "po'alima", "tomorrow", "'aukake", "ianuali", "po'alua", "po'aono", "lapule", "malaki", "minute", "po'aha", "second", "iulai", "month", "today", "hour", "iune", "week", "year", "'ap", "'au", "'ok", "day", "gmt", "ian", "iul", "iun", "kek", "kep", "mal", "mei", "now", "pep", "utc", "am", "lp", "p1", "p2", "p3", "p4", "p5", "p6", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "z", "|"},
 	})
diff --git a/internal/data/hsb.go b/internal/data/hsb.go
index 7fda1dd..86132c1 100755
--- a/internal/data/hsb.go
+++ b/internal/data/hsb.go
@@ -117,7 +117,6 @@ func init() {
 			"letsa":            "0 year ago",
 			"wcera":            "1 day ago",
 			"loni":             "1 year ago",
-			"now":              "0 second ago",
 		},
 		RelativeTypeRegexes: []ReplacementData{
 			{regexp.MustCompile(`(?i)pred (\d+[.,]?\d*) tydzenjemi`), "$1 week ago"},
-- 
2.43.0


From ed0b5aafc3b8732a01ec87840dc09c874f296c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 58/77] fix: recognise the numbered months in Tibetan and
 Dzongkha

---
 internal/data/bo.go | 26 +++++++++++++-------------
 internal/data/dz.go | 26 +++++++++++++-------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/internal/data/bo.go b/internal/data/bo.go
index bc28d39..aa63599 100755
--- a/internal/data/bo.go
+++ b/internal/data/bo.go
@@ -53,23 +53,23 @@ func init() {
 			"week":          {"week"},
 			"ཉ་མ་":          {"sunday"},
 			"ཕ་ད་":          {"pm"},
-			"ཟ་༡༠":          {"october"},
-			"ཟ་༡༡":          {"november"},
-			"ཟ་༡༢":          {"december"},
+			"ཟ་10":          {"october"},
+			"ཟ་11":          {"november"},
+			"ཟ་12":          {"december"},
 			"ཟ་བ་":          {"month", "monday"},
 			"ས་ད་":          {"am"},
 			"gmt":           {"gmt"},
 			"utc":           {"utc"},
 			"ཉན།":           {"day"},
-			"ཟ་༡":           {"january"},
-			"ཟ་༢":           {"february"},
-			"ཟ་༣":           {"march"},
-			"ཟ་༤":           {"april"},
-			"ཟ་༥":           {"may"},
-			"ཟ་༦":           {"june"},
-			"ཟ་༧":           {"july"},
-			"ཟ་༨":           {"august"},
-			"ཟ་༩":           {"september"},
+			"ཟ་1":           {"january"},
+			"ཟ་2":           {"february"},
+			"ཟ་3":           {"march"},
+			"ཟ་4":           {"april"},
+			"ཟ་5":           {"may"},
+			"ཟ་6":           {"june"},
+			"ཟ་7":           {"july"},
+			"ཟ་8":           {"august"},
+			"ཟ་9":           {"september"},
 			"am":            {"am"},
 			"pm":            {"pm"},
 			"ལ།":            {"year"},
@@ -105,7 +105,7 @@ func init() {
 			"ད་རང་":       "0 day ago",
 			"now":         "0 second ago",
 		},
-		KnownWords: []string{"ཟ་བ་བཅ་གཅག་པ་", "ཟ་བ་བཅ་གཉས་པ་", "ཟ་བ་བཅ་གཅག་པ", "ཟ་བ་བཅ་གཉས་པ", "this minute", "གཟའ་མག་དམར་", "last month", "next month", "this month", "གཟའ་པ་སངས་", "ཟ་བ་གཉས་པ་", "ཟ་བ་གསམ་པ་", "ཟ་བ་བདན་པ་", "ཟ་བ་བརད་པ་", "last week", "last year", "next week", "next year", "this hour", "this week", "this year", "གཟའ་ཕར་བ་", "གཟའ་ལག་པ་", "གཟའ་སན་པ་", "ཟ་བ་གཉས་པ", "ཟ་བ་གསམ་པ", "ཟ་བ་དག་པ་", "ཟ་བ་དང་པ་", "ཟ་བ་བཅ་པ་", "ཟ་བ་བདན་པ", "ཟ་བ་བཞ་པ་", "ཟ་བ་བརད་པ", "གཟའ་ཉ་མ་", "གཟའ་ཟ་བ་", "ཟ་བ་དག་པ", "ཟ་བ་དང་པ", "ཟ་བ་བཅ་པ", "ཟ་བ་བཞ་པ", "ཟ་བ་ལ་པ་", "མག་དམར་", "ཟ་བ་ལ་པ", "པ་སངས་", "སང་ཉན་", "ཁས་ས་", "ཆ་ཚད་", "ད་རང་", "ཕར་བ་", "ལག་པ་", "སན་པ་", "སར་ཆ།", "སར་མ།", "week", "ཉ་མ་", "ཕ་ད་", "ཟ་༡༠", "ཟ་༡༡", "ཟ་༡༢", "ཟ་བ་", "ས་ད་", "gmt", "now", "utc", "ཉན།", "ཟ་༡", "ཟ་༢", "ཟ་༣", "ཟ་༤", "ཟ་༥", "ཟ་༦", "ཟ་༧", "ཟ་༨", "ཟ་༩", "am", "pm", "ལ།", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "z", "|"},
+		KnownWords: []string{"ཟ་བ་བཅ་གཅག་པ་", "ཟ་བ་བཅ་གཉས་པ་", "ཟ་བ་བཅ་གཅག་པ", "ཟ་བ་བཅ་གཉས་པ", "this minute", "གཟའ་མག་དམར་", "last month", "next month", "this month", "གཟའ་པ་སངས་", "ཟ་བ་གཉས་པ་", "ཟ་བ་གསམ་པ་", "ཟ་བ་བདན་པ་", "ཟ་བ་བརད་པ་", "last week", "last year", "next week", "next year", "this hour", "this week", "this year", "གཟའ་ཕར་བ་", "གཟའ་ལག་པ་", "གཟའ་སན་པ་", "ཟ་བ་གཉས་པ", "ཟ་བ་གསམ་པ", "ཟ་བ་དག་པ་", "ཟ་བ་དང་པ་", "ཟ་བ་བཅ་པ་", "ཟ་བ་བདན་པ", "ཟ་བ་བཞ་པ་", "ཟ་བ་བརད་པ", "གཟའ་ཉ་མ་", "གཟའ་ཟ་བ་", "ཟ་བ་དག་པ", "ཟ་བ་དང་པ", "ཟ་བ་བཅ་པ", "ཟ་བ་བཞ་པ", "ཟ་བ་ལ་པ་", "མག་དམར་", "ཟ་བ་ལ་པ", "པ་སངས་", "སང་ཉན་", "ཁས་ས་", "ཆ་ཚད་", "ད་རང་", "ཕར་བ་", "ལག་པ་", "སན་པ་", "སར་ཆ།", "སར་མ།", "week", "ཉ་མ་", "ཕ་ད་", "ཟ་10", "ཟ་11", "ཟ་12", "ཟ་བ་", "ས་ད་", "gmt", "now", "utc", "ཉན།", "ཟ་1", "ཟ་2", "ཟ་3", "ཟ་4", "ཟ་5", "ཟ་6", "ཟ་7", "ཟ་8", "ཟ་9", "am", "pm", "ལ།", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "z", "|"},
 	})
 
 	bo_IN_Locale = merge(&bo_Locale, LocaleData{
diff --git a/internal/data/dz.go b/internal/data/dz.go
index ac8cf7a..f82dff6 100755
--- a/internal/data/dz.go
+++ b/internal/data/dz.go
@@ -49,9 +49,9 @@ func init() {
 			"སར་ཆ་":         {"second"},
 			"ཆ་ཚད":          {"hour"},
 			"ཕ་ཆ་":          {"pm"},
-			"ཟ་༡༠":          {"october"},
-			"ཟ་༡༡":          {"november"},
-			"ཟ་༡༢":          {"december"},
+			"ཟ་10":          {"october"},
+			"ཟ་11":          {"november"},
+			"ཟ་12":          {"december"},
 			"ཟ་ཝ་":          {"month"},
 			"ས་ཆ་":          {"am"},
 			"སངས་":          {"thursday"},
@@ -61,15 +61,15 @@ func init() {
 			"ཕར་":           {"wednesday"},
 			"མར་":           {"monday"},
 			"ཚས་":           {"day"},
-			"ཟ་༡":           {"january"},
-			"ཟ་༢":           {"february"},
-			"ཟ་༣":           {"march"},
-			"ཟ་༤":           {"april"},
-			"ཟ་༥":           {"may"},
-			"ཟ་༦":           {"june"},
-			"ཟ་༧":           {"july"},
-			"ཟ་༨":           {"august"},
-			"ཟ་༩":           {"september"},
+			"ཟ་1":           {"january"},
+			"ཟ་2":           {"february"},
+			"ཟ་3":           {"march"},
+			"ཟ་4":           {"april"},
+			"ཟ་5":           {"may"},
+			"ཟ་6":           {"june"},
+			"ཟ་7":           {"july"},
+			"ཟ་8":           {"august"},
+			"ཟ་9":           {"september"},
 			"ལག་":           {"tuesday"},
 			"སན་":           {"friday"},
 			"am":            {"am"},
@@ -127,6 +127,6 @@ func init() {
 		},
 		RxCombined:      regexp.MustCompile(`(?i)(\A|[^\pL\pM\d]|_)(བངན་ཕག་ \d+[.,]?\d* ཧ་མ་|བངན་ཕག་ \d+[.,]?\d* ནང་|ལ་འཁར་ \d+[.,]?\d* ཧ་མ་|ཆ་ཚད་ \d+[.,]?\d* ཧ་མ་|ལ་འཁར་ \d+[.,]?\d* ནང་|སར་ཆ་ \d+[.,]?\d* ཧ་མ་|སར་མ་ \d+[.,]?\d* ཧ་མ་|ཆ་ཚད་ \d+[.,]?\d* ནང་|ཉནམ་ \d+[.,]?\d* ཧ་མ་|སར་ཆ་ \d+[.,]?\d* ནང་|སར་མ་ \d+[.,]?\d* ནང་|ཉནམ་ \d+[.,]?\d* ནང་|ཟཝ་ \d+[.,]?\d* ཧ་མ་|ཟཝ་ \d+[.,]?\d* ནང་)(\z|[^\pL\pM\d]|_)`),
 		RxExactCombined: regexp.MustCompile(`(?i)^(བངན་ཕག་ \d+[.,]?\d* ཧ་མ་|བངན་ཕག་ \d+[.,]?\d* ནང་|ལ་འཁར་ \d+[.,]?\d* ཧ་མ་|ཆ་ཚད་ \d+[.,]?\d* ཧ་མ་|ལ་འཁར་ \d+[.,]?\d* ནང་|སར་ཆ་ \d+[.,]?\d* ཧ་མ་|སར་མ་ \d+[.,]?\d* ཧ་མ་|ཆ་ཚད་ \d+[.,]?\d* ནང་|ཉནམ་ \d+[.,]?\d* ཧ་མ་|སར་ཆ་ \d+[.,]?\d* ནང་|སར་མ་ \d+[.,]?\d* ནང་|ཉནམ་ \d+[.,]?\d* ནང་|ཟཝ་ \d+[.,]?\d* ཧ་མ་|ཟཝ་ \d+[.,]?\d* ནང་)$`),
-		KnownWords:      []string{"ས་ཟ་བཅ་གཅག་པ་", "ས་ཟ་བཅ་གཉས་པ་", "this minute", "གཟའ་མག་དམར་", "ཟ་བཅ་གཅག་པ་", "ཟ་བཅ་གཉས་པ་", "last month", "next month", "this month", "གཟའ་པ་སངས་", "ས་ཟ་གཉས་པ་", "ས་ཟ་གསམ་པ་", "ས་ཟ་བདན་པ་", "ས་ཟ་བརད་པ་", "last week", "last year", "next week", "next year", "this hour", "this week", "this year", "གཟའ་ཕར་བ་", "གཟའ་ལག་པ་", "གཟའ་སན་པ་", "ས་ཟ་དག་པ་", "ས་ཟ་བཅ་པ་", "གཟའ་ཉ་མ་", "གཟའ་ཟ་བ་", "ཟ་གཉས་པ་", "ཟ་གསམ་པ་", "ཟ་བདན་པ་", "ཟ་བརད་པ་", "ས་ཟ་དག་པ", "ས་ཟ་དངཔ་", "ས་ཟ་བཞ་པ", "ས་ཟ་ལ་པ་", "ཟ་དག་པ་", "ཟ་བཅ་པ་", "ཟ་བཞ་པ་", "ནངས་པ་", "བདན་ཕག", "ཟ་དག་པ", "ཟ་དངཔ་", "ཟ་ལ་པ་", "ད་རས་", "སར་ཆ་", "ཁ་ཙ་", "ཆ་ཚད", "ཕ་ཆ་", "ཟ་༡༠", "ཟ་༡༡", "ཟ་༡༢", "ཟ་ཝ་", "ས་ཆ་", "སངས་", "སར་མ", "gmt", "now", "utc", "ཕར་", "མར་", "ཚས་", "ཟ་༡", "ཟ་༢", "ཟ་༣", "ཟ་༤", "ཟ་༥", "ཟ་༦", "ཟ་༧", "ཟ་༨", "ཟ་༩", "ལག་", "སན་", "am", "pm", "ཉ་", "ཟ་", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "z", "|", "ལ"},
+		KnownWords:      []string{"ས་ཟ་བཅ་གཅག་པ་", "ས་ཟ་བཅ་གཉས་པ་", "this minute", "གཟའ་མག་དམར་", "ཟ་བཅ་གཅག་པ་", "ཟ་བཅ་གཉས་པ་", "last month", "next month", "this month", "གཟའ་པ་སངས་", "ས་ཟ་གཉས་པ་", "ས་ཟ་གསམ་པ་", "ས་ཟ་བདན་པ་", "ས་ཟ་བརད་པ་", "last week", "last year", "next week", "next year", "this hour", "this week", "this year", "གཟའ་ཕར་བ་", "གཟའ་ལག་པ་", "གཟའ་སན་པ་", "ས་ཟ་དག་པ་", "ས་ཟ་བཅ་པ་", "གཟའ་ཉ་མ་", "གཟའ་ཟ་བ་", "ཟ་གཉས་པ་", "ཟ་གསམ་པ་", "ཟ་བདན་པ་", "ཟ་བརད་པ་", "ས་ཟ་དག་པ", "ས་ཟ་དངཔ་", "ས་ཟ་བཞ་པ", "ས་ཟ་ལ་པ་", "ཟ་དག་པ་", "ཟ་བཅ་པ་", "ཟ་བཞ་པ་", "ནངས་པ་", "བདན་ཕག", "ཟ་དག་པ", "ཟ་དངཔ་", "ཟ་ལ་པ་", "ད་རས་", "སར་ཆ་", "ཁ་ཙ་", "ཆ་ཚད", "ཕ་ཆ་", "ཟ་10", "ཟ་11", "ཟ་12", "ཟ་ཝ་", "ས་ཆ་", "སངས་", "སར་མ", "gmt", "now", "utc", "ཕར་", "མར་", "ཚས་", "ཟ་1", "ཟ་2", "ཟ་3", "ཟ་4", "ཟ་5", "ཟ་6", "ཟ་7", "ཟ་8", "ཟ་9", "ལག་", "སན་", "am", "pm", "ཉ་", "ཟ་", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "z", "|", "ལ"},
 	})
 }
-- 
2.43.0


From f5646a7b7448ef9184f7d6f56e9b46c2c3f74ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:11 +0000
Subject: [PATCH 59/77] fix: read the Hebrew, Polish and Thai words for past
 days as past

---
 data-supplementary/date-translation/he.yaml | 2 +-
 data-supplementary/date-translation/pl.yaml | 2 +-
 data-supplementary/date-translation/th.yaml | 8 ++++----
 internal/data/he.go                         | 2 +-
 internal/data/pl.go                         | 2 +-
 internal/data/th.go                         | 8 ++++----
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/data-supplementary/date-translation/he.yaml b/data-supplementary/date-translation/he.yaml
index 12531a0..78f1934 100644
--- a/data-supplementary/date-translation/he.yaml
+++ b/data-supplementary/date-translation/he.yaml
@@ -110,7 +110,7 @@ simplifications:
   - שבועיי?ם: 2 שבועות
   - יומיי?ם: 2 ימים
   - שעתיי?ם: 2 שעות
-  - שלשום: 2 ימים
+  - שלשום: לפני 2 ימים
   - מחר: בעוד 1 יום
   - אחר חצות: am
   - חצות: 12 am
diff --git a/data-supplementary/date-translation/pl.yaml b/data-supplementary/date-translation/pl.yaml
index 609c841..4c7ddda 100644
--- a/data-supplementary/date-translation/pl.yaml
+++ b/data-supplementary/date-translation/pl.yaml
@@ -159,7 +159,7 @@ in:
 simplifications:
     - dziś: 0 dnia
     - dzisiaj: 0 dnia
-    - onegdaj: 2 dnia
+    - onegdaj: 2 dnia temu
     - przedwczoraj: 2 dnia temu
     - jutro: za 1 dnia
     - pojutrze: za 2 dnia
diff --git a/data-supplementary/date-translation/th.yaml b/data-supplementary/date-translation/th.yaml
index 7047680..9ab4c14 100644
--- a/data-supplementary/date-translation/th.yaml
+++ b/data-supplementary/date-translation/th.yaml
@@ -71,8 +71,8 @@ in:
 
 simplifications:
     - วันนี้: 0 วัน
-    - เมื่อวานนี้: 1 วัน
-    - 1 วันที่แล้ว: 1 วัน
-    - เมื่อวานซืน: 2 วัน
-    - 2 วันที่แล้ว: 2 วัน
+    - เมื่อวานนี้: 1 วัน ก่อน
+    - 1 วันที่แล้ว: 1 วัน ก่อน
+    - เมื่อวานซืน: 2 วัน ก่อน
+    - 2 วันที่แล้ว: 2 วัน ก่อน
     - เมื่อสักครู่นี้: 0 วินาที
diff --git a/internal/data/he.go b/internal/data/he.go
index eaa5a74..111794e 100755
--- a/internal/data/he.go
+++ b/internal/data/he.go
@@ -25,7 +25,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])שבועיי?ם(\z|[^\pL\pM\d_])`), "${1}2 שבועות${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])יומיי?ם(\z|[^\pL\pM\d_])`), "${1}2 ימים${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])שעתיי?ם(\z|[^\pL\pM\d_])`), "${1}2 שעות${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])שלשום(\z|[^\pL\pM\d_])`), "${1}2 ימים${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])שלשום(\z|[^\pL\pM\d_])`), "${1}לפני 2 ימים${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])מחר(\z|[^\pL\pM\d_])`), "${1}בעוד 1 יום${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])אחר חצות(\z|[^\pL\pM\d_])`), "${1}am${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])חצות(\z|[^\pL\pM\d_])`), "${1}12 am${2}"},
diff --git a/internal/data/pl.go b/internal/data/pl.go
index 6a86ccf..5a06f3b 100755
--- a/internal/data/pl.go
+++ b/internal/data/pl.go
@@ -18,7 +18,7 @@ func init() {
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])dzis(\z|[^\pL\pM\d_])`), "${1}0 dnia${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])dzisiaj(\z|[^\pL\pM\d_])`), "${1}0 dnia${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])onegdaj(\z|[^\pL\pM\d_])`), "${1}2 dnia${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])onegdaj(\z|[^\pL\pM\d_])`), "${1}2 dnia temu${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])przedwczoraj(\z|[^\pL\pM\d_])`), "${1}2 dnia temu${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])jutro(\z|[^\pL\pM\d_])`), "${1}za 1 dnia${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])pojutrze(\z|[^\pL\pM\d_])`), "${1}za 2 dnia${2}"},
diff --git a/internal/data/th.go b/internal/data/th.go
index edd5cb1..f9f9f9e 100755
--- a/internal/data/th.go
+++ b/internal/data/th.go
@@ -17,10 +17,10 @@ func init() {
 		SentenceSplitterGroup: 5,
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])วนน(\z|[^\pL\pM\d_])`), "${1}0 วน${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอวานน(\z|[^\pL\pM\d_])`), "${1}1 วน${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])1 วนทแลว(\z|[^\pL\pM\d_])`), "${1}1 วน${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอวานซน(\z|[^\pL\pM\d_])`), "${1}2 วน${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])2 วนทแลว(\z|[^\pL\pM\d_])`), "${1}2 วน${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอวานน(\z|[^\pL\pM\d_])`), "${1}1 วน กอน${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])1 วนทแลว(\z|[^\pL\pM\d_])`), "${1}1 วน กอน${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอวานซน(\z|[^\pL\pM\d_])`), "${1}2 วน กอน${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])2 วนทแลว(\z|[^\pL\pM\d_])`), "${1}2 วน กอน${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])เมอสกครน(\z|[^\pL\pM\d_])`), "${1}0 วนาท${2}"},
 		},
 		Translations: map[string][]string{
-- 
2.43.0


From ad34e4d37b641481e127ede87c4cd78b243f6efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 60/77] fix: do not split a sentence inside a date or a decimal
 number

---
 internal/language/00-constant.go | 3 +++
 internal/language/split.go       | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 950e52f..70796ce 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -48,6 +48,9 @@ var (
 		6: regexp.MustCompile(`([^\s.]*)[\r\n؟!\.…]+(?:\s|$)+`),
 	}
 
+	// rxDottedNumber matches the dates, fractions of second and decimal amounts, whose periods don't end a sentence
+	rxDottedNumber = regexp.MustCompile(`\b\d{1,2}\.\pL+\.\d{2,4}\b|\b\d{1,4}\.\d{1,2}\.\d{1,4}\b|:\d{2}\.\d+|\b\d+\.\d+\s*\pL`)
+
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
 	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "decade", "hour", "minute", "second")
diff --git a/internal/language/split.go b/internal/language/split.go
index ceb6e29..c343608 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -63,6 +63,7 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	// Split sentences
 	var sentences []string
 	var lastPosition int
+	dottedNumbers := rxDottedNumber.FindAllStringIndex(str, -1)
 	useDigitAbbrs := langWithDigitAbbrs.Contain(ld.Name)
 	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(str, -1) {
 		// If splitter only made of opening punctuations, there are no word before it
@@ -73,6 +74,13 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 		// Fetch end of sentence from this match
 		eos := str[pos[2]:pos[3]]
 
+		// If the splitter is part of a number, continue
+		if slices.ContainsFunc(dottedNumbers, func(number []int) bool {
+			return number[0] <= pos[3] && pos[1] < number[1]
+		}) {
+			continue
+		}
+
 		// If end of sentence is abbreviation, continue
 		if isAbbreviation(eos) {
 			continue
-- 
2.43.0


From a291c13c946e7299e475ad0b358480ceda7948ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 61/77] fix: keep the am of an hour when searching dates

---
 search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/search.go b/search.go
index 5cdd276..324339f 100644
--- a/search.go
+++ b/search.go
@@ -20,8 +20,8 @@ var (
 	splitters     = []string{",", "،", "——", "—", "–", ".", " "}
 	relativeWords = []string{"ago", "in", "from now", "tomorrow", "today", "yesterday"}
 
-	// rxExceptClockAm is used to remove every "am", except the one that follows a clock.
-	rxExceptClockAm = regexp.MustCompile(`(:\d{2}\s*am)|am`)
+	// rxExceptClockAm is used to remove every "am", except the one that follows a clock or an hour.
+	rxExceptClockAm = regexp.MustCompile(`(:\d{2}\s*am|(?:^|\bat |\b\d{4},? +|-\d{2} +|day,? +|\d[ -]\pL+ +)(?:0?\d|1[0-2])\s*am\b)|am`)
 )
 
 type SearchResult struct {
-- 
2.43.0


From bcbd714b3c191810df7ded6255467f8ecafdf876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:45 +0000
Subject: [PATCH 62/77] fix: keep the future direction of a glued amount when
 searching dates

---
 internal/language/00-constant.go      |  3 ++-
 internal/language/translate-search.go | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 70796ce..e4fbb20 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -54,7 +54,8 @@ var (
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
 	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "decade", "hour", "minute", "second")
-	rxCountedFreshWord = regexp.MustCompile(`^\d+ (?:day|week|month|year|decade|hour|minute|second)$`)
+	rxGluedAmount      = regexp.MustCompile(`^(\d+(?:[.,]\d+)?)(\pL+)$`)
+	rxCountedFreshWord = regexp.MustCompile(`^\d+(?:[.,]\d+)? (?:day|week|month|year|decade|hour|minute|second)$`)
 	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 0af0db4..f72579f 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -90,7 +90,7 @@ func TranslateSearchChunks(cfg *setting.Configuration, ld *data.LocaleData, str
 				translatedChunk = append(translatedChunk, translations)
 				originalChunk = append(originalChunk, originalTokens[i])
 			} else if tokenWithDigitsIsOk(ld, word) {
-				translatedChunk = append(translatedChunk, []string{word})
+				translatedChunk = append(translatedChunk, []string{separateUnit(ld, word)})
 				originalChunk = append(originalChunk, originalTokens[i])
 			} else if len(translatedChunk) > 0 && timezone.WordIsTz(originalTokens[i]) {
 				translatedChunk = append(translatedChunk, []string{word})
@@ -234,6 +234,21 @@ func tokenWithDigitsIsOk(ld *data.LocaleData, token string) bool {
 	}
 }
 
+// separateUnit separates an amount from its unit, e.g. "5sec" becomes "5 second".
+func separateUnit(ld *data.LocaleData, token string) string {
+	parts := rxGluedAmount.FindStringSubmatch(token)
+	if parts == nil {
+		return token
+	}
+
+	translations, _ := translateWord(ld, parts[2])
+	if len(translations) == 0 || !freshnessWords.Contain(translations[0]) {
+		return token
+	}
+
+	return parts[1] + " " + translations[0]
+}
+
 func insertSlice(list []string, i int, s string) []string {
 	if i < 0 {
 		i = 0
-- 
2.43.0


From 28588cad8410fe990e16a9b4bb06d81d828b1fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 63/77] fix: detect the language of a text that only has a
 clock

---
 internal/language/00-constant.go | 1 +
 internal/language/detector.go    | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index e4fbb20..a452305 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -57,5 +57,6 @@ var (
 	rxGluedAmount      = regexp.MustCompile(`^(\d+(?:[.,]\d+)?)(\pL+)$`)
 	rxCountedFreshWord = regexp.MustCompile(`^\d+(?:[.,]\d+)? (?:day|week|month|year|decade|hour|minute|second)$`)
 	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da")
+	meridiemCharset    = strutil.NewDict("a", "m", "p")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
diff --git a/internal/language/detector.go b/internal/language/detector.go
index 6033ae9..1d24390 100644
--- a/internal/language/detector.go
+++ b/internal/language/detector.go
@@ -81,10 +81,10 @@ func getLanguageCandidates(str string, languages []string, uniqueCharsets map[st
 		strCharset[r] = struct{}{}
 	}
 
-	// If this string only uses common chars, any language will do
+	// If this string only uses common chars and meridiems, any language will do
 	onlyUseCommon := true
 	for char := range strCharset {
-		if !unicode.Is(commonCharset, char) {
+		if !unicode.Is(commonCharset, char) && !meridiemCharset.Contain(string(unicode.ToLower(char))) {
 			onlyUseCommon = false
 			break
 		}
-- 
2.43.0


From 6c42106475aa59766e0731260a4b31ce706d32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:03 +0000
Subject: [PATCH 64/77] fix: do not split a sentence after the shortened name
 of a month

---
 internal/language/00-constant.go |  1 +
 internal/language/split.go       | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index a452305..b871a28 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -54,6 +54,7 @@ var (
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
 	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "decade", "hour", "minute", "second")
+	rxLeadingYear      = regexp.MustCompile(`^\d{4}\b`)
 	rxGluedAmount      = regexp.MustCompile(`^(\d+(?:[.,]\d+)?)(\pL+)$`)
 	rxCountedFreshWord = regexp.MustCompile(`^\d+(?:[.,]\d+)? (?:day|week|month|year|decade|hour|minute|second)$`)
 	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da")
diff --git a/internal/language/split.go b/internal/language/split.go
index c343608..5adcb91 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -81,6 +81,11 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 			continue
 		}
 
+		// If the period belongs to shortened name in front of a year, continue
+		if strings.TrimSpace(str[pos[3]:pos[1]]) == "." && rxLeadingYear.MatchString(str[pos[1]:]) && isShortName(ld, eos) {
+			continue
+		}
+
 		// If end of sentence is abbreviation, continue
 		if isAbbreviation(eos) {
 			continue
@@ -109,6 +114,23 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	return sentences
 }
 
+// isShortName checks if there are longer word in dictionary that has the same meaning.
+func isShortName(ld *data.LocaleData, word string) bool {
+	word = strutil.NormalizeString(word)
+	meanings, exist := ld.Translations[word]
+	if !exist || freshnessWords.Contain(meanings[0]) {
+		return false
+	}
+
+	for other, otherMeanings := range ld.Translations {
+		if len(other) > len(word) && slices.Contains(meanings, otherMeanings[0]) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func splitWithRegex(s string, rx *regexp.Regexp) string {
 	var tmp string
 	for {
-- 
2.43.0


From b2bb65752c1eb26956c9a79ed2d99e1961424cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 65/77] fix: translate the phrases of a search as a whole

---
 internal/language/translate-search.go | 45 ++++++++++++++++++---------
 internal/language/translate.go        | 11 ++-----
 internal/language/utils.go            | 12 +++++++
 3 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index f72579f..179e9bb 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -12,6 +12,9 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
 
+// maxPhraseWords is the maximum count of words in a phrase of dictionary.
+const maxPhraseWords = 8
+
 // TranslateSearch extracts the parts of `str` that might be a date, then returns every possible
 // translation of them along with their original text.
 func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string) ([]string, []string) {
@@ -42,22 +45,35 @@ func TranslateSearchChunks(cfg *setting.Configuration, ld *data.LocaleData, str
 	for _, sentence := range sentences {
 		var originalChunk []string
 		var translatedChunk [][]string
-		var skipNextToken bool
+		var nSkippedTokens int
 
 		originalTokens, simplifiedTokens := simplifySplitAlign(ld, sentence, skippedTokens)
 		lastTokenIndex := len(simplifiedTokens) - 1
 
 		for i, word := range simplifiedTokens {
-			var nextWord string
-			hasNextWord := i < lastTokenIndex
-			if hasNextWord {
-				nextWord = simplifiedTokens[i+1]
+			if nSkippedTokens > 0 {
+				nSkippedTokens--
+				continue
 			}
 
-			currentAndNextJoined := joinChunk(ld, word, nextWord)
-			if skipNextToken {
-				skipNextToken = false
-				continue
+			// Look for the longest phrase of dictionary that starts with this word
+			var phraseTranslations []string
+			nPhrase := min(maxPhraseWords, lastTokenIndex-i+1)
+			for ; nPhrase > 1; nPhrase-- {
+				phrase := joinChunk(ld, simplifiedTokens[i:i+nPhrase]...)
+				if translations, exist := translateWord(ld, phrase); exist {
+					phraseTranslations = translations
+					break
+				}
+
+				if !rxNumeral.MatchString(phrase) {
+					continue
+				}
+
+				if translation, exist := translateRelative(ld, phrase); exist {
+					phraseTranslations = []string{translation}
+					break
+				}
 			}
 
 			cleanedWord := strutil.TrimChars(word, `()"'{}[],.،`)
@@ -65,12 +81,11 @@ func TranslateSearchChunks(cfg *setting.Configuration, ld *data.LocaleData, str
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if hasNextWord && isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
-				translations, _ := translateWord(ld, currentAndNextJoined)
-				joinedOriginalToken := joinChunk(ld, originalTokens[i], originalTokens[i+1])
+			} else if nPhrase > 1 && !dashes.Contain(word) && !joinUnusable {
+				joinedOriginalToken := joinChunk(ld, originalTokens[i:i+nPhrase]...)
 
-				skipNextToken = true
-				translatedChunk = append(translatedChunk, translations)
+				nSkippedTokens = nPhrase - 1
+				translatedChunk = append(translatedChunk, phraseTranslations)
 				originalChunk = append(originalChunk, joinedOriginalToken)
 			} else if isInDictionary(ld, word) && !dashes.Contain(word) {
 				translations, _ := translateWord(ld, word)
@@ -129,7 +144,7 @@ func TranslateSearchChunks(cfg *setting.Configuration, ld *data.LocaleData, str
 
 func simplifySplitAlign(ld *data.LocaleData, str string, skippedTokens strutil.Dict) ([]string, []string) {
 	normalizeToken := func(token string) string {
-		token = strutil.NormalizeString(token)
+		token = strutil.NormalizeString(strutil.NormalizeAposthrope(token))
 		token = digit.NormalizeString(token)
 		return token
 	}
diff --git a/internal/language/translate.go b/internal/language/translate.go
index efa0bca..0e6b3e0 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -34,14 +34,9 @@ func Translate(cfg *setting.Configuration, ld *data.LocaleData, str string, keep
 
 		// Try to use regex to translate relative type
 		var translationFound bool
-		for _, data := range ld.RelativeTypeRegexes {
-			// The pattern must cover the entire token, e.g. `ha (\d+) s` is not for "ha 1 semana"
-			if loc := data.Rx.FindStringIndex(token); loc != nil && loc[0] == 0 && loc[1] == len(token) {
-				translation := data.Rx.ReplaceAllString(token, data.Replacement)
-				translatedTokens[i] = []string{translation}
-				translationFound = true
-				break
-			}
+		if translation, exist := translateRelative(ld, token); exist {
+			translatedTokens[i] = []string{translation}
+			translationFound = true
 		}
 
 		// If not found, look in dictionary
diff --git a/internal/language/utils.go b/internal/language/utils.go
index dcc5b1f..b6341a5 100644
--- a/internal/language/utils.go
+++ b/internal/language/utils.go
@@ -60,6 +60,18 @@ func isInDictionary(ld *data.LocaleData, word string) bool {
 	return exist
 }
 
+// translateRelative translates a relative phrase that has number, e.g. "vor 3 Tagen".
+func translateRelative(ld *data.LocaleData, phrase string) (string, bool) {
+	for _, data := range ld.RelativeTypeRegexes {
+		// The pattern must cover the entire phrase, e.g. `ha (\d+) s` is not for "ha 1 semana"
+		if loc := data.Rx.FindStringIndex(phrase); loc != nil && loc[0] == 0 && loc[1] == len(phrase) {
+			return data.Rx.ReplaceAllString(phrase, data.Replacement), true
+		}
+	}
+
+	return "", false
+}
+
 // maxPermutations is the limit for the count of permutations, which grows exponentially
 // with the count of ambiguous words. It's far above what needed by a real date.
 const maxPermutations = 16
-- 
2.43.0


From 0db63e69e79ddf576f3830fe9804abb3b654e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 66/77] fix: keep the am of an hour after a bracket or a day
 when searching dates

---
 search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.go b/search.go
index 324339f..cad0611 100644
--- a/search.go
+++ b/search.go
@@ -21,7 +21,7 @@ var (
 	relativeWords = []string{"ago", "in", "from now", "tomorrow", "today", "yesterday"}
 
 	// rxExceptClockAm is used to remove every "am", except the one that follows a clock or an hour.
-	rxExceptClockAm = regexp.MustCompile(`(:\d{2}\s*am|(?:^|\bat |\b\d{4},? +|-\d{2} +|day,? +|\d[ -]\pL+ +)(?:0?\d|1[0-2])\s*am\b)|am`)
+	rxExceptClockAm = regexp.MustCompile(`(:\d{2}\s*am|(?:^[("'\[{]*|\bat |\b\d{4},? +|-\d{2} +|day,? +|\d[ -]\pL+ +|\pL\.? \d{1,2} +)(?:0?\d|1[0-2])\s*am\b)|am`)
 )
 
 type SearchResult struct {
-- 
2.43.0


From 073062e8345a9f978309050d562c8747b60e34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 67/77] fix: translate the words next to a punctuation when
 searching dates

---
 internal/language/translate-search.go | 28 +++++++++++++++++++++------
 internal/language/translate.go        |  3 ++-
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 179e9bb..25b1291 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -15,6 +15,9 @@ import (
 // maxPhraseWords is the maximum count of words in a phrase of dictionary.
 const maxPhraseWords = 8
 
+// wordPunctuations are the punctuations that might be written right before or after a word.
+const wordPunctuations = `()"'{}[],.،`
+
 // TranslateSearch extracts the parts of `str` that might be a date, then returns every possible
 // translation of them along with their original text.
 func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string) ([]string, []string) {
@@ -60,9 +63,11 @@ func TranslateSearchChunks(cfg *setting.Configuration, ld *data.LocaleData, str
 			var phraseTranslations []string
 			nPhrase := min(maxPhraseWords, lastTokenIndex-i+1)
 			for ; nPhrase > 1; nPhrase-- {
-				phrase := joinChunk(ld, simplifiedTokens[i:i+nPhrase]...)
+				joinedTokens := joinChunk(ld, simplifiedTokens[i:i+nPhrase]...)
+				phrase := strutil.TrimChars(joinedTokens, wordPunctuations)
+				prefix, suffix, _ := strings.Cut(joinedTokens, phrase)
 				if translations, exist := translateWord(ld, phrase); exist {
-					phraseTranslations = translations
+					phraseTranslations = wrapAll(prefix, translations, suffix)
 					break
 				}
 
@@ -71,12 +76,12 @@ func TranslateSearchChunks(cfg *setting.Configuration, ld *data.LocaleData, str
 				}
 
 				if translation, exist := translateRelative(ld, phrase); exist {
-					phraseTranslations = []string{translation}
+					phraseTranslations = wrapAll(prefix, []string{translation}, suffix)
 					break
 				}
 			}
 
-			cleanedWord := strutil.TrimChars(word, `()"'{}[],.،`)
+			cleanedWord := strutil.TrimChars(word, wordPunctuations)
 
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
@@ -251,7 +256,9 @@ func tokenWithDigitsIsOk(ld *data.LocaleData, token string) bool {
 
 // separateUnit separates an amount from its unit, e.g. "5sec" becomes "5 second".
 func separateUnit(ld *data.LocaleData, token string) string {
-	parts := rxGluedAmount.FindStringSubmatch(token)
+	trimmed := strutil.TrimChars(token, wordPunctuations)
+	prefix, suffix, _ := strings.Cut(token, trimmed)
+	parts := rxGluedAmount.FindStringSubmatch(trimmed)
 	if parts == nil {
 		return token
 	}
@@ -261,7 +268,16 @@ func separateUnit(ld *data.LocaleData, token string) string {
 		return token
 	}
 
-	return parts[1] + " " + translations[0]
+	return prefix + parts[1] + " " + translations[0] + suffix
+}
+
+// wrapAll puts the prefix and the suffix around each of the words.
+func wrapAll(prefix string, words []string, suffix string) []string {
+	wrapped := make([]string, len(words))
+	for i, word := range words {
+		wrapped[i] = prefix + word + suffix
+	}
+	return wrapped
 }
 
 func insertSlice(list []string, i int, s string) []string {
diff --git a/internal/language/translate.go b/internal/language/translate.go
index 0e6b3e0..8ab2904 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -105,7 +105,8 @@ func clearFutureWords(words []string) []string {
 	var hasFreshness bool
 	var wordsWithoutIn []string
 	for _, word := range words {
-		isFreshWord := freshnessWords.Contain(word) || rxCountedFreshWord.MatchString(word)
+		trimmed := strutil.TrimChars(word, wordPunctuations)
+		isFreshWord := freshnessWords.Contain(trimmed) || rxCountedFreshWord.MatchString(trimmed)
 		hasFreshness = hasFreshness || isFreshWord
 
 		if word != "in" {
-- 
2.43.0


From 5c0504acafe29da14b921fc4715ad1fb9f482567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 68/77] fix: take a word as time zone only as a whole when
 searching dates

---
 internal/timezone/parser.go     | 2 +-
 internal/timezone/tz-offsets.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 2f37d5e..3ee9551 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -24,5 +24,5 @@ func PopTzOffset(str string) (string, OffsetData) {
 
 // WordIsTz check if the specified word is a timezone code.
 func WordIsTz(word string) bool {
-	return rxSearch.MatchString(word)
+	return rxWord.MatchString(word)
 }
diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index 90c5b03..5d43112 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -20,7 +20,7 @@ func (tod OffsetData) IsZero() bool {
 	return tod.Name == "" && tod.Regex == nil && tod.Offset == 0
 }
 
-var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regexp.Regexp, *regexp.Regexp) {
+var timezoneOffsets, rxWord, rxSearchIgnoreCase = func() ([]OffsetData, *regexp.Regexp, *regexp.Regexp) {
 	// Process timezone info list
 	offsets := []OffsetData{}
 	regexPatterns := map[string]struct{}{}
@@ -77,7 +77,7 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	sort.Strings(patterns)
 	strSearchPatterns := strings.Join(patterns, "|")
 
-	rxSearch := regexp.MustCompile(strSearchPatterns)
+	rxWord := regexp.MustCompile(`(?:^|\PL)(?:` + strSearchPatterns + `)(?:\PL|$)`)
 	rxSearchIgnoreCase := regexp.MustCompile("(?i)" + strSearchPatterns)
-	return offsets, rxSearch, rxSearchIgnoreCase
+	return offsets, rxWord, rxSearchIgnoreCase
 }()
-- 
2.43.0


From 87f48dd10b7e2d0b94f8eefca17ee5cca4890808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:50 +0000
Subject: [PATCH 69/77] fix: search the phrases whose words are shortened or
 have an apostrophe

---
 internal/language/split.go            | 49 +++++++++++++++++++++--
 internal/language/translate-search.go | 56 +++++++++++++++++----------
 internal/strutil/strutil.go           |  7 +++-
 3 files changed, 87 insertions(+), 25 deletions(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index 5adcb91..658e5fe 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -81,9 +81,16 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 			continue
 		}
 
-		// If the period belongs to shortened name in front of a year, continue
-		if strings.TrimSpace(str[pos[3]:pos[1]]) == "." && rxLeadingYear.MatchString(str[pos[1]:]) && isShortName(ld, eos) {
-			continue
+		if strings.TrimSpace(str[pos[3]:pos[1]]) == "." {
+			// If the period belongs to shortened name in front of a year, continue
+			if rxLeadingYear.MatchString(str[pos[1]:]) && isShortName(ld, eos) {
+				continue
+			}
+
+			// If the period is inside a phrase of dictionary, continue
+			if isInsidePhrase(ld, str[lastPosition:pos[3]], str[pos[3]:]) {
+				continue
+			}
 		}
 
 		// If end of sentence is abbreviation, continue
@@ -116,7 +123,8 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 
 // isShortName checks if there are longer word in dictionary that has the same meaning.
 func isShortName(ld *data.LocaleData, word string) bool {
-	word = strutil.NormalizeString(word)
+	word = strutil.NormalizeString(strutil.NormalizeAposthrope(word))
+	word = strutil.TrimChars(word, wordPunctuations)
 	meanings, exist := ld.Translations[word]
 	if !exist || freshnessWords.Contain(meanings[0]) {
 		return false
@@ -131,6 +139,39 @@ func isShortName(ld *data.LocaleData, word string) bool {
 	return false
 }
 
+// isInsidePhrase checks if there is a phrase in dictionary that started with the words at the end
+// of `before` and continued with the words at the beginning of `after`.
+func isInsidePhrase(ld *data.LocaleData, before, after string) bool {
+	// Only use the words in the same line
+	before = before[strings.LastIndexAny(before, "\r\n")+1:]
+	if idx := strings.IndexAny(after, "\r\n"); idx >= 0 {
+		after = after[:idx]
+	}
+
+	words := strings.Fields(before + after)
+	nBefore := len(strings.Fields(before))
+	if nBefore == 0 || len(words) == 0 {
+		return false
+	}
+
+	// The first period of `after` might be at the end of the word, or inside of it
+	nInside := 1
+	if runes := []rune(after); len(runes) > 1 && !unicode.IsSpace(runes[1]) {
+		nInside = 0
+	}
+
+	for start := max(nBefore-maxPhraseWords/2, 0); start < nBefore; start++ {
+		for end := nBefore + nInside; end <= min(nBefore+maxPhraseWords/2, len(words)); end++ {
+			phrase := strutil.NormalizeString(strutil.NormalizeAposthrope(strings.Join(words[start:end], " ")))
+			if translations, _, _ := translatePhrase(ld, phrase); len(translations) > 0 {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 func splitWithRegex(s string, rx *regexp.Regexp) string {
 	var tmp string
 	for {
diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 25b1291..bff5b79 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -16,7 +16,10 @@ import (
 const maxPhraseWords = 8
 
 // wordPunctuations are the punctuations that might be written right before or after a word.
-const wordPunctuations = `()"'{}[],.،`
+const wordPunctuations = bracketPunctuations + `'`
+
+// bracketPunctuations are the punctuations that never be a part of a word.
+const bracketPunctuations = `()"{}[],.،`
 
 // TranslateSearch extracts the parts of `str` that might be a date, then returns every possible
 // translation of them along with their original text.
@@ -63,25 +66,18 @@ func TranslateSearchChunks(cfg *setting.Configuration, ld *data.LocaleData, str
 			var phraseTranslations []string
 			nPhrase := min(maxPhraseWords, lastTokenIndex-i+1)
 			for ; nPhrase > 1; nPhrase-- {
-				joinedTokens := joinChunk(ld, simplifiedTokens[i:i+nPhrase]...)
-				phrase := strutil.TrimChars(joinedTokens, wordPunctuations)
-				prefix, suffix, _ := strings.Cut(joinedTokens, phrase)
-				if translations, exist := translateWord(ld, phrase); exist {
+				phrase := joinChunk(ld, simplifiedTokens[i:i+nPhrase]...)
+				if translations, prefix, suffix := translatePhrase(ld, phrase); len(translations) > 0 {
 					phraseTranslations = wrapAll(prefix, translations, suffix)
 					break
 				}
-
-				if !rxNumeral.MatchString(phrase) {
-					continue
-				}
-
-				if translation, exist := translateRelative(ld, phrase); exist {
-					phraseTranslations = wrapAll(prefix, []string{translation}, suffix)
-					break
-				}
 			}
 
-			cleanedWord := strutil.TrimChars(word, wordPunctuations)
+			cleanedWord := strutil.TrimChars(word, bracketPunctuations)
+			if !isInDictionary(ld, strutil.RemovePeriods(cleanedWord)) {
+				cleanedWord = strutil.TrimChars(word, wordPunctuations)
+			}
+			cleanedTranslations, isCleanedWord := translateWord(ld, strutil.RemovePeriods(cleanedWord))
 
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
@@ -96,18 +92,17 @@ func TranslateSearchChunks(cfg *setting.Configuration, ld *data.LocaleData, str
 				translations, _ := translateWord(ld, word)
 				translatedChunk = append(translatedChunk, translations)
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if isInDictionary(ld, cleanedWord) && !dashes.Contain(word) {
+			} else if isCleanedWord && !dashes.Contain(word) {
 				prefix, suffix, _ := strings.Cut(word, cleanedWord)
-				translations, _ := translateWord(ld, cleanedWord)
-				for i, translation := range translations {
+				for i, translation := range cleanedTranslations {
 					// A skipped word that opens another phrase is not translated
 					if translation == "" && prefix != "" {
 						translation = cleanedWord
 					}
-					translations[i] = prefix + translation + suffix
+					cleanedTranslations[i] = prefix + translation + suffix
 				}
 
-				translatedChunk = append(translatedChunk, translations)
+				translatedChunk = append(translatedChunk, cleanedTranslations)
 				originalChunk = append(originalChunk, originalTokens[i])
 			} else if tokenWithDigitsIsOk(ld, word) {
 				translatedChunk = append(translatedChunk, []string{separateUnit(ld, word)})
@@ -271,6 +266,27 @@ func separateUnit(ld *data.LocaleData, token string) string {
 	return prefix + parts[1] + " " + translations[0] + suffix
 }
 
+// translatePhrase translates a phrase, which might have punctuations around it. It returns the
+// translations of the phrase along with the text before and after it.
+func translatePhrase(ld *data.LocaleData, str string) (translations []string, prefix, suffix string) {
+	for _, punctuations := range []string{"", bracketPunctuations, wordPunctuations} {
+		phrase := strutil.TrimChars(str, punctuations)
+		prefix, suffix, _ = strings.Cut(str, phrase)
+		phrase = strutil.RemovePeriods(phrase)
+		if translations, exist := translateWord(ld, phrase); exist {
+			return translations, prefix, suffix
+		}
+
+		if rxNumeral.MatchString(phrase) {
+			if translation, exist := translateRelative(ld, phrase); exist {
+				return []string{translation}, prefix, suffix
+			}
+		}
+	}
+
+	return nil, "", ""
+}
+
 // wrapAll puts the prefix and the suffix around each of the words.
 func wrapAll(prefix string, words []string, suffix string) []string {
 	wrapped := make([]string, len(words))
diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index e77b98d..f7d594a 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -110,6 +110,11 @@ func NormalizeString(str string) string {
 	return str
 }
 
+// RemovePeriods removes every period that follows a letter, e.g. the ones in shortened words.
+func RemovePeriods(s string) string {
+	return rxSanitizePeriod.ReplaceAllString(s, "$1")
+}
+
 // SanitizeDate is used to sanitize the specified date string before
 // it parsed by the parser.
 func SanitizeDate(s string) string {
@@ -119,7 +124,7 @@ func SanitizeDate(s string) string {
 	s = rxSanitizeRussian.ReplaceAllString(s, "$1 ")        // remove 'г.' (Russian for year) but not in words
 	s = rxSanitizeCroatian.ReplaceAllString(s, "$1.$2.$3 ") // extra '.' and 'u' interferes with parsing relative fractional dates
 	s = SanitizeSpaces(s)
-	s = rxSanitizePeriod.ReplaceAllString(s, "$1")
+	s = RemovePeriods(s)
 	s = rxSanitizeOn.ReplaceAllString(s, "$1")
 	s = strings.TrimSuffix(s, ":")
 	s = NormalizeAposthrope(s)
-- 
2.43.0


From 834cbb10447b062488886602ef14eaa54725da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:19 +0000
Subject: [PATCH 70/77] fix: do not split a sentence after the day or the year
 of a date

---
 internal/language/00-constant.go |  4 ++++
 internal/language/split.go       | 25 ++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index b871a28..faf903a 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -54,6 +54,10 @@ var (
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
 	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "decade", "hour", "minute", "second")
+	monthNames         = strutil.NewDict("january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december")
+	rxShortNumber      = regexp.MustCompile(`^\d{1,2}$`)
+	rxRussianYear      = regexp.MustCompile(`\d\s*г$`)
+	rxDateRemainder    = regexp.MustCompile(`^[\p{Ll}\d]`)
 	rxLeadingYear      = regexp.MustCompile(`^\d{4}\b`)
 	rxGluedAmount      = regexp.MustCompile(`^(\d+(?:[.,]\d+)?)(\pL+)$`)
 	rxCountedFreshWord = regexp.MustCompile(`^\d+(?:[.,]\d+)? (?:day|week|month|year|decade|hour|minute|second)$`)
diff --git a/internal/language/split.go b/internal/language/split.go
index 658e5fe..967805c 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -87,6 +87,16 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 				continue
 			}
 
+			// If the period belongs to day in front of a month, continue
+			if rxShortNumber.MatchString(strutil.TrimChars(eos, bracketPunctuations)) && startsWithMonth(ld, str[pos[1]:]) {
+				continue
+			}
+
+			// If the period belongs to Russian shortened word for year, continue
+			if rxRussianYear.MatchString(str[lastPosition:pos[3]]) && rxDateRemainder.MatchString(str[pos[1]:]) {
+				continue
+			}
+
 			// If the period is inside a phrase of dictionary, continue
 			if isInsidePhrase(ld, str[lastPosition:pos[3]], str[pos[3]:]) {
 				continue
@@ -99,7 +109,7 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 		}
 
 		// If this language use digit abbreviation, make sure end of sentence is not number
-		if useDigitAbbrs && strutil.IsNumberOnly(eos) {
+		if useDigitAbbrs && strutil.IsNumberOnly(strutil.TrimChars(eos, bracketPunctuations)) {
 			continue
 		}
 
@@ -121,6 +131,19 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	return sentences
 }
 
+// startsWithMonth checks if the first word of the string is a month.
+func startsWithMonth(ld *data.LocaleData, str string) bool {
+	words := strings.Fields(str)
+	if len(words) == 0 {
+		return false
+	}
+
+	word := strutil.NormalizeString(strutil.NormalizeAposthrope(words[0]))
+	word = strutil.TrimChars(strutil.RemovePeriods(word), wordPunctuations)
+	meanings, _ := translateWord(ld, word)
+	return slices.ContainsFunc(meanings, monthNames.Contain)
+}
+
 // isShortName checks if there are longer word in dictionary that has the same meaning.
 func isShortName(ld *data.LocaleData, word string) bool {
 	word = strutil.NormalizeString(strutil.NormalizeAposthrope(word))
-- 
2.43.0


From 019206df05b08d83efabaa42f8ba840b2d07207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:26 +0000
Subject: [PATCH 71/77] fix: keep nothing of the Ukrainian words for one and
 two
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The patterns of these words have a group that is not counted by the replacement, so "дві
години" became "2і години" and none of their phrases could be read.
---
 data-supplementary/date-translation/uk.yaml | 4 ++--
 internal/data/uk.go                         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/data-supplementary/date-translation/uk.yaml b/data-supplementary/date-translation/uk.yaml
index e23a431..999eb39 100644
--- a/data-supplementary/date-translation/uk.yaml
+++ b/data-supplementary/date-translation/uk.yaml
@@ -154,8 +154,8 @@ relative-type-regex:
     - (\d+[.,]?\d*) секунда тому
 
 simplifications:
-  - од(на|ну|ні|ної|нієї|ин|ній): '1'
-  - дв(а|і|оє|ох): '2'
+  - од(?:на|ну|ні|ної|нієї|ин|ній): '1'
+  - дв(?:а|і|оє|ох): '2'
   - пар[ауі]: '2'
   - три: '3'
   - чотири: '4'
diff --git a/internal/data/uk.go b/internal/data/uk.go
index 6bacba0..a53c652 100755
--- a/internal/data/uk.go
+++ b/internal/data/uk.go
@@ -15,8 +15,8 @@ func init() {
 		Charset:               []rune(`cgtuzабвгдежзийклмнопрстухцчьюяєії`),
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])од(на|ну|ні|ноі|нієі|ин|ніи)(\z|[^\pL\pM\d_])`), "${1}1${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])дв(а|і|оє|ох)(\z|[^\pL\pM\d_])`), "${1}2${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])од(?:на|ну|ні|ноі|нієі|ин|ніи)(\z|[^\pL\pM\d_])`), "${1}1${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])дв(?:а|і|оє|ох)(\z|[^\pL\pM\d_])`), "${1}2${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])пар[ауі](\z|[^\pL\pM\d_])`), "${1}2${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])три(\z|[^\pL\pM\d_])`), "${1}3${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])чотири(\z|[^\pL\pM\d_])`), "${1}4${2}"},
-- 
2.43.0


From 1821af87f9fbcccb923ae1c08868b8aaab3d83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 72/77] =?UTF-8?q?fix:=20read=20Vietnamese=20amounts=20that?=
 =?UTF-8?q?=20are=20followed=20by=20"tr=C6=B0=E1=BB=9Bc=20=C4=91=C3=A2y"?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The patterns of the amounts only know the short "trước", so the remaining "đây" made the
phrase unreadable, although the long form is one of the words for ago.
---
 data-supplementary/date-translation/vi.yaml | 16 ++++++++++++++++
 internal/data/vi.go                         | 11 +++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/data-supplementary/date-translation/vi.yaml b/data-supplementary/date-translation/vi.yaml
index a8d85e9..bda8361 100644
--- a/data-supplementary/date-translation/vi.yaml
+++ b/data-supplementary/date-translation/vi.yaml
@@ -66,5 +66,21 @@ ago:
 in:
   - trong
 
+relative-type-regex:
+  \1 month ago:
+    - (\d+[.,]?\d*) tháng trước đây
+  \1 second ago:
+    - (\d+[.,]?\d*) giây trước đây
+  \1 day ago:
+    - (\d+[.,]?\d*) ngày trước đây
+  \1 minute ago:
+    - (\d+[.,]?\d*) phút trước đây
+  \1 week ago:
+    - (\d+[.,]?\d*) tuần trước đây
+  \1 hour ago:
+    - (\d+[.,]?\d*) giờ trước đây
+  \1 year ago:
+    - (\d+[.,]?\d*) năm trước đây
+
 simplifications:
   - (?:ngày|năm)\s(\d+[.,]?\d*): \1
diff --git a/internal/data/vi.go b/internal/data/vi.go
index 4244bbe..b5e188d 100755
--- a/internal/data/vi.go
+++ b/internal/data/vi.go
@@ -135,6 +135,13 @@ func init() {
 			"nam sau":     "in 1 year",
 		},
 		RelativeTypeRegexes: []ReplacementData{
+			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) thang truoc đay`), "$1 month ago"},
+			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) giay truoc đay`), "$1 second ago"},
+			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) ngay truoc đay`), "$1 day ago"},
+			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) phut truoc đay`), "$1 minute ago"},
+			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) tuan truoc đay`), "$1 week ago"},
+			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) gio truoc đay`), "$1 hour ago"},
+			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) nam truoc đay`), "$1 year ago"},
 			{regexp.MustCompile(`(?i)sau (\d+[.,]?\d*) thang nua`), "in $1 month"},
 			{regexp.MustCompile(`(?i)sau (\d+[.,]?\d*) giay nua`), "in $1 second"},
 			{regexp.MustCompile(`(?i)sau (\d+[.,]?\d*) ngay nua`), "in $1 day"},
@@ -150,8 +157,8 @@ func init() {
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) gio truoc`), "$1 hour ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) nam truoc`), "$1 year ago"},
 		},
-		RxCombined:      regexp.MustCompile(`(?i)(\A|[^\pL\pM\d]|_)(sau \d+[.,]?\d* thang nua|sau \d+[.,]?\d* giay nua|sau \d+[.,]?\d* ngay nua|sau \d+[.,]?\d* phut nua|sau \d+[.,]?\d* tuan nua|\d+[.,]?\d* thang truoc|sau \d+[.,]?\d* gio nua|sau \d+[.,]?\d* nam nua|\d+[.,]?\d* giay truoc|\d+[.,]?\d* ngay truoc|\d+[.,]?\d* phut truoc|\d+[.,]?\d* tuan truoc|\d+[.,]?\d* gio truoc|\d+[.,]?\d* nam truoc)(\z|[^\pL\pM\d]|_)`),
-		RxExactCombined: regexp.MustCompile(`(?i)^(sau \d+[.,]?\d* thang nua|sau \d+[.,]?\d* giay nua|sau \d+[.,]?\d* ngay nua|sau \d+[.,]?\d* phut nua|sau \d+[.,]?\d* tuan nua|\d+[.,]?\d* thang truoc|sau \d+[.,]?\d* gio nua|sau \d+[.,]?\d* nam nua|\d+[.,]?\d* giay truoc|\d+[.,]?\d* ngay truoc|\d+[.,]?\d* phut truoc|\d+[.,]?\d* tuan truoc|\d+[.,]?\d* gio truoc|\d+[.,]?\d* nam truoc)$`),
+		RxCombined:      regexp.MustCompile(`(?i)(\A|[^\pL\pM\d]|_)(\d+[.,]?\d* thang truoc đay|\d+[.,]?\d* giay truoc đay|\d+[.,]?\d* ngay truoc đay|\d+[.,]?\d* phut truoc đay|\d+[.,]?\d* tuan truoc đay|\d+[.,]?\d* gio truoc đay|\d+[.,]?\d* nam truoc đay|sau \d+[.,]?\d* thang nua|sau \d+[.,]?\d* giay nua|sau \d+[.,]?\d* ngay nua|sau \d+[.,]?\d* phut nua|sau \d+[.,]?\d* tuan nua|\d+[.,]?\d* thang truoc|sau \d+[.,]?\d* gio nua|sau \d+[.,]?\d* nam nua|\d+[.,]?\d* giay truoc|\d+[.,]?\d* ngay truoc|\d+[.,]?\d* phut truoc|\d+[.,]?\d* tuan truoc|\d+[.,]?\d* gio truoc|\d+[.,]?\d* nam truoc)(\z|[^\pL\pM\d]|_)`),
+		RxExactCombined: regexp.MustCompile(`(?i)^(\d+[.,]?\d* thang truoc đay|\d+[.,]?\d* giay truoc đay|\d+[.,]?\d* ngay truoc đay|\d+[.,]?\d* phut truoc đay|\d+[.,]?\d* tuan truoc đay|\d+[.,]?\d* gio truoc đay|\d+[.,]?\d* nam truoc đay|sau \d+[.,]?\d* thang nua|sau \d+[.,]?\d* giay nua|sau \d+[.,]?\d* ngay nua|sau \d+[.,]?\d* phut nua|sau \d+[.,]?\d* tuan nua|\d+[.,]?\d* thang truoc|sau \d+[.,]?\d* gio nua|sau \d+[.,]?\d* nam nua|\d+[.,]?\d* giay truoc|\d+[.,]?\d* ngay truoc|\d+[.,]?\d* phut truoc|\d+[.,]?\d* tuan truoc|\d+[.,]?\d* gio truoc|\d+[.,]?\d* nam truoc)$`),
 		KnownWords:      []string{"thang muoi hai", "thang muoi mot", "giay đong ho", "thang truoc", "nguyen ban", "thang chin", "thang muoi", "tuan truoc", "nam ngoai", "thang bay", "thang hai", "thang mot", "thang nam", "thang nay", "thang sau", "thang tam", "truoc đay", "ban ngay", "cach đay", "chu nhat", "hang nhi", "ngay mai", "phut nay", "thang 10", "thang 11", "thang 12", "thang ba", "thang tu", "tuan nay", "tuan sau", "bay gio", "gio nay", "hom nay", "hom qua", "nam nay", "nam sau", "thang 1", "thang 2", "thang 3", "thang 4", "thang 5", "thang 6", "thang 7", "thang 8", "thang 9", "thu bay", "thu hai", "thu nam", "thu sau", "tuan le", "thg 10", "thg 11", "thg 12", "thu ba", "thu tu", "thang", "thg 1", "thg 2", "thg 3", "thg 4", "thg 5", "thg 6", "thg 7", "thg 8", "thg 9", "thu 1", "thu 2", "thu 3", "thu 4", "thu 5", "thu 6", "thu 7", "trong", "truoc", "buoi", "chut", "giay", "ngay", "phut", "th 2", "th 3", "th 4", "th 5", "th 6", "th 7", "tuan", "gio", "gmt", "lat", "luc", "nam", "thg", "utc", "am", "ch", "cn", "pm", "sa", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "z", "|"},
 	})
 }
-- 
2.43.0


From c56e0623db3a05cb1319b6b001e51d34ea0e3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 73/77] fix: read the Vietnamese name of May before a year
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The word for five is also the word for year, so "tháng năm 2014" lost it as a mark of the
year and no month remained.
---
 data-supplementary/date-translation/vi.yaml | 1 +
 internal/data/vi.go                         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/data-supplementary/date-translation/vi.yaml b/data-supplementary/date-translation/vi.yaml
index bda8361..02fb58e 100644
--- a/data-supplementary/date-translation/vi.yaml
+++ b/data-supplementary/date-translation/vi.yaml
@@ -83,4 +83,5 @@ relative-type-regex:
     - (\d+[.,]?\d*) năm trước đây
 
 simplifications:
+  - tháng năm\s(\d+): tháng 5 \1
   - (?:ngày|năm)\s(\d+[.,]?\d*): \1
diff --git a/internal/data/vi.go b/internal/data/vi.go
index b5e188d..ee09a29 100755
--- a/internal/data/vi.go
+++ b/internal/data/vi.go
@@ -15,6 +15,7 @@ func init() {
 		Charset:               []rune(`bceghilnorstuyzàáâêìíôúăđưạảầậểồổộớờủứ`),
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])thang nam\s(\d+)(\z|[^\pL\pM\d_])`), "${1}thang 5 ${2}${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(?:ngay|nam)\s(\d+[.,]?\d*)(\z|[^\pL\pM\d_])`), "${1}${2}${3}"},
 		},
 		Translations: map[string][]string{
-- 
2.43.0


From 675a0b204b7603516cf66a4fa29e0dcbccb58f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:16 +0000
Subject: [PATCH 74/77] fix: read "a. m." and "p. m." written with a space in
 Spanish and Catalan

They are the forms that Unicode prescribes for these languages; "6:37 a. m." was read as 37 years ago.
---
 data-supplementary/date-translation/ca.yaml | 1 +
 data-supplementary/date-translation/es.yaml | 1 +
 internal/data/ca.go                         | 1 +
 internal/data/es.go                         | 1 +
 4 files changed, 4 insertions(+)

diff --git a/data-supplementary/date-translation/ca.yaml b/data-supplementary/date-translation/ca.yaml
index 49dd68f..28b0b1f 100644
--- a/data-supplementary/date-translation/ca.yaml
+++ b/data-supplementary/date-translation/ca.yaml
@@ -25,5 +25,6 @@ relative-type:
         - la propera setmana
 
 simplifications:
+    - (\d+)\s+([ap])\s+m: \1 \2m
     - una: '1'
     - un: '1'
diff --git a/data-supplementary/date-translation/es.yaml b/data-supplementary/date-translation/es.yaml
index e83ef7a..9f49897 100644
--- a/data-supplementary/date-translation/es.yaml
+++ b/data-supplementary/date-translation/es.yaml
@@ -46,5 +46,6 @@ relative-type:
         - anteayer
 
 simplifications:
+    - (\d+)\s+([ap])\s+m: \1 \2m
     - una: '1'
     - un: '1'
diff --git a/internal/data/ca.go b/internal/data/ca.go
index 7bedb91..d77e35d 100755
--- a/internal/data/ca.go
+++ b/internal/data/ca.go
@@ -17,6 +17,7 @@ func init() {
 		DateOrder: "DMY",
 		Charset:   []rune(`-bcdefghijlnorstuvxyzàçòú`),
 		Simplifications: []ReplacementData{
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+)\s+([ap])\s+m(\z|[^\pL\pM\d_])`), "${1}${2} ${3}m${4}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])una(\z|[^\pL\pM\d_])`), "${1}1${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])un(\z|[^\pL\pM\d_])`), "${1}1${2}"},
 		},
diff --git a/internal/data/es.go b/internal/data/es.go
index b0b8c8e..810b3e9 100755
--- a/internal/data/es.go
+++ b/internal/data/es.go
@@ -42,6 +42,7 @@ func init() {
 		Charset:               []rune(`bcdefghijlnorstuvxyzáéíñó`),
 		SentenceSplitterGroup: 2,
 		Simplifications: []ReplacementData{
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+)\s+([ap])\s+m(\z|[^\pL\pM\d_])`), "${1}${2} ${3}m${4}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])una(\z|[^\pL\pM\d_])`), "${1}1${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])un(\z|[^\pL\pM\d_])`), "${1}1${2}"},
 		},
-- 
2.43.0


From d886eb2193c07ac9c4380aa86164f344dd50acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:16 +0000
Subject: [PATCH 75/77] fix: read a Japanese date that a weekday follows
 directly
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"2037年5月11日月曜日" was read as 2037-5-11月 (November) and failed for every Monday.
---
 data-supplementary/date-translation/ja.yaml | 1 +
 internal/data/ja.go                         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/data-supplementary/date-translation/ja.yaml b/data-supplementary/date-translation/ja.yaml
index 73eb0f7..a8eca5d 100644
--- a/data-supplementary/date-translation/ja.yaml
+++ b/data-supplementary/date-translation/ja.yaml
@@ -79,6 +79,7 @@ relative-type:
     - 明後日
 
 simplifications:
+  - 日([月火水木金土日]曜): 日 \1
   - (\d+[.,]?\d*)年(?:\s+)?(\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日: \1-\2-\3
   - (\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日: \1-\2
   - (\d+[.,]?\d*)時(?:\s+)?(\d+[.,]?\d*)分(?:\s+)?(\d+[.,]?\d*)秒: \1:\2:\3
diff --git a/internal/data/ja.go b/internal/data/ja.go
index 1557c45..36e0c1f 100755
--- a/internal/data/ja.go
+++ b/internal/data/ja.go
@@ -16,6 +16,7 @@ func init() {
 		Charset:               []rune(`cgtuz々かてでのらカヶ一七三九二五今以先八六内分前十午去四土在年後日明昨時曜月木水火現秒約翌週金間`),
 		SentenceSplitterGroup: 4,
 		Simplifications: []ReplacementData{
+			{regexp.MustCompile(`(?i)日([月火水木金土日]曜)`), "日 ${1}"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*)年(?:\s+)?(\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日`), "${1}-${2}-${3}"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日`), "${1}-${2}"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*)時(?:\s+)?(\d+[.,]?\d*)分(?:\s+)?(\d+[.,]?\d*)秒`), "${1}:${2}:${3}"},
-- 
2.43.0


From 1b108706cdcbb64026eb01854eed8300f69d6f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:52 +0000
Subject: [PATCH 76/77] fix: find a known word that also begins a longer word
 before it

"Les lundis sont durs mais lundi est pire" had no known word for the detection of the language: only the first place
of "lundi" was looked at, which is inside of "lundis".
---
 internal/language/split.go | 47 +++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index 967805c..97f3397 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -272,36 +272,45 @@ func findMatchingKnownWord(ld *data.LocaleData, str string) []string {
 	lastPos := -1
 	var candidates []string
 	for _, knownWord := range ld.KnownWords {
-		wordLen := len(knownWord)
-		pos := strings.Index(str, knownWord)
+		pos := findWord(str, knownWord, ld.NoWordSpacing)
 		if pos < 0 {
 			continue
 		}
 
-		prefix := str[:pos]
-		match := str[pos : pos+wordLen]
-		suffix := str[pos+wordLen:]
+		if lastPos == -1 || pos < lastPos {
+			lastPos = pos
+			end := pos + len(knownWord)
+			candidates = []string{str, str[:pos], str[pos:end], str[end:]}
+		}
 
-		prefixMatch := true
-		suffixMatch := true
-		if !ld.NoWordSpacing {
-			prefixMatch = checkKnownWordNeighbor(prefix, true)
-			suffixMatch = checkKnownWordNeighbor(suffix, false)
+		if pos == 0 {
+			return candidates
 		}
+	}
 
-		if prefixMatch && suffixMatch {
-			if lastPos == -1 || pos < lastPos {
-				lastPos = pos
-				candidates = []string{str, prefix, match, suffix}
-			}
+	return candidates
+}
 
-			if pos == 0 {
-				return candidates
-			}
+// findWord returns the index of the first place where the word stands on its own, or -1 if there
+// is none. In languages without word spacing the word may stand anywhere.
+func findWord(str, word string, noWordSpacing bool) int {
+	for from := 0; from < len(str); {
+		pos := strings.Index(str[from:], word)
+		if pos < 0 {
+			return -1
+		}
+
+		pos += from
+		end := pos + len(word)
+		if noWordSpacing || (checkKnownWordNeighbor(str[:pos], true) && checkKnownWordNeighbor(str[end:], false)) {
+			return pos
 		}
+
+		_, size := utf8.DecodeRuneInString(str[pos:])
+		from = pos + size
 	}
 
-	return candidates
+	return -1
 }
 
 func checkKnownWordNeighbor(s string, isPrefix bool) bool {
-- 
2.43.0


From dafc82e1471befaa1b038256f26d41934eba461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:46 +0000
Subject: [PATCH 77/77] fix: search with a repeated language as with a single
 one

The parser took the characters that are unique to each language from an earlier search with as many languages, so that
the answer depended on what was searched before.
---
 internal/language/languages.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/language/languages.go b/internal/language/languages.go
index b59835f..6a39e41 100644
--- a/internal/language/languages.go
+++ b/internal/language/languages.go
@@ -44,6 +44,11 @@ func GetLanguages(locales, languages []string, useGivenOrder bool) ([]string, er
 		// Fetch languages from params
 		if len(languages) > 0 {
 			result = slices.Clone(languages)
+			result = slices.DeleteFunc(result, func(language string) bool {
+				repeated := languageTracker.Contain(language)
+				languageTracker.Add(language)
+				return repeated
+			})
 		}
 
 		// Check for unknown languages
-- 
2.43.0

