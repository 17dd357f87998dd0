From 547017ac213bd9421e7dbd758e38e1cabe57891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:14 +0000
Subject: [PATCH 01/26] fix: NotSet returns a NotSetError, so IsNotSet
 recognises it

---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 5debc12..24446c2 100644
--- a/errors.go
+++ b/errors.go
@@ -12,7 +12,7 @@ func (e *NotSetError) Error() string {
 }
 
 func NotSet() error {
-	return &NotImplementedError{}
+	return &NotSetError{}
 }
 
 func IsNotSet(e error) bool {
-- 
2.43.0


From 7c7b1a00f5910b61c1c40f4e99716c0f9c621c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:16 +0000
Subject: [PATCH 02/26] fix: anchor both alternatives of the season pattern

Ungrouped, the season expression matched any string that merely starts with
YYYY-MM, so 2004-06~, 2004-06-11%, 1985-04-XX and 1985-04-12/.. were parsed as
the season (month) YYYY-MM, losing qualifiers, days and open ends. Its (?i)
flag also leaked into the alternatives that follow it in Level1.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index d377452..0d335a1 100644
--- a/re/re.go
+++ b/re/re.go
@@ -36,7 +36,7 @@ const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE
 
 const PATTERN_LETTER_PREFIXED_CALENDAR_YEAR string = `Y(\-?\d+)`
 
-const PATTERN_SEASON string = PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i)(spring|summer|fall|winter)\s*,\s*(\d{4})`
+const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i)(spring|summer|fall|winter)\s*,\s*(\d{4}))`
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-- 
2.43.0


From cf1d407bda88a300bf03de8f978ae3364890db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:47 +0000
Subject: [PATCH 03/26] fix: Level 2 must match the whole string

The Level2 expression had no closing anchor, and the (?i) flag of its first
alternative applied to all the others, so IsValid and IsLevel2 accepted any
string with a Level 2 prefix (1984foo, 1985-04-12garbage), which Matches and
ParseString then rejected.
---
 re/level2.go | 2 +-
 re/re.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/re/level2.go b/re/level2.go
index 5a6e561..e61f3b8 100644
--- a/re/level2.go
+++ b/re/level2.go
@@ -45,5 +45,5 @@ func init() {
 		PATTERN_INTERVAL,
 	}
 
-	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)`)
+	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)$`)
 }
diff --git a/re/re.go b/re/re.go
index 0d335a1..a1f62d1 100644
--- a/re/re.go
+++ b/re/re.go
@@ -50,7 +50,7 @@ const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
 
 // Level 2
 
-const PATTERN_EXPONENTIAL_YEAR string = `(?i)Y(\-?\d+E\d+)`
+const PATTERN_EXPONENTIAL_YEAR string = `(?i:Y(\-?\d+E\d+))`
 
 const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_LETTER_PREFIXED_CALENDAR_YEAR + `|` + PATTERN_EXPONENTIAL_YEAR + `)S(\d+)`
 
-- 
2.43.0


From a112565b9d3618409b60ad02948fccfda9f073db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:49 +0000
Subject: [PATCH 04/26] fix: a negative calendar year has one minus sign
 (--1985 is not valid)

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index a1f62d1..ce667d1 100644
--- a/re/re.go
+++ b/re/re.go
@@ -46,7 +46,7 @@ const PATTERN_INTERVAL_START = `(\.\.)?\/` + PATTERN_DATE
 
 const PATTERN_INTERVAL_END = PATTERN_DATE + `\/(\.\.)?`
 
-const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
+const PATTERN_NEGATIVE_YEAR = `\-(\d{4})`
 
 // Level 2
 
-- 
2.43.0


From ab527e301fbcd4b41486e0fa6fcd388e94f08e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:51 +0000
Subject: [PATCH 05/26] fix: day 00 is not a day

2004-06-00 was accepted as a Level 2 date and parsed as 2004-06-30.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index ce667d1..4d633da 100644
--- a/re/re.go
+++ b/re/re.go
@@ -14,7 +14,7 @@ const PATTERN_QUALIFIER string = `[\` + edtf.UNCERTAIN + edtf.APPROXIMATE + edtf
 
 const PATTERN_YEAR_X string = `\-?[0-9X]{4}`
 const PATTERN_MONTH_X string = `(?:[0X][1-9X]|[1X][0-2X])`
-const PATTERN_DAY_X string = `(?:[012X][0-9X]|[3X][01X])`
+const PATTERN_DAY_X string = `(?:0[1-9X]|[12X][0-9X]|[3X][01X])`
 
 const PATTERN_YYYY string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_YEAR_X + `|` + PATTERN_YEAR_X + PATTERN_QUALIFIER + `?)`
 const PATTERN_MM string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_MONTH_X + `|` + PATTERN_MONTH_X + PATTERN_QUALIFIER + `?)`
-- 
2.43.0


From 725aa7959f237ac0ec82487f6cffcf2f09f29f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:53 +0000
Subject: [PATCH 06/26] fix: IsExtendedInterval is false for strings that are
 not extended intervals

---
 level1/extended_interval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level1/extended_interval.go b/level1/extended_interval.go
index a80e971..5c410a3 100644
--- a/level1/extended_interval.go
+++ b/level1/extended_interval.go
@@ -62,7 +62,7 @@ func IsExtendedInterval(edtf_str string) bool {
 		return true
 	}
 
-	return true
+	return false
 }
 
 func ParseExtendedInterval(edtf_str string) (*edtf.EDTFDate, error) {
-- 
2.43.0


From e5e97168e02473fd8f3ef305f899e3adf62d32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:55 +0000
Subject: [PATCH 07/26] fix: After and Before are strict

A date and time was both before and after itself (and so not between itself
and itself), because equal instants counted as after and as before.
---
 edtf.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/edtf.go b/edtf.go
index b1c7726..fcf3eef 100644
--- a/edtf.go
+++ b/edtf.go
@@ -116,11 +116,7 @@ func (d *EDTFDate) After(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive lower time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.After(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.After(*u_t), nil
 }
 
 // Before reports whether the EDTFDate instance `d` is after `u`.
@@ -142,9 +138,5 @@ func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive upper time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.Before(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.Before(*u_t), nil
 }
-- 
2.43.0


From 6a7e0f4fadf08a71b71ff93a257680babb7060cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:57 +0000
Subject: [PATCH 08/26] fix: apply the time shift of a negative-year date and
 time in its own year

-1972-01-01T00:30:00+01:00 is in -1973 UTC, but was shifted in 1972 and then
flipped, which gave -1971-12-31T23:30:00Z.
---
 level0/date_and_time.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 2fc5227..59a4675 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -69,12 +69,12 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	t = t.UTC()
-
 	if is_bce {
 		t = common.TimeToBCE(t)
 	}
 
+	t = t.UTC()
+
 	upper_date := &edtf.Date{}
 
 	lower_date := &edtf.Date{}
-- 
2.43.0


From ece603854a34a84e405e53fab99e48a9218f1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:43 +0000
Subject: [PATCH 09/26] fix: more significant digits than the year has is an
 error, not a panic

The check compared the number of digits in the digit count with the length of
the year, so 1950S5 sliced out of bounds. Years are also zero-padded to four
digits, so that 0050S2 is a range of years rather than an error.
---
 level2/significant_digits.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 925d1ea..43c1737 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -101,12 +101,23 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	if len(strconv.Itoa(digits)) > len(strconv.Itoa(yyyy)) {
+	// always four digits, after the sign: years before 1000 (or after -1000)
+	// are zero-padded
+
+	sign := ""
+
+	if yyyy < 0 {
+		sign = edtf.NEGATIVE
+		yyyy = common.FlipYear(yyyy)
+	}
+
+	str_yyyy = fmt.Sprintf("%04d", yyyy)
+
+	if digits > len(str_yyyy) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = strconv.Itoa(yyyy)
-	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]
+	prefix_yyyy := sign + str_yyyy[0:len(str_yyyy)-digits]
 
 	first := strings.Repeat("0", digits)
 	last := strings.Repeat("9", digits)
-- 
2.43.0


From 1234a25d31beaddbc8efcfc22c5771dd54e9ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:45 +0000
Subject: [PATCH 10/26] fix: the minus sign is not a digit of a letter-prefixed
 year with significant digits

Y-1950S2 was reported as unsupported while Y1950S2 and -1950S2 were parsed.
---
 level2/significant_digits.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 43c1737..a774ceb 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -65,7 +65,7 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 
 	} else if str_year != "" {
 
-		if len(str_year) > 4 {
+		if len(strings.TrimPrefix(str_year, edtf.NEGATIVE)) > 4 {
 			return nil, edtf.Unsupported(SIGNIFICANT_DIGITS, edtf_str)
 		}
 
-- 
2.43.0


From bd8a6bec64acd21194e97469dd2c17b30ccf2bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:04 +0000
Subject: [PATCH 11/26] fix: exponential years beyond the supported range

Y1E1000000000 panicked (its value is infinite), Y1E600000000 allocated hundreds
of megabytes, and from 1E39 on the value was truncated to the year 0 instead of
being reported as unsupported.
---
 common/exponential.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/exponential.go b/common/exponential.go
index 0acaab7..0ef0a9e 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -14,13 +14,16 @@ func ParseExponentialNotation(notation string) (int, error) {
 		return 0, err
 	}
 
-	var i = new(big.Int)
-	yyyy, _ := flt.Int(i)
+	// compare before converting: large values do not fit in an int64 (or, when
+	// they are infinite, in a big.Int)
 
-	if yyyy.Int64() > int64(edtf.MAX_YEARS) || yyyy.Int64() < int64(0-edtf.MAX_YEARS) {
+	if flt.Cmp(big.NewFloat(float64(edtf.MAX_YEARS))) > 0 || flt.Cmp(big.NewFloat(float64(0-edtf.MAX_YEARS))) < 0 {
 		return 0, edtf.Unsupported("exponential notation", notation)
 	}
 
+	var i = new(big.Int)
+	yyyy, _ := flt.Int(i)
+
 	yyyy_i := int(yyyy.Int64())
 	return yyyy_i, nil
 }
-- 
2.43.0


From d96d4c8e3eca95a6cba4ac56a35aca04c65c0968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:04 +0000
Subject: [PATCH 12/26] fix: zero-pad exponential years before 1000

Y5E2 and Y-20E1 were rejected because the year was not written with four digits.
---
 level2/exponential_year.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/level2/exponential_year.go b/level2/exponential_year.go
index ea90b09..3dc6a98 100644
--- a/level2/exponential_year.go
+++ b/level2/exponential_year.go
@@ -1,10 +1,10 @@
 package level2
 
 import (
+	"fmt"
 	"github.com/sfomuseum/go-edtf"
 	"github.com/sfomuseum/go-edtf/common"
 	"github.com/sfomuseum/go-edtf/re"
-	"strconv"
 )
 
 /*
@@ -47,7 +47,11 @@ func ParseExponentialYear(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	str_yyyy := strconv.Itoa(yyyy)
+	str_yyyy := fmt.Sprintf("%04d", yyyy)
+
+	if yyyy < 0 {
+		str_yyyy = fmt.Sprintf("%05d", yyyy) // the sign counts
+	}
 
 	sp, err := common.DateSpanFromEDTF(str_yyyy)
 
-- 
2.43.0


From 6baa934c832bba55fb131ddd238546b1ccf920d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:04 +0000
Subject: [PATCH 13/26] fix: zero-pad the year of a season before 1000 BCE

-0200-21 was rejected because -200 was padded to four characters, sign included.
---
 level1/season.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/level1/season.go b/level1/season.go
index e8b3cf7..0526646 100644
--- a/level1/season.go
+++ b/level1/season.go
@@ -173,7 +173,20 @@ func ParseSeason(edtf_str string) (*edtf.EDTFDate, error) {
 
 	end_dd = dm
 
-	_str := fmt.Sprintf("%04d-%02d-%02d/%04d-%02d-%02d", start_yyyy, start_mm, start_dd, end_yyyy, end_mm, end_dd)
+	start_fmt := "%04d"
+	end_fmt := "%04d"
+
+	// the sign counts towards the width
+
+	if start_yyyy < 0 {
+		start_fmt = "%05d"
+	}
+
+	if end_yyyy < 0 {
+		end_fmt = "%05d"
+	}
+
+	_str := fmt.Sprintf(start_fmt+"-%02d-%02d/"+end_fmt+"-%02d-%02d", start_yyyy, start_mm, start_dd, end_yyyy, end_mm, end_dd)
 
 	sp, err := common.DateSpanFromEDTF(_str)
 
-- 
2.43.0


From 10ca57012c89f330c680bd313cd1a8dd939fb359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:04 +0000
Subject: [PATCH 14/26] fix: zero-pad the year in which a winter (or southern
 summer) ends

0500-28 and 0500-30 were rejected because the following year was not written
with four digits.
---
 level2/sub_year_grouping.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/level2/sub_year_grouping.go b/level2/sub_year_grouping.go
index b96888f..cb3266e 100644
--- a/level2/sub_year_grouping.go
+++ b/level2/sub_year_grouping.go
@@ -96,7 +96,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = fmt.Sprintf("%04d", y+1)
 
 	case "29": // Spring - Southern Hemisphere
 		start_mm = "09"
@@ -116,7 +116,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = fmt.Sprintf("%04d", y+1)
 
 	case "31": // Autumn - Southern Hemisphere
 		start_mm = "03"
-- 
2.43.0


From e1daee7df219a66d02310e08abfcb6bbe087eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:37 +0000
Subject: [PATCH 15/26] fix: month 0X is January to September

1984-0X was parsed as October to December 1984.
---
 common/range.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/range.go b/common/range.go
index 14de55f..d6af2c1 100644
--- a/common/range.go
+++ b/common/range.go
@@ -367,6 +367,13 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			start_mm = "01"
 			end_mm = "12"
 
+		} else if strings.HasPrefix(mm, "0") {
+			start_mm = "01"
+			end_mm = "09"
+
+			precision = edtf.NONE
+			precision.AddFlag(edtf.MONTH)
+
 		} else {
 			start_mm = "10"
 			end_mm = "12"
-- 
2.43.0


From d93b76d38aa2ba78ba461e69d26c35d79e7a83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:39 +0000
Subject: [PATCH 16/26] fix: day 0X is the 1st to the 9th

1985-04-0X is valid but was rejected.
---
 common/range.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/range.go b/common/range.go
index d6af2c1..f6c370d 100644
--- a/common/range.go
+++ b/common/range.go
@@ -398,6 +398,9 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "X":
 			start_dd = "01"
 			end_dd = ""
+		case "0":
+			start_dd = "01"
+			end_dd = "09"
 		case "1":
 			start_dd = "10"
 			end_dd = "19"
-- 
2.43.0


From 882b0e43094720492b577e91129e5093fdeb8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:40 +0000
Subject: [PATCH 17/26] fix: day 2X ends on the 28th in a February that has 28
 days

2001-02-2X is valid but was rejected, because February 29 2001 does not exist.
---
 common/range.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/range.go b/common/range.go
index f6c370d..7cafe6e 100644
--- a/common/range.go
+++ b/common/range.go
@@ -407,6 +407,18 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "2":
 			start_dd = "20"
 			end_dd = "29"
+
+			// February may be shorter than that
+
+			days, err := calendar.DaysInMonthWithString(fmt.Sprintf("%s-%s", end_yyyy, end_mm))
+
+			if err != nil {
+				return nil, err
+			}
+
+			if days < 29 {
+				end_dd = strconv.Itoa(days)
+			}
 		case "3":
 			start_dd = "30"
 			end_dd = ""
-- 
2.43.0


From 6f1aba498e90e3197484d6ac0b3dc07f0c7ef084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:01 +0000
Subject: [PATCH 18/26] fix: a set that is open at both ends is open at both
 ends

{..1984,1990..} shared one range between start and end, with an open lower date
and 1990-12-31 as the upper date of both.
---
 level2/set_representation.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 9702342..f49ecff 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -209,12 +209,16 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 		open_range := common.OpenDateRange()
 
-		if start_open {
+		if start_open && end_open {
+
+			sp = common.OpenDateSpan()
+
+		} else if start_open {
+
 			sp.End.Lower = sp.Start.Lower
 			sp.Start = open_range
-		}
 
-		if end_open {
+		} else {
 
 			sp.Start.Upper = sp.End.Upper
 			sp.End = open_range
-- 
2.43.0


From f78a836e86dae208176305e7e9abc2d1b48ae377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:03 +0000
Subject: [PATCH 19/26] fix: the ends of a set are its earliest and latest
 members

Members were sorted as strings, so {-0100,-0200} ran from -0100 to -0200,
[1760,1760-03] ended in March, and the empty member of [1984,] sorted first and
became an unknown start. Members that are not dates are now errors too.
---
 level2/set_representation.go | 40 +++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index f49ecff..7b19e15 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -140,18 +140,38 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 		}
 	}
 
+	if len(possible) == 0 {
+		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
+	}
+
+	// the bookends are the member that starts first and the member that ends last,
+	// which is not how negative years, or dates of different precision, are sorted
+	// as strings
+
 	sort.Strings(possible)
-	count := len(possible)
 
-	switch count {
-	case 0:
-		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
-	case 1:
-		start_ymd = possible[0]
-		end_ymd = start_ymd
-	default:
-		start_ymd = possible[0]
-		end_ymd = possible[count-1]
+	var first, last int64
+
+	for i, date := range possible {
+
+		sp, err := common.DateSpanFromEDTF(date)
+
+		if err != nil {
+			return nil, err
+		}
+
+		lower := sp.Start.Lower.Timestamp.Unix()
+		upper := sp.End.Upper.Timestamp.Unix()
+
+		if i == 0 || lower < first {
+			first = lower
+			start_ymd = date
+		}
+
+		if i == 0 || upper >= last {
+			last = upper
+			end_ymd = date
+		}
 	}
 
 	_str := start_ymd
-- 
2.43.0


From 8da5649e4dbb8b338dae9ba1e924e6b6c9cd61f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:35 +0000
Subject: [PATCH 20/26] fix: a leading minus sign belongs to the year of a YMD
 string

YMDFromString rejected BCE strings with fewer than three components
(-0200, -0200-05) and read the second part of a four-part string as a
BCE year (2001-01-01-01 was January 1st, 1 BCE).
---
 common/ymd.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/common/ymd.go b/common/ymd.go
index 598ffa7..7ee17de 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -18,13 +18,18 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 	mm := ""
 	dd := ""
 
+	// A leading minus sign belongs to the year, it does not separate anything
+
+	sign := ""
+
+	if strings.HasPrefix(str_ymd, "-") {
+		sign = "-"
+		str_ymd = strings.TrimPrefix(str_ymd, "-")
+	}
+
 	parts := strings.Split(str_ymd, "-")
 
 	switch len(parts) {
-	case 4:
-		yyyy = "-" + parts[1]
-		mm = parts[2]
-		dd = parts[3]
 	case 3:
 		yyyy = parts[0]
 		mm = parts[1]
@@ -38,6 +43,10 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 		return nil, errors.New("Invalid YMD string")
 	}
 
+	if yyyy != "" {
+		yyyy = sign + yyyy
+	}
+
 	return YMDFromStrings(yyyy, mm, dd)
 }
 
-- 
2.43.0


From 5589abfbd0842dcf512956cc0aa24a6ede1dadc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:36 +0000
Subject: [PATCH 21/26] fix: months and days are not negative

YMDFromStrings only checked the upper bounds: it accepted month -1 and
day -5.
---
 common/ymd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/ymd.go b/common/ymd.go
index 7ee17de..fdaaab4 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -120,7 +120,7 @@ func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, e
 		mm = 1
 	} else {
 
-		if mm > 12 {
+		if mm < 1 || mm > 12 {
 			return nil, errors.New("Invalid month")
 		}
 	}
@@ -143,7 +143,7 @@ func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, e
 			return nil, err
 		}
 
-		if dd > days {
+		if dd < 1 || dd > days {
 			return nil, errors.New("Invalid days for month")
 		}
 	}
-- 
2.43.0


From 37839842791dde965625cf7649af2b5506f12f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:03 +0000
Subject: [PATCH 22/26] fix: only a BCE year can have three parts in a YYYYMM
 string

DaysInMonthWithString("2001-02-03") was the number of days in March,
2 BCE.
---
 calendar/calendar.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/calendar/calendar.go b/calendar/calendar.go
index 75d3866..7092610 100644
--- a/calendar/calendar.go
+++ b/calendar/calendar.go
@@ -19,6 +19,11 @@ func DaysInMonthWithString(yyyymm string) (int, error) {
 
 	switch len(ym) {
 	case 3:
+
+		if ym[0] != "" {
+			return 0, errors.New("Invalid YYYYMM string")
+		}
+
 		str_yyyy = fmt.Sprintf("-%s", ym[1])
 		str_mm = ym[2]
 	case 2:
-- 
2.43.0


From e77cf0154330dd1a506dbaefd7dfe11090c1f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:05 +0000
Subject: [PATCH 23/26] fix: months before January and after December have no
 days

DaysInMonth said they have 31.
---
 calendar/calendar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calendar/calendar.go b/calendar/calendar.go
index 7092610..25dc9f7 100644
--- a/calendar/calendar.go
+++ b/calendar/calendar.go
@@ -51,6 +51,10 @@ func DaysInMonthWithString(yyyymm string) (int, error) {
 // Calculate the number of days in a month given a year and month in numeric form.
 func DaysInMonth(yyyy int, mm int) (int, error) {
 
+	if mm < 1 || mm > 12 {
+		return 0, errors.New("Invalid month")
+	}
+
 	// Because Go can't parse dates < 0...
 
 	if yyyy < 0 {
-- 
2.43.0


From 7b93b040429c5231f1c930583fdbc9b3288efc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:07 +0000
Subject: [PATCH 24/26] fix: the date-time that Date.SetTime sets is in UTC

The README says it is, and it is what parsing a date does.
---
 date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 1ba96d5..8c57901 100644
--- a/date.go
+++ b/date.go
@@ -19,7 +19,7 @@ type Date struct {
 }
 
 func (d *Date) SetTime(t *time.Time) {
-	d.DateTime = t.Format(time.RFC3339)
+	d.DateTime = t.UTC().Format(time.RFC3339)
 	d.Timestamp = NewTimestampWithTime(t)
 }
 
-- 
2.43.0


From e9cb6135af02bfc2729ef56936672acf24cc1854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:08 +0000
Subject: [PATCH 25/26] fix: the promise parse_edtf returns is rejected with
 the error message

It was rejected with the number of bytes printed to standard output.
---
 cmd/parse-wasm/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index 94971fb..0ec06bf 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -24,14 +24,14 @@ func ParseFunc() js.Func {
 			edtf_d, err := parser.ParseString(edtf_str)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to parse '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to parse '%s', %v\n", edtf_str, err))
 				return nil
 			}
 
 			enc, err := json.Marshal(edtf_d)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to marshal result for '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to marshal result for '%s', %v\n", edtf_str, err))
 				return nil
 			}
 
-- 
2.43.0


From cc86921a9e46e54f84f4251717d117dc44064636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:02 +0000
Subject: [PATCH 26/26] fix: the local time zone has no bearing on date and
 times

With TZ=America/New_York, -1985-07-12T23:20:30-04 was shifted by the local
mean time of New York (-04:56:02) since flipping the year of a time in the
local time zone looks its offset up again.
---
 level0/date_and_time.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 59a4675..48f65a2 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -63,7 +63,10 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		t_fmt = fmt.Sprintf("-%s", t_fmt)
 	}
 
-	t, err := time.Parse(t_fmt, edtf_str)
+	// in UTC, so that the time shift is the one in the string and not the (historical)
+	// rules of the local time zone, which time.Parse uses when their offsets agree
+
+	t, err := time.ParseInLocation(t_fmt, edtf_str, time.UTC)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0

