package main

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"strconv"
	"strings"
)

type feature struct {
	is    func(string) bool
	parse func(string) (*edtf.EDTFDate, error)
}

// in the order of Features in Grammar.tla
var features = []feature{
	{level0.IsDate, level0.ParseDate},
	{level0.IsDateAndTime, level0.ParseDateAndTime},
	{level0.IsTimeInterval, level0.ParseTimeInterval},
	{level1.IsLetterPrefixedCalendarYear, level1.ParseLetterPrefixedCalendarYear},
	{level1.IsSeason, level1.ParseSeason},
	{level1.IsQualifiedDate, level1.ParseQualifiedDate},
	{level1.IsUnspecifiedDigits, level1.ParseUnspecifiedDigits},
	{level1.IsNegativeCalendarYear, level1.ParseNegativeCalendarYear},
	{nil, level1.ParseExtendedIntervalStart},
	{nil, level1.ParseExtendedIntervalEnd},
	{level2.IsExponentialYear, level2.ParseExponentialYear},
	{level2.IsSignificantDigits, level2.ParseSignificantDigits},
	{level2.IsSubYearGrouping, level2.ParseSubYearGroupings},
	{level2.IsSetRepresentation, level2.ParseSetRepresentations},
	{level2.IsGroupQualification, level2.ParseGroupQualification},
	{level2.IsIndividualQualification, level2.ParseIndividualQualification},
	{level2.IsUnspecifiedDigit, level2.ParseUnspecifiedDigit},
	{level2.IsInterval, level2.ParseInterval},
}

type own struct {
	N int    `json:"n"`
	P Parsed `json:"p"`
}

// feat: what the features themselves say
func observeFeatures(s string) obs {
	o := named("feat", s)
	o["p"] = parseString(s)
	is := make([]int, 0)
	outcome := make([]string, 0)
	owns := make([]own, 0)
	for i, f := range features {
		f := f
		if f.is == nil {
			is = append(is, 3)
		} else {
			is = append(is, answer(func() bool { return f.is(s) }))
		}
		p := parsed(func() (*edtf.EDTFDate, error) { return f.parse(s) })
		outcome = append(outcome, said(p))
		if p.OK {
			owns = append(owns, own{i + 1, p})
		}
	}
	o["is"] = is
	o["outcome"] = outcome
	o["owns"] = owns
	o["extended"] = answer(func() bool { return level1.IsExtendedInterval(s) })
	o["ext"] = parsed(func() (*edtf.EDTFDate, error) { return level1.ParseExtendedInterval(s) })
	o["l"] = []int{
		answer(func() bool { return level0.IsLevel0(s) }),
		answer(func() bool { return level1.IsLevel1(s) }),
		answer(func() bool { return level2.IsLevel2(s) }),
	}
	o["lm"] = []Match{
		matched(func() (int, string, error) { f, e := level0.Matches(s); return 0, f, e }),
		matched(func() (int, string, error) { f, e := level1.Matches(s); return 1, f, e }),
		matched(func() (int, string, error) { f, e := level2.Matches(s); return 2, f, e }),
	}
	o["lp"] = []Parsed{
		parsed(func() (*edtf.EDTFDate, error) { return level0.ParseString(s) }),
		parsed(func() (*edtf.EDTFDate, error) { return level1.ParseString(s) }),
		parsed(func() (*edtf.EDTFDate, error) { return level2.ParseString(s) }),
	}
	o["sp"] = parseSpan(s)
	o["sr"] = observeRange(s)
	o["xp"] = observeNotation(s)
	return o
}

// the string range of s
func observeRange(s string) obs {
	var r *common.StringRange
	var err error
	p, slow := guard(func() { r, err = common.StringRangeFromYMD(s) })
	o := obs{"panic": p || slow || (r == nil) == (err == nil), "ok": false, "start": []int{}, "end": []int{}, "p": 0, "u": 0, "a": 0, "of": false}
	if p || slow || err != nil || r == nil {
		return o
	}
	numbers := func(d *common.StringDate) []int {
		out := make([]int, 0)
		if d == nil {
			return out
		}
		for _, x := range []string{d.Year, d.Month, d.Day} {
			n, err := strconv.Atoi(x)
			if err != nil {
				return []int{}
			}
			out = append(out, small(int64(n)))
		}
		return out
	}
	o["ok"] = true
	o["start"] = numbers(r.Start)
	o["end"] = numbers(r.End)
	o["p"] = small(int64(r.Precision))
	o["u"] = small(int64(r.Uncertain))
	o["a"] = small(int64(r.Approximate))
	o["of"] = r.EDTF == s
	return o
}

// the number that s is without its first character, in exponential notation
func observeNotation(s string) obs {
	o := obs{"panic": false, "ok": false, "err": "", "y": 0}
	if s == "" || strings.ToUpper(s[:1]) != "Y" {
		return o
	}
	var y int
	var err error
	p, slow := guard(func() { y, err = common.ParseExponentialNotation(s[1:]) })
	o["panic"] = p || slow
	o["ok"] = !p && !slow && err == nil
	o["err"] = kind(err)
	o["y"] = small(int64(y))
	return o
}

// what an outcome of parsing is in one word: ok, panic, both or the kind of error
func said(p Parsed) string {
	switch {
	case p.Panic || p.Slow:
		return "panic"
	case p.Both:
		return "both"
	case p.OK:
		return "ok"
	}
	return p.Err
}
