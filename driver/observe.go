package main

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
	"strings"
	"time"
)

// What is observed is written down without interpretation: these types mirror the ones
// of the library, with times split into days and seconds (TLC's integers are small) and
// nil pointers as empty lists.

// Corner is a bound of a date.
type Corner struct {
	Nil bool   `json:"-"`
	DT  string `json:"dt"`
	T   []int  `json:"t"`
	D   []int  `json:"d"`
	U   int    `json:"u"`
	A   int    `json:"a"`
	X   int    `json:"x"`
	P   int    `json:"p"`
	I   int    `json:"i"`
	O   bool   `json:"o"`
	K   bool   `json:"k"`
}

// Date is an edtf.EDTFDate.
type Date struct {
	Whole   bool   `json:"whole"` // none of the start, the end and the corners is nil
	Level   int    `json:"level"`
	Feature string `json:"feature"`
	EDTF    string `json:"edtf"`
	SE      string `json:"se"`
	EE      string `json:"ee"`
	SL      Corner `json:"SL"`
	SU      Corner `json:"SU"`
	EL      Corner `json:"EL"`
	EU      Corner `json:"EU"`
}

// Instant is the answer of Lower and Upper.
type Instant struct {
	OK  bool   `json:"ok"`
	Err string `json:"err"`
	T   []int  `json:"t"`
	UTC bool   `json:"utc"`
}

// Parsed is the outcome of parsing: a date, or an error.
type Parsed struct {
	OK    bool     `json:"ok"`
	Err   string   `json:"err"`  // kind of the error
	Msg   bool     `json:"msg"`  // the error has a message
	Both  bool     `json:"both"` // an error and a date, or neither
	Panic bool     `json:"panic"`
	Slow  bool     `json:"slow"`
	Date  *Date    `json:"date,omitempty"`
	Lower *Instant `json:"lower,omitempty"`
	Upper *Instant `json:"upper,omitempty"`
	d     *edtf.EDTFDate
}

const clamp = 1000000000

func small(n int64) int {
	if n > clamp {
		return clamp
	}
	if n < -clamp {
		return -clamp
	}
	return int(n)
}

// day and second of a Unix time
func split(unix int64) []int {
	day := unix / 86400
	sec := unix % 86400
	if sec < 0 {
		sec += 86400
		day--
	}
	return []int{small(day), int(sec)}
}

func corner(d *edtf.Date) Corner {
	c := Corner{T: []int{}, D: []int{}}
	if d == nil {
		c.Nil = true
		return c
	}
	c.DT = escape(d.DateTime)
	if d.Timestamp != nil {
		c.T = split(d.Timestamp.Unix())
	}
	if d.YMD != nil {
		c.D = []int{small(int64(d.YMD.Year)), small(int64(d.YMD.Month)), small(int64(d.YMD.Day))}
	}
	c.U = small(int64(d.Uncertain))
	c.A = small(int64(d.Approximate))
	c.X = small(int64(d.Unspecified))
	c.P = small(int64(d.Precision))
	c.I = small(int64(d.Inclusivity))
	c.O = d.Open
	c.K = d.Unknown
	return c
}

func date(d *edtf.EDTFDate) *Date {
	if d == nil {
		return nil
	}
	none := corner(nil)
	x := &Date{SL: none, SU: none, EL: none, EU: none}
	x.Level = small(int64(d.Level))
	x.Feature = escape(d.Feature)
	x.EDTF = escape(d.EDTF)
	if d.Start != nil {
		x.SE = escape(d.Start.EDTF)
		x.SL = corner(d.Start.Lower)
		x.SU = corner(d.Start.Upper)
	}
	if d.End != nil {
		x.EE = escape(d.End.EDTF)
		x.EL = corner(d.End.Lower)
		x.EU = corner(d.End.Upper)
	}
	x.Whole = !(x.SL.Nil || x.SU.Nil || x.EL.Nil || x.EU.Nil)
	return x
}

func kind(err error) string {
	switch {
	case err == nil:
		return ""
	case edtf.IsInvalid(err):
		return "Invalid"
	case edtf.IsUnsupported(err):
		return "Unsupported"
	case edtf.IsUnrecognized(err):
		return "Unrecognized"
	case edtf.IsNotImplemented(err):
		return "NotImplemented"
	case edtf.IsNotSet(err):
		return "NotSet"
	}
	return "other"
}

func parsed(f func() (*edtf.EDTFDate, error)) Parsed {
	var d *edtf.EDTFDate
	var err error
	out := Parsed{}
	out.Panic, out.Slow = guard(func() { d, err = f() })
	if out.Panic || out.Slow {
		return out
	}
	out.OK = err == nil && d != nil
	out.Both = (err == nil) == (d == nil)
	out.Err = kind(err)
	out.Msg = err != nil && err.Error() != ""
	out.Date = date(d)
	out.d = d
	return out
}

func instant(f func() (*time.Time, error)) *Instant {
	var t *time.Time
	var err error
	x := &Instant{T: []int{}}
	if p, slow := guard(func() { t, err = f() }); p || slow {
		x.Err = "panic"
		return x
	}
	x.OK = err == nil && t != nil
	x.Err = kind(err)
	if t != nil {
		x.T = split(t.Unix())
		_, off := t.Zone()
		x.UTC = off == 0 && t.Nanosecond() == 0
	}
	return x
}

func parseString(s string) Parsed {
	return parsed(func() (*edtf.EDTFDate, error) { return parser.ParseString(s) })
}

// parseSpan is common.DateSpanFromEDTF, as a date without level and feature.
func parseSpan(s string) Parsed {
	return parsed(func() (*edtf.EDTFDate, error) {
		sp, err := common.DateSpanFromEDTF(s)
		if sp == nil {
			return nil, err
		}
		return &edtf.EDTFDate{Start: sp.Start, End: sp.End, EDTF: s}, err
	})
}

// Match is the outcome of matching.
type Match struct {
	OK      bool   `json:"ok"`
	Err     string `json:"err"`
	Level   int    `json:"level"`
	Feature string `json:"feature"`
	Panic   bool   `json:"panic"`
	Msg     bool   `json:"msg"`
}

func matched(f func() (int, string, error)) Match {
	m := Match{}
	var l int
	var s string
	var err error
	p, slow := guard(func() { l, s, err = f() })
	m.Panic = p || slow
	m.OK = err == nil && !m.Panic
	m.Err = kind(err)
	m.Level = small(int64(l))
	m.Feature = escape(s)
	m.Msg = err != nil && err.Error() != ""
	return m
}

// Three-valued answers: 0 no, 1 yes, 2 panic.
func answer(f func() bool) int {
	var b bool
	p, slow := guard(func() { b = f() })
	if p || slow {
		return 2
	}
	if b {
		return 1
	}
	return 0
}

type obs map[string]interface{}

func named(kind string, s string) obs {
	return obs{"k": kind, "in": chars(s), "s": escape(s)}
}

// parse: one string, parsed
func observeParse(s string) obs {
	o := named("parse", s)
	o["p"] = parseString(s)
	return o
}

// bounds: parsed, and what Lower and Upper say
func observeBounds(s string) obs {
	o := named("bounds", s)
	p := parseString(s)
	if p.OK && p.Date.Whole {
		p.Lower = instant(p.d.Lower)
		p.Upper = instant(p.d.Upper)
	}
	o["p"] = p
	return o
}

// entry: what the entry points of all levels say
func observeEntry(s string) obs {
	o := named("entry", s)
	o["valid"] = answer(func() bool { return parser.IsValid(s) })
	o["l"] = []int{
		answer(func() bool { return level0.IsLevel0(s) }),
		answer(func() bool { return level1.IsLevel1(s) }),
		answer(func() bool { return level2.IsLevel2(s) }),
	}
	o["m"] = matched(func() (int, string, error) { return parser.Matches(s) })
	o["lm"] = []Match{
		matched(func() (int, string, error) { f, e := level0.Matches(s); return 0, f, e }),
		matched(func() (int, string, error) { f, e := level1.Matches(s); return 1, f, e }),
		matched(func() (int, string, error) { f, e := level2.Matches(s); return 2, f, e }),
	}
	p := parseString(s)
	o["p"] = brief(p)
	return o
}

// Brief is Parsed without the corners.
type Brief struct {
	OK      bool   `json:"ok"`
	Err     string `json:"err"`
	Msg     bool   `json:"msg"`
	Both    bool   `json:"both"`
	Panic   bool   `json:"panic"`
	Slow    bool   `json:"slow"`
	Whole   bool   `json:"whole"`
	Level   int    `json:"level"`
	Feature string `json:"feature"`
	EDTF    string `json:"edtf"`
}

func brief(p Parsed) Brief {
	b := Brief{OK: p.OK, Err: p.Err, Msg: p.Msg, Both: p.Both, Panic: p.Panic, Slow: p.Slow}
	if p.Date != nil {
		b.Whole = p.Date.Whole
		b.Level = p.Date.Level
		b.Feature = p.Date.Feature
		b.EDTF = p.Date.EDTF
	}
	return b
}

// sides: an interval, and its two sides on their own
func observeSides(s string) obs {
	i := strings.Index(s, "/")
	if i < 0 {
		return nil
	}
	a, b := s[:i], s[i+1:]
	o := named("sides", s)
	o["p"] = parseString(s)
	o["sp"] = parseSpan(s)
	o["ac"] = chars(a)
	o["bc"] = chars(b)
	o["a"] = parseSpan(a)
	o["b"] = parseSpan(b)
	return o
}

// quals: a date, and the same date without its qualifiers
func observeQuals(s string) obs {
	o := named("quals", s)
	o["p"] = parseString(s)
	o["q"] = parseString(strings.Map(func(r rune) rune {
		if r == '?' || r == '~' || r == '%' {
			return -1
		}
		return r
	}, s))
	return o
}

// set: a set, and its members on their own
func observeSet(s string) obs {
	o := named("set", s)
	o["p"] = parseString(s)
	type member struct {
		In []string `json:"in"`
		S  string   `json:"s"`
		P  Parsed   `json:"p"`
	}
	members := make([]member, 0)
	if len(s) >= 2 {
		for _, m := range strings.Split(s[1:len(s)-1], ",") {
			for _, d := range strings.Split(m, "..") {
				if d != "" {
					members = append(members, member{chars(d), escape(d), parseString(d)})
				}
			}
		}
	}
	o["members"] = members
	return o
}
