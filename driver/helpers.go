package main

import (
	"fmt"
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/common"
	"strings"
	"time"
)

// months: the number of days of the months -1..14 of a year, from numbers and from text
func observeMonths(y int) obs {
	o := obs{"k": "months", "s": fmt.Sprint(y), "y": y}
	n := make([]int, 0)
	t := make([]int, 0)
	count := func(f func() (int, error)) int {
		var d int
		var err error
		p, slow := guard(func() { d, err = f() })
		if p || slow {
			return -2
		}
		if err != nil {
			return -1
		}
		return d
	}
	for m := -1; m <= 14; m++ {
		m := m
		n = append(n, count(func() (int, error) { return calendar.DaysInMonth(y, m) }))
	}
	for m := 0; m <= 14; m++ {
		s := fmt.Sprintf("%04d-%02d", y, m)
		if y < 0 {
			s = fmt.Sprintf("-%04d-%02d", -y, m)
		}
		t = append(t, count(func() (int, error) { return calendar.DaysInMonthWithString(s) }))
	}
	o["byNumber"] = n
	o["byText"] = t
	return o
}

// monthtext: the number of days of a month given as any text
func observeMonthText(s string) obs {
	o := named("monthtext", s)
	var d int
	var err error
	p, slow := guard(func() { d, err = calendar.DaysInMonthWithString(s) })
	o["panic"] = p || slow
	o["ok"] = err == nil
	o["days"] = small(int64(d))
	return o
}

func ymdOutcome(o obs, f func() (*edtf.YMD, error)) obs {
	var d *edtf.YMD
	var err error
	p, slow := guard(func() { d, err = f() })
	o["panic"] = p || slow || ((d == nil) == (err == nil))
	o["ok"] = err == nil && d != nil
	o["d"] = []int{}
	if err == nil && d != nil {
		o["d"] = []int{small(int64(d.Year)), small(int64(d.Month)), small(int64(d.Day))}
	}
	return o
}

func observeYMDText(s string) obs {
	return ymdOutcome(named("ymdtext", s), func() (*edtf.YMD, error) { return common.YMDFromString(s) })
}

func observeYMDParts(y string, m string, d string) obs {
	o := obs{"k": "ymdparts", "s": escape(strings.Join([]string{y, m, d}, "|")),
		"y": chars(y), "m": chars(m), "dd": chars(d)}
	ymdOutcome(o, func() (*edtf.YMD, error) { return common.YMDFromStrings(y, m, d) })
	q := ymdOutcome(obs{}, func() (*edtf.YMD, error) {
		return common.YMDFromStringDate(&common.StringDate{Year: y, Month: m, Day: d})
	})
	o["same"] = q["ok"] == o["ok"] && fmt.Sprint(q["d"]) == fmt.Sprint(o["d"])
	return o
}

// clock: a year-month-day and a time of day as an instant
func observeClock(l []int, hms string) obs {
	o := obs{"k": "clock", "s": fmt.Sprint(l) + escape(hms), "d": l, "hms": chars(hms)}
	ask := func(f func() (*time.Time, error)) ([]int, bool, bool, bool) {
		var t *time.Time
		var err error
		p, slow := guard(func() { t, err = f() })
		if p || slow || ((t == nil) == (err == nil)) {
			return []int{}, false, true, false
		}
		if err != nil {
			return []int{}, false, false, false
		}
		_, off := t.Zone()
		return split(t.Unix()), true, false, off == 0 && t.Nanosecond() == 0
	}
	t, ok, panicked, utc := ask(func() (*time.Time, error) {
		return common.TimeWithYMD(&edtf.YMD{Year: l[0], Month: l[1], Day: l[2]}, hms)
	})
	o["t"], o["ok"], o["panic"], o["utc"] = t, ok, panicked, utc
	y := fmt.Sprintf("%04d", l[0])
	if l[0] < 0 {
		y = fmt.Sprintf("-%04d", -l[0])
	}
	t, ok, panicked, utc = ask(func() (*time.Time, error) {
		return common.TimeWithYMDString(y, fmt.Sprintf("%02d", l[1]), fmt.Sprintf("%02d", l[2]), hms)
	})
	o["ps"] = []interface{}{chars(y), chars(fmt.Sprintf("%02d", l[1])), chars(fmt.Sprintf("%02d", l[2]))}
	o["st"], o["sok"], o["spanic"], o["sutc"] = t, ok, panicked, utc
	return o
}

// flip: a year, and an instant <<day, second>>, turned to the negative year
func observeFlip(l []int) obs {
	o := obs{"k": "flip", "s": fmt.Sprint(l), "y": l[0], "given": []int{l[1], l[2]}}
	f := 0
	t := time.Unix(int64(l[1])*86400+int64(l[2]), 0).UTC()
	var b time.Time
	p, slow := guard(func() { f = common.FlipYear(l[0]); b = common.TimeToBCE(t) })
	o["panic"] = p || slow
	o["flipped"] = small(int64(f))
	o["t"] = split(b.Unix())
	return o
}

func observeEqual(l []int) obs {
	a := &edtf.YMD{Year: l[0], Month: l[1], Day: l[2]}
	b := &edtf.YMD{Year: l[3], Month: l[4], Day: l[5]}
	return obs{"k": "equal", "s": fmt.Sprint(l), "a": l[:3], "b": l[3:],
		"eq": answer(func() bool { return a.Equals(b) }), "self": answer(func() bool { return a.Equals(a) })}
}
