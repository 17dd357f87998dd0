package main

import (
	"fmt"
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
	"runtime/metrics"
	"sync/atomic"
	"time"
)

// allocated tells how many bytes the process ever allocated (in whole spans, so roughly)
func allocated() uint64 {
	sample := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(sample)
	return sample[0].Value.Uint64()
}

// robust: every entry point is given the string; where tells the first that misbehaves
func observeRobust(s string) obs {
	o := named("robust", s)
	if len(s) > 200 {
		o["in"] = []string{}
		o["s"] = escape(s[:60]) + fmt.Sprintf(" (%d bytes)", len(s))
	}
	out := map[string]bool{"panic": false, "slow": false, "greedy": false, "whole": true, "told": true}
	where := ""
	bad := func(what string, value bool, name string) {
		if where == "" {
			where = name
			out[what] = value
		}
	}
	// f gives: whether it is consistent, and the error
	call := func(name string, f func() (bool, error)) {
		if where != "" {
			return
		}
		var whole bool
		var err error
		before := allocated()
		began := time.Now()
		p, slow := guard(func() { whole, err = f() })
		took := time.Since(began)
		if p {
			bad("panic", true, name)
		}
		if slow {
			bad("slow", true, name)
		}
		// nor does a string take seconds; what does, does so again
		prompt := time.Second + time.Duration(len(s))*time.Millisecond
		used := allocated() - before
		for i := 0; i < 3 && !p && !slow && took > prompt; i++ {
			began = time.Now()
			if p, slow = guard(func() { f() }); i == 2 && !p && time.Since(began) > prompt {
				atomic.AddInt32(&slowCalls, 1)
				bad("slow", true, name)
				slow = true
			}
			took = time.Since(began)
		}
		if p || slow {
			return
		}
		if !whole {
			bad("whole", false, name)
		}
		if err != nil && err.Error() == "" {
			bad("told", false, name)
		}
		// a short string has no claim on megabytes
		limit := uint64(4<<20 + 64<<10*len(s))
		if len(s) > 200 {
			limit += 28 << 20
		}
		if used > limit {
			bad("greedy", true, name)
		}
	}
	dated := func(d *edtf.EDTFDate, err error) (bool, error) {
		if err != nil {
			return d == nil, err
		}
		return d != nil && date(d).Whole, nil
	}
	ask := func(f func(string) bool) func() (bool, error) {
		return func() (bool, error) { f(s); return true, nil }
	}
	call("parser.IsValid", ask(parser.IsValid))
	call("parser.ParseString", func() (bool, error) { return dated(parser.ParseString(s)) })
	call("parser.Matches", func() (bool, error) { _, f, err := parser.Matches(s); return (err == nil) == (f != ""), err })
	call("level0.IsLevel0", ask(level0.IsLevel0))
	call("level1.IsLevel1", ask(level1.IsLevel1))
	call("level2.IsLevel2", ask(level2.IsLevel2))
	call("level1.IsExtendedInterval", ask(level1.IsExtendedInterval))
	call("level0.Matches", func() (bool, error) { f, err := level0.Matches(s); return (err == nil) == (f != ""), err })
	call("level1.Matches", func() (bool, error) { f, err := level1.Matches(s); return (err == nil) == (f != ""), err })
	call("level2.Matches", func() (bool, error) { f, err := level2.Matches(s); return (err == nil) == (f != ""), err })
	call("level0.ParseString", func() (bool, error) { return dated(level0.ParseString(s)) })
	call("level1.ParseString", func() (bool, error) { return dated(level1.ParseString(s)) })
	call("level2.ParseString", func() (bool, error) { return dated(level2.ParseString(s)) })
	call("level1.ParseExtendedInterval", func() (bool, error) { return dated(level1.ParseExtendedInterval(s)) })
	for i, f := range features {
		f := f
		if f.is != nil {
			call(fmt.Sprintf("predicate of feature %d", i+1), ask(f.is))
		}
		call(fmt.Sprintf("parser of feature %d", i+1), func() (bool, error) { return dated(f.parse(s)) })
	}
	call("common.DateSpanFromEDTF", func() (bool, error) {
		sp, err := common.DateSpanFromEDTF(s)
		if err != nil {
			return sp == nil, err
		}
		return sp != nil && date(&edtf.EDTFDate{Start: sp.Start, End: sp.End}).Whole, nil
	})
	call("common.YMDFromString", func() (bool, error) { d, err := common.YMDFromString(s); return (d == nil) == (err != nil), err })
	call("calendar.DaysInMonthWithString", func() (bool, error) { _, err := calendar.DaysInMonthWithString(s); return true, err })
	call("unix.DeriveRanges", func() (bool, error) {
		ok, r, err := unix.DeriveRanges(s)
		return ok == (r != nil && err == nil), err
	})
	for _, t := range []string{"1985", "..", s} {
		t := t
		call("cmp.IsBefore", func() (bool, error) { b, err := cmp.IsBefore(s, t); return err == nil || !b, err })
		call("cmp.IsAfter", func() (bool, error) { b, err := cmp.IsAfter(s, t); return err == nil || !b, err })
		call("cmp.IsBefore, second", func() (bool, error) { b, err := cmp.IsBefore(t, s); return err == nil || !b, err })
		call("cmp.IsAfter, second", func() (bool, error) { b, err := cmp.IsAfter(t, s); return err == nil || !b, err })
		call("cmp.IsBetween", func() (bool, error) { b, err := cmp.IsBetween(t, s, s); return err == nil || !b, err })
		call("cmp.IsBetween, first", func() (bool, error) { b, err := cmp.IsBetween(s, t, ".."); return err == nil || !b, err })
	}
	call("edtf.IsOpen", ask(edtf.IsOpen))
	call("edtf.IsUnknown", ask(edtf.IsUnknown))
	call("edtf.IsUnspecified", ask(edtf.IsUnspecified))
	call("edtf.IsDeprecated", ask(edtf.IsDeprecated))
	call("edtf.ReplaceDeprecated", func() (bool, error) { _, err := edtf.ReplaceDeprecated(s); return true, err })
	call("String", func() (bool, error) {
		d, err := parser.ParseString(s)
		if err != nil || d == nil || !date(d).Whole {
			return true, nil
		}
		_ = fmt.Sprint(d.Start, d.End, d.Start.Lower, d.End.Upper, d.Start.Upper.YMD, &edtf.DateSpan{Start: d.Start, End: d.End})
		d.Lower()
		d.Upper()
		return d.String() == s, nil
	})
	for k, v := range out {
		o[k] = v
	}
	o["where"] = where
	return o
}
