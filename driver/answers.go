package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
	"strconv"
	"strings"
	"time"
)

// the answer of a comparison: yes, no, error, panic or slow
func compared(f func() (bool, error)) string {
	var b bool
	var err error
	p, slow := guard(func() { b, err = f() })
	switch {
	case p:
		return "panic"
	case slow:
		return "slow"
	case err != nil && b:
		return "both"
	case err != nil && err.Error() == "":
		return "silent"
	case err != nil:
		return "error"
	case b:
		return "yes"
	}
	return "no"
}

// pair: two strings compared, as strings and as dates, in both directions
func observePair(a string, b string) obs {
	o := obs{"k": "pair", "sa": escape(a), "sb": escape(b)}
	pa, pb := parseString(a), parseString(b)
	o["a"], o["b"] = pa, pb
	o["before"] = compared(func() (bool, error) { return cmp.IsBefore(a, b) })
	o["after"] = compared(func() (bool, error) { return cmp.IsAfter(a, b) })
	o["rbefore"] = compared(func() (bool, error) { return cmp.IsBefore(b, a) })
	o["rafter"] = compared(func() (bool, error) { return cmp.IsAfter(b, a) })
	o["obefore"], o["oafter"] = "", ""
	if pa.OK && pb.OK && pa.Date.Whole && pb.Date.Whole {
		o["obefore"] = compared(func() (bool, error) { return pa.d.Before(pb.d) })
		o["oafter"] = compared(func() (bool, error) { return pa.d.After(pb.d) })
	}
	return o
}

// triple: is d between i and c?
func observeTriple(d string, i string, c string) obs {
	o := obs{"k": "triple", "sd": escape(d), "si": escape(i), "sc": escape(c)}
	o["d"], o["i"], o["c"] = parseString(d), parseString(i), parseString(c)
	o["between"] = compared(func() (bool, error) { return cmp.IsBetween(d, i, c) })
	o["bdi"] = compared(func() (bool, error) { return cmp.IsBefore(d, i) })
	o["bic"] = compared(func() (bool, error) { return cmp.IsBefore(i, c) })
	o["bdc"] = compared(func() (bool, error) { return cmp.IsBefore(d, c) })
	return o
}

func span(s *unix.DateSpan) [][]int {
	if s == nil {
		return [][]int{}
	}
	return [][]int{split(s.Start), split(s.End)}
}

// unix: the ranges of a string
func observeUnix(s string) obs {
	o := named("unix", s)
	o["p"] = parseString(s)
	var ok bool
	var r *unix.DateRange
	var err error
	p, slow := guard(func() { ok, r, err = unix.DeriveRanges(s) })
	o["panic"] = p || slow
	o["derived"] = ok
	o["failed"] = err != nil
	o["msg"] = err == nil || err.Error() != ""
	o["range"] = r != nil
	o["outer"], o["inner"] = [][]int{}, [][]int{}
	if r != nil {
		o["outer"], o["inner"] = span(r.Outer), span(r.Inner)
	}
	return o
}

// json: a date encoded and decoded

// flat is JSON as a map from paths to what is there, in words.
func flat(path string, v interface{}, out map[string]string) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, y := range x {
			p := k
			if path != "" {
				p = path + "." + k
			}
			flat(p, y, out)
		}
		if len(x) == 0 {
			out[path] = "{}"
		}
	case []interface{}:
		for i, y := range x {
			flat(fmt.Sprintf("%s[%d]", path, i), y, out)
		}
		if len(x) == 0 {
			out[path] = "[]"
		}
	case json.Number:
		n, err := strconv.ParseInt(string(x), 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != string(x) {
			out[path] = "not an integer: " + string(x)
		} else if strings.HasSuffix(path, ".timestamp") {
			out[path] = fmt.Sprintf("seconds %d+%d", split(n)[0], split(n)[1])
		} else {
			out[path] = fmt.Sprintf("number %d", n)
		}
	case string:
		out[path] = "string " + escape(x)
	default:
		out[path] = fmt.Sprint(x) // true, false, <nil>
	}
}

func observeJSON(s string) obs {
	o := named("json", s)
	p := parseString(s)
	o["p"] = p
	o["ok"] = false
	o["why"] = ""
	if !p.OK || !p.Date.Whole {
		o["why"] = "not parsed"
		return o
	}
	why := ""
	panicked, slow := guard(func() {
		enc, err := json.Marshal(p.d)
		if err != nil {
			why = "encoding: " + err.Error()
			return
		}
		var raw interface{}
		dec := json.NewDecoder(strings.NewReader(string(enc)))
		dec.UseNumber()
		if err := dec.Decode(&raw); err != nil {
			why = "reading: " + err.Error()
			return
		}
		words := map[string]string{}
		flat("", raw, words)
		o["json"] = words
		o["after"] = date(p.d) // encoding does not change it
		var back *edtf.EDTFDate
		if err := json.Unmarshal(enc, &back); err != nil {
			why = "decoding: " + err.Error()
			return
		}
		o["back"] = date(back)
		again, err := json.Marshal(back)
		if err != nil {
			why = "encoding again: " + err.Error()
			return
		}
		val, err := json.Marshal(*p.d)
		if err != nil {
			why = "encoding the value: " + err.Error()
			return
		}
		o["bytes"] = string(again) == string(enc) && string(val) == string(enc)
		indented, err := json.MarshalIndent(p.d, " ", "  ")
		if err != nil {
			why = "encoding with indents: " + err.Error()
			return
		}
		var spaced edtf.EDTFDate
		if err := json.Unmarshal(indented, &spaced); err != nil {
			why = "decoding indented: " + err.Error()
			return
		}
		o["spaced"] = date(&spaced)
		var ask = func(d *edtf.EDTFDate) []string {
			out := make([]string, 0)
			for _, f := range []func() (*time.Time, error){d.Lower, d.Upper} {
				t, err := f()
				if err != nil {
					out = append(out, kind(err))
				} else {
					out = append(out, t.Format(time.RFC3339))
				}
			}
			for _, r := range references {
				for _, f := range []func() (bool, error){
					func() (bool, error) { return d.Before(r) }, func() (bool, error) { return d.After(r) },
					func() (bool, error) { return r.Before(d) }, func() (bool, error) { return r.After(d) },
				} {
					out = append(out, compared(f))
				}
			}
			return out
		}
		o["answers"] = ask(p.d)
		o["backanswers"] = ask(back)
		o["ok"] = true
	})
	if panicked || slow {
		why = "panic"
	}
	o["why"] = why
	if why != "" {
		o["ok"] = false
	}
	return o
}

var references []*edtf.EDTFDate

func init() {
	for _, s := range []string{"1970-01-01", "1985-06", "-0001", "../1950", "..", ""} {
		d, err := parser.ParseString(s)
		if err == nil && d != nil {
			references = append(references, d)
		}
	}
}

// error: what the predicates say of an error of a kind

var kinds = []string{"NotSet", "NotImplemented", "Invalid", "Unsupported", "Unrecognized"}

func observeError(made string, s string) obs {
	o := obs{"k": "error", "s": escape(s), "made": made, "kinds": kinds}
	var err error
	switch made {
	case "NotSet":
		err = edtf.NotSet()
	case "NotImplemented":
		err = edtf.NotImplemented("a label", s)
	case "Invalid":
		err = edtf.Invalid("a label", s)
	case "Unsupported":
		err = edtf.Unsupported("a label", s)
	case "Unrecognized":
		err = edtf.Unrecognized("a label", s)
	case "other":
		err = errors.New(s)
	case "text": // an error that only says the same
		err = errors.New(edtf.Invalid("a label", s).Error())
	case "number":
		_, err = strconv.Atoi("x" + s)
	case "time":
		_, err = time.Parse(time.RFC3339, s+"?")
	case "none":
		err = nil
	}
	o["is"] = []int{
		answer(func() bool { return edtf.IsNotSet(err) }),
		answer(func() bool { return edtf.IsNotImplemented(err) }),
		answer(func() bool { return edtf.IsInvalid(err) }),
		answer(func() bool { return edtf.IsUnsupported(err) }),
		answer(func() bool { return edtf.IsUnrecognized(err) }),
	}
	msg := ""
	if err != nil {
		msg = err.Error()
	}
	o["msg"] = msg != ""
	o["quotes"] = strings.Contains(msg, s)
	return o
}

// settime: a bound whose time is set to <<day, second, nanosecond>> in a zone
func observeSetTime(l []int) obs {
	day, sec, nano, zone := l[0], l[1], l[2], l[3]
	o := obs{"k": "settime", "s": fmt.Sprint(l), "given": []int{day, sec}}
	t := time.Unix(int64(day)*86400+int64(sec), int64(nano)).In(time.FixedZone("somewhere", zone))
	d := &edtf.Date{}
	back := time.Time{}
	var unix int64
	p, slow := guard(func() {
		d.SetTime(&t)
		back = *d.Timestamp.Time()
		unix = d.Timestamp.Unix()
	})
	o["panic"] = p || slow
	c := corner(d)
	o["t"], o["dt"] = c.T, c.DT
	o["back"] = split(back.Unix())
	_, off := back.Zone()
	o["utc"] = off == 0
	o["unix"] = split(unix)
	return o
}

// flags: a sequence of operations on a precision, each as op:flag
func observeFlags(ops []string) obs {
	o := obs{"k": "flags", "s": strings.Join(ops, " ")}
	type step struct {
		Op    string `json:"op"`
		Flag  int    `json:"f"`
		Was   []bool `json:"has"` // the answers of HasFlag for every single bit, after the step
		Value []int  `json:"v"`   // the value, as 16 bit halves
		Is    []bool `json:"is"`  // annual, monthly, daily
		Any   bool   `json:"any"` // HasFlag(flag)
	}
	var p edtf.Precision
	steps := make([]step, 0)
	panicked, slow := guard(func() {
		for _, x := range ops {
			i := strings.Index(x, ":")
			op := x[:i]
			n, _ := strconv.ParseUint(x[i+1:], 10, 32)
			f := edtf.Precision(n)
			switch op {
			case "start":
				p = f
			case "add":
				p.AddFlag(f)
			case "clear":
				p.ClearFlag(f)
			case "toggle":
				p.ToggleFlag(f)
			}
			st := step{Op: op, Flag: int(f), Is: []bool{p.IsAnnual(), p.IsMonthly(), p.IsDaily()}}
			for b := 0; b < 12; b++ {
				st.Was = append(st.Was, p.HasFlag(edtf.Precision(1<<uint(b))))
			}
			st.Any = p.HasFlag(f)
			st.Value = []int{int(uint32(p) >> 16), int(uint32(p) & 0xffff)}
			steps = append(steps, st)
		}
	})
	o["panic"] = panicked || slow
	o["steps"] = steps
	return o
}

func observeConstants() obs {
	return obs{"k": "constants", "s": "constants",
		"flags": map[string]int{
			"NONE": int(edtf.NONE), "ALL": int(edtf.ALL), "ANY": int(edtf.ANY), "DAY": int(edtf.DAY), "WEEK": int(edtf.WEEK),
			"MONTH": int(edtf.MONTH), "YEAR": int(edtf.YEAR), "DECADE": int(edtf.DECADE), "CENTURY": int(edtf.CENTURY),
			"MILLENIUM": int(edtf.MILLENIUM)},
		"words": map[string]string{
			"UNCERTAIN": edtf.UNCERTAIN, "APPROXIMATE": edtf.APPROXIMATE, "BOTH": edtf.UNCERTAIN_AND_APPROXIMATE,
			"OPEN": edtf.OPEN, "OPEN_2012": edtf.OPEN_2012, "UNSPECIFIED": edtf.UNSPECIFIED,
			"UNSPECIFIED_2012": edtf.UNSPECIFIED_2012, "UNKNOWN": edtf.UNKNOWN, "UNKNOWN_2012": edtf.UNKNOWN_2012,
			"NEGATIVE": edtf.NEGATIVE, "HMS_LOWER": edtf.HMS_LOWER, "HMS_UPPER": edtf.HMS_UPPER},
		"maxyears": edtf.MAX_YEARS}
}

// keyword: how a string is classified
func observeKeyword(s string) obs {
	o := named("keyword", s)
	o["open"] = answer(func() bool { return edtf.IsOpen(s) })
	o["unspecified"] = answer(func() bool { return edtf.IsUnspecified(s) })
	o["unknown"] = answer(func() bool { return edtf.IsUnknown(s) })
	o["deprecated"] = answer(func() bool { return edtf.IsDeprecated(s) })
	r := ""
	var err error
	p, slow := guard(func() { r, err = edtf.ReplaceDeprecated(s) })
	o["panic"] = p || slow
	o["replaced"] = err == nil
	o["with"] = escape(r)
	o["msg"] = err == nil || err.Error() != ""
	return o
}

// tsjson: a timestamp decoded from a JSON text, on its own and as a member of a date
func observeTimestampJSON(s string) obs {
	o := named("tsjson", s)
	for _, where := range []string{"alone", "within"} {
		ok, value := false, ""
		p, slow := guard(func() {
			var ts *edtf.Timestamp
			var err error
			if where == "alone" {
				ts = &edtf.Timestamp{}
				err = json.Unmarshal([]byte(s), ts)
			} else {
				var d edtf.Date
				err = json.Unmarshal([]byte(`{"datetime":"","timestamp":`+s+`}`), &d)
				ts = d.Timestamp
			}
			if err == nil && ts != nil {
				ok, value = true, strconv.FormatInt(ts.Unix(), 10)
			}
		})
		o[where] = map[string]interface{}{"ok": ok, "value": value, "panic": p || slow}
	}
	return o
}
