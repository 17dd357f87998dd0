package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
)

// Op is something that a client does, see Session.tla.
type Op struct {
	C  int    `json:"c"`
	Op string `json:"op"`
	H  int    `json:"h"`
	G  int    `json:"g"`
	S  string `json:"s"`
	T  string `json:"t"`
}

// Event is what happened.
type Event struct {
	C  int    `json:"c"`
	Op string `json:"op"`
	H  int    `json:"h"`
	G  int    `json:"g"`
	S  string `json:"s"`
	T  string `json:"t"`
	R  string `json:"r"`
	V  string `json:"v"`
}

var verbose = os.Getenv("DRIVER_VERBOSE") != ""

func digest(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unencodable"
	}
	if verbose {
		return string(b)
	}
	return fmt.Sprintf("%x", sha256.Sum256(b))[:20]
}

// what a date is, with all that can be reached from it
func value(d *edtf.EDTFDate) string {
	if d == nil {
		return "nil"
	}
	return digest([]interface{}{date(d), d.Start == nil, d.End == nil})
}

type client struct {
	id      int
	handles map[int]*edtf.EDTFDate
}

func message(err error) string {
	if err == nil {
		return ""
	}
	return "error: " + err.Error()
}

func guarded(e *Event, f func() interface{}) {
	var r interface{}
	p, slow := guard(func() { r = f() })
	switch {
	case p:
		e.R = "panic"
	case slow:
		e.R = "slow"
	default:
		e.R = digest(r)
	}
}

// change alters everything that can be reached from a date
func change(d *edtf.EDTFDate) {
	if d == nil {
		return
	}
	d.EDTF += "!"
	d.Feature += "!"
	d.Level += 7
	for _, r := range []*edtf.DateRange{d.Start, d.End} {
		if r == nil {
			continue
		}
		r.EDTF += "!"
		for _, x := range []*edtf.Date{r.Lower, r.Upper} {
			if x == nil {
				continue
			}
			x.DateTime += "!"
			x.Uncertain.ToggleFlag(edtf.ALL | edtf.WEEK)
			x.Approximate.ToggleFlag(edtf.ANY | edtf.WEEK)
			x.Unspecified.ToggleFlag(edtf.DAY | edtf.WEEK)
			x.Precision.ToggleFlag(edtf.ALL | edtf.ANY)
			x.Inclusivity.ToggleFlag(edtf.DAY | edtf.WEEK)
			x.Open = !x.Open
			x.Unknown = !x.Unknown
			if x.YMD != nil {
				x.YMD.Year += 3
				x.YMD.Month += 5
				x.YMD.Day += 7
			}
			if x.Timestamp != nil {
				*x.Timestamp = *edtf.NewTimestampWithTime(timePtr(x.Timestamp.Unix() + 12345))
			}
		}
	}
}

func timePtr(u int64) *time.Time {
	t := time.Unix(u, 0)
	return &t
}

func (c *client) do(o Op) Event {
	e := Event{C: o.C, Op: o.Op, H: o.H, G: o.G, S: escape(o.S), T: escape(o.T)}
	h, g := c.handles[o.H], c.handles[o.G]
	switch o.Op {
	case "parse":
		var d *edtf.EDTFDate
		guarded(&e, func() interface{} {
			var err error
			d, err = parser.ParseString(o.S)
			return []interface{}{date(d), message(err), kind(err)}
		})
		e.V = value(d)
		c.handles[o.H] = d
	case "valid":
		guarded(&e, func() interface{} { return []bool{parser.IsValid(o.S), edtf.IsOpen(o.S), edtf.IsUnknown(o.S)} })
	case "match":
		guarded(&e, func() interface{} {
			l, f, err := parser.Matches(o.S)
			return []interface{}{l, f, message(err)}
		})
	case "unix":
		guarded(&e, func() interface{} {
			ok, r, err := unix.DeriveRanges(o.S)
			if r == nil {
				return []interface{}{ok, message(err)}
			}
			return []interface{}{ok, span(r.Outer), span(r.Inner), message(err)}
		})
	case "span":
		guarded(&e, func() interface{} {
			sp, err := common.DateSpanFromEDTF(o.S)
			if sp == nil {
				return message(err)
			}
			return []interface{}{date(&edtf.EDTFDate{Start: sp.Start, End: sp.End}), message(err)}
		})
	case "levels":
		guarded(&e, func() interface{} {
			out := []interface{}{level0.IsLevel0(o.S), level1.IsLevel1(o.S), level2.IsLevel2(o.S)}
			for _, f := range []func(string) (*edtf.EDTFDate, error){level0.ParseString, level1.ParseString, level2.ParseString} {
				d, err := f(o.S)
				out = append(out, date(d), message(err))
			}
			return out
		})
	case "between":
		guarded(&e, func() interface{} {
			return []string{
				compared(func() (bool, error) { return cmp.IsBefore(o.S, o.T) }),
				compared(func() (bool, error) { return cmp.IsAfter(o.S, o.T) }),
				compared(func() (bool, error) { return cmp.IsBetween(o.S, o.T, "..") }),
				compared(func() (bool, error) { return cmp.IsBetween(o.S, "1900", o.T) }),
			}
		})
	case "encode":
		guarded(&e, func() interface{} {
			b, err := json.Marshal(h)
			return []string{string(b), message(err)}
		})
	case "bounds":
		guarded(&e, func() interface{} {
			if h == nil {
				return "nil"
			}
			return []interface{}{instant(h.Lower), instant(h.Upper)}
		})
	case "text":
		guarded(&e, func() interface{} {
			if h == nil {
				return "nil"
			}
			return fmt.Sprint(h.String(), h.Start.String(), h.End.String(), h.Start.Lower.String(), h.End.Upper.String())
		})
	case "compare":
		guarded(&e, func() interface{} {
			if h == nil || g == nil {
				return "nil"
			}
			return []string{
				compared(func() (bool, error) { return h.Before(g) }),
				compared(func() (bool, error) { return h.After(g) }),
			}
		})
	case "change":
		change(h)
		e.V = value(h)
	default:
		log.Fatalf("driver: no operation %s", o.Op)
	}
	return e
}

func (c *client) looks() []Event {
	ids := make([]int, 0)
	for h := range c.handles {
		ids = append(ids, h)
	}
	sort.Ints(ids)
	out := make([]Event, 0)
	for _, h := range ids {
		out = append(out, Event{C: c.id, Op: "look", H: h, V: value(c.handles[h])})
	}
	return out
}

// older is s with other digits: a hundred ways or so
func older(s string, n int) string {
	b := []byte(s)
	k := 1
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] >= '0' && b[i] <= '9' {
			b[i] = '0' + byte((int(b[i]-'0')+n/k)%10)
			k *= 3
		}
	}
	return string(b)
}

// runSession acts out the operations on stdin: one client at a time, in order, with a
// look at everything after each ("steps"), or all clients at once ("together"), with a
// look at the end.
func runSession(args []string) {
	if len(args) != 1 {
		log.Fatal("driver: session steps|together")
	}
	together := args[0] == "together"
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	ops := make([]Op, 0)
	ids := make([]int, 0)
	clients := map[int]*client{}
	for sc.Scan() {
		var o Op
		if err := json.Unmarshal(sc.Bytes(), &o); err != nil {
			log.Fatal(err)
		}
		for _, p := range []*string{&o.S, &o.T} {
			s, err := unescape(*p)
			if err != nil {
				log.Fatal(err)
			}
			*p = s
		}
		if clients[o.C] == nil {
			clients[o.C] = &client{id: o.C, handles: map[int]*edtf.EDTFDate{}}
			ids = append(ids, o.C)
		}
		ops = append(ops, o)
	}
	// a long life before, of which nothing is told
	if n, _ := strconv.Atoi(os.Getenv("BURN")); n > 0 && len(ops) > 0 {
		for i := 0; i < n; i++ {
			s := older(ops[i%len(ops)].S, i/len(ops))
			guard(func() {
				parser.ParseString(s)
				if i%8 == 0 {
					parser.IsValid(s)
					parser.Matches(s)
				}
			})
		}
	}
	events := make([]Event, 0)
	if !together {
		for _, o := range ops {
			events = append(events, clients[o.C].do(o))
			for _, i := range ids {
				events = append(events, clients[i].looks()...)
			}
		}
	} else {
		logs := make([][]Event, len(ids))
		ready := int32(0)
		wg := sync.WaitGroup{}
		for k, i := range ids {
			k, c := k, clients[i]
			mine := make([]Op, 0)
			for _, o := range ops {
				if o.C == i {
					mine = append(mine, o)
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				// all at the same time, as near as can be
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < int32(len(ids)) {
					runtime.Gosched()
				}
				for _, o := range mine {
					logs[k] = append(logs[k], c.do(o))
				}
			}()
		}
		wg.Wait()
		for k, i := range ids {
			events = append(events, logs[k]...)
			events = append(events, clients[i].looks()...)
		}
	}
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for _, e := range events {
		if err := enc.Encode(e); err != nil {
			log.Fatal(err)
		}
	}
	if err := w.Flush(); err != nil {
		log.Fatal(err)
	}
}

// runLibrary writes down what the library answers to each string (one JSON string on a
// line), for the front ends to be compared with.
func runLibrary() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for sc.Scan() {
		var s string
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			log.Fatal(err)
		}
		out := map[string]interface{}{"ok": false, "json": "", "err": "", "match": false, "level": 0, "feature": ""}
		p, slow := guard(func() {
			d, err := parser.ParseString(s)
			if err != nil {
				out["err"] = err.Error()
			} else if b, err := json.Marshal(d); err == nil {
				out["ok"] = true
				out["json"] = string(b)
			}
			l, f, err := parser.Matches(s)
			if err == nil {
				out["match"], out["level"], out["feature"] = true, l, f
			}
		})
		out["panic"] = p || slow
		if err := enc.Encode(out); err != nil {
			log.Fatal(err)
		}
	}
	if err := w.Flush(); err != nil {
		log.Fatal(err)
	}
}
