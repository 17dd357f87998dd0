// driver runs the real library on cases and writes down what it observes. It judges
// nothing: that is up to the specification in /verif/spec.
//
//	driver observe <cases >observations
//	driver session steps|together <operations >events
//	driver library <strings >answers
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// how long anything may take before it counts as not returning
var patience = 20 * time.Second

var slowCalls int32

// guard runs f and says whether it panicked, or took longer than anything should.
func guard(f func()) (panicked bool, slow bool) {
	done := make(chan bool, 1)
	go func() {
		p := true
		defer func() {
			recover()
			done <- p
		}()
		f()
		p = false
	}()
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case p := <-done:
		return p, false
	case <-t.C:
		atomic.AddInt32(&slowCalls, 1)
		return false, true
	}
}

// Case is one thing to do.
type Case struct {
	K  string   `json:"k"`
	S  string   `json:"s"`
	A  string   `json:"a"`
	B  string   `json:"b"`
	C  string   `json:"c"`
	N  int      `json:"n"`
	L  []int    `json:"l"`
	Ss []string `json:"ss"`
}

func observe(c Case) obs {
	switch c.K {
	case "parse":
		return observeParse(c.S)
	case "bounds":
		return observeBounds(c.S)
	case "entry":
		return observeEntry(c.S)
	case "sides":
		return observeSides(c.S)
	case "quals":
		return observeQuals(c.S)
	case "set":
		return observeSet(c.S)
	case "robust":
		if c.N > 0 { // a long one: s, n times, between a and b
			return observeRobust(c.A + strings.Repeat(c.S, c.N) + c.B)
		}
		return observeRobust(c.S)
	case "pair":
		return observePair(c.A, c.B)
	case "triple":
		return observeTriple(c.A, c.B, c.C)
	case "unix":
		return observeUnix(c.S)
	case "json":
		return observeJSON(c.S)
	case "tsjson":
		return observeTimestampJSON(c.S)
	case "feat":
		return observeFeatures(c.S)
	case "error":
		return observeError(c.A, c.S)
	case "settime":
		return observeSetTime(c.L)
	case "flags":
		return observeFlags(c.Ss)
	case "keyword":
		return observeKeyword(c.S)
	case "constants":
		return observeConstants()
	case "months":
		return observeMonths(c.N)
	case "monthtext":
		return observeMonthText(c.S)
	case "ymdtext":
		return observeYMDText(c.S)
	case "ymdparts":
		return observeYMDParts(c.A, c.B, c.C)
	case "clock":
		return observeClock(c.L, c.S)
	case "flip":
		return observeFlip(c.L)
	case "equal":
		return observeEqual(c.L)
	}
	log.Fatalf("unknown case %v", c)
	return nil
}

// A run that eats all memory is ended here, before the machine ends something else.
func watch() {
	for {
		time.Sleep(50 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 3<<30 {
			fmt.Fprintln(os.Stderr, "driver: memory exhausted")
			os.Exit(97)
		}
	}
}

func main() {
	log.SetPrefix("driver: ")
	debug.SetMaxStack(256 << 20)
	go watch()
	if len(os.Args) < 2 {
		log.Fatal("driver: no mode")
	}
	switch os.Args[1] {
	case "observe":
		runObserve()
	case "session":
		runSession(os.Args[2:])
	case "library":
		runLibrary()
	default:
		log.Fatalf("driver: no mode %s", os.Args[1])
	}
}

func runObserve() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	// where we are, should the library bring the process down
	var at *os.File
	if p := os.Getenv("DRIVER_AT"); p != "" {
		f, err := os.Create(p)
		if err != nil {
			log.Fatal(err)
		}
		at = f
	}
	for n := 1; sc.Scan(); n++ {
		if at != nil {
			fmt.Fprintf(at, "%d\n", n)
		}
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			log.Fatalf("case %d: %v", n, err)
		}
		for _, p := range []*string{&c.S, &c.A, &c.B, &c.C} {
			s, err := unescape(*p)
			if err != nil {
				log.Fatalf("case %d: %v", n, err)
			}
			*p = s
		}
		o := observe(c)
		if o == nil {
			continue
		}
		o["n"] = n
		if err := enc.Encode(o); err != nil {
			log.Fatal(err)
		}
		if atomic.LoadInt32(&slowCalls) > 4 {
			break // it has been shown; do not wait for the rest
		}
	}
	if err := sc.Err(); err != nil {
		log.Fatal(err)
	}
	if err := w.Flush(); err != nil {
		log.Fatal(err)
	}
}
