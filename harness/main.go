package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	smap "github.com/kazu/skiplistmap"
)

type runner func(c kase, res *result)

var runners = map[string]runner{
	"seq": runSeq,
	"par": runConc,
}

// onViolation is called when a case fails
var onViolation = func() {}

// runCase runs one case; the returned string is the violation.
func runCase(line string) (res *result, viol string) {
	res = &result{counts: map[string]int{}}
	defer func() {
		if v := recover(); v != nil {
			onViolation()
			if vi, ok := v.(violation); ok {
				viol = vi.msg
				return
			}
			viol = fmt.Sprintf("panic: %v\n%s", v, trimStack(debug.Stack()))
		}
	}()
	c := parseCase(line)
	fn, ok := runners[c.kind]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such kind of case:", c.kind)
		os.Exit(4)
	}
	fn(c, res)
	return
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

type out struct {
	Case   string         `json:"case"`
	Counts map[string]int `json:"counts,omitempty"`
	Finger string         `json:"finger,omitempty"`
	Note   string         `json:"note,omitempty"`
	Viol   string         `json:"viol,omitempty"`
	Incon  string         `json:"incon,omitempty"`
	Start  bool           `json:"start,omitempty"`
}

// usage: vh run < cases   one JSON line before (start) and after each case, on fd 3 if given, else stdout
func main() {
	fd := flag.Int("fd", 1, "file descriptor for results")
	stop := flag.Bool("stop", true, "stop at the first violation")
	flag.Parse()
	runtime.GOMAXPROCS(runtime.NumCPU())
	mark := os.Getenv("VH_MARK") != "" // for reports of the race detector
	w := os.NewFile(uintptr(*fd), "results")
	errw := os.Stderr
	if os.Getenv("VH_STATS") != "" { // statistics are on the whole time; what New prints then is not looked at
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stderr = null
		}
		smap.EnableStats = true
	}
	emit := func(o out) {
		b, _ := json.Marshal(o)
		w.Write(append(b, '\n'))
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" {
			continue
		}
		emit(out{Case: line, Start: true})
		if mark {
			fmt.Fprintln(errw, "@@case", line)
		}
		res, viol := runCase(line)
		emit(out{Case: line, Counts: res.counts, Finger: fmt.Sprintf("%016x", res.finger), Note: res.note, Viol: viol, Incon: res.incon})
		if viol != "" && *stop {
			os.Exit(1)
		}
	}
}
