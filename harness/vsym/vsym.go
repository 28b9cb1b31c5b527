// Package vsym is the interface between harnesses and the symbolic executor. Under the executor
// every function here is an intrinsic; compiled natively it replays recorded inputs.
package vsym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"
)

type input struct {
	Name string `json:"name"`
	Val  int    `json:"val"`
}

type request struct {
	H       string  `json:"h"`
	In      []input `json:"in"`
	Tier    int     `json:"tier"`
	Loops   int     `json:"loops"`
	Timeout int     `json:"timeout_ms"`
}

type reply struct {
	Status string   `json:"status"` // ok, assert, panic, assume, hang
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Runs   int      `json:"runs"`
}

type assertFail struct{ msg string }
type assumeFail struct{}

var (
	cur     []input
	pos     int
	obs     []string
	tier    int
	base    int
	sloppy  string
	hangMsg string
)

func next(name string) int {
	if pos >= len(cur) {
		pos++
		return 0
	}
	v := cur[pos]
	if v.Name != name && sloppy == "" {
		sloppy = fmt.Sprintf("input %d is %q, the replay asks for %q", pos, v.Name, name)
	}
	pos++
	return v.Val
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name)) }

// Choose is an arbitrary integer in [0,n), decided lazily.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return next(name)
}

// Pick is an arbitrary integer in [0,n), decided at once.
func Pick(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return next(name)
}

// Bool is an arbitrary truth value.
func Bool(name string) bool { return next(name) == 1 }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

// Assert is an obligation.
func Assert(c bool, msg string) {
	if !c {
		panic(assertFail{msg})
	}
}

// Reach marks a place that must be reachable for the check to mean anything.
func Reach(name string) {}

// Observe records an output that the native run of the same input must reproduce.
func Observe(name, val string) { obs = append(obs, name+"="+strconv.Quote(val)) }

// Thorough reports whether the deep bounds are in force.
func Thorough() bool { return tier > 0 }

// MapOrder makes every map iteration order a symbolic choice.
func MapOrder(on bool) {}

// Sched makes scheduling a symbolic choice with at most n preemptions.
func Sched(n int) {}

// Quiesce lets other goroutines run as far as they can and returns how many are left.
func Quiesce() int {
	n := 0
	for i := 0; i < 200; i++ {
		n = runtime.NumGoroutine() - base
		if n <= 0 {
			return 0
		}
		time.Sleep(time.Millisecond)
	}
	return n
}

// Symbolic reports whether the program runs under the symbolic executor.
func Symbolic() bool { return false }

// And, Or and StrEq are evaluated without branching.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func StrEq(a, b string) bool { return a == b }
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return string(b)
}

func runOnce(f func(), in []input) (r reply) {
	cur, pos, obs, sloppy = in, 0, nil, ""
	base = runtime.NumGoroutine()
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case assertFail:
				r.Status, r.Msg = "assert", e.msg
			case assumeFail:
				r.Status = "assume"
			default:
				r.Status, r.Msg = "panic", fmt.Sprint(e)
			}
		}
		r.Obs = obs
		if sloppy != "" {
			r.Msg += " [" + sloppy + "]"
		}
	}()
	r.Status = "ok"
	f()
	return
}

// Main serves replay requests, one JSON object per line.
func Main(hs map[string]func()) {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var q request
		if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		f := hs[q.H]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", q.H)
			os.Exit(3)
		}
		tier = q.Tier
		if q.Loops < 1 {
			q.Loops = 1
		}
		if q.Timeout == 0 {
			q.Timeout = 10000
		}
		done := make(chan reply, 1)
		go func() {
			var r reply
			for i := 0; i < q.Loops; i++ {
				r = runOnce(f, q.In)
				r.Runs = i + 1
				if r.Status != "ok" {
					break
				}
			}
			done <- r
		}()
		var r reply
		select {
		case r = <-done:
		case <-time.After(time.Duration(q.Timeout) * time.Millisecond):
			r = reply{Status: "hang", Msg: "no result after " + fmt.Sprint(q.Timeout) + " ms"}
		}
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
		out.Flush()
		if r.Status == "hang" {
			os.Exit(0)
		}
	}
}
