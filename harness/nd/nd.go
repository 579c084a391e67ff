// Package nd declares the nondeterministic inputs and the assertions of the
// harnesses. The symbolic engine intercepts every function of this package;
// the bodies here are used when a counterexample is replayed natively.
package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

// Case is one concrete execution of a harness.
type Case struct {
	Params map[string]int64  `json:"params"`
	Inputs map[string]uint64 `json:"inputs"`
}

var (
	mu      sync.Mutex
	cur     Case
	seen    map[string]int
	status  string
	obs     []string
	reached []string
)

// Begin starts a concrete run.
func Begin(c Case) {
	cur, seen, status, obs, reached = c, map[string]int{}, "", nil, nil
}

// Status is the outcome of the run: "" (held), "assume", or "assert: ...".
func Status() (string, []string) { return status, obs }

// SetStatus overrides the outcome unless one is recorded.
func SetStatus(s string) {
	mu.Lock()
	defer mu.Unlock()
	if status == "" {
		status = s
	}
}

func input(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := seen[name]
	seen[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return cur.Inputs[name]
}

func end(s string) {
	SetStatus(s)
	runtime.Goexit()
}

// Param is a bound of the job, a constant.
func Param(name string) int {
	v, ok := cur.Params[name]
	if !ok {
		return 0
	}
	return int(v)
}

func Int64(name string) int64   { return int64(input(name)) }
func Int(name string) int       { return int(input(name)) }
func Int32(name string) int32   { return int32(input(name)) }
func Int16(name string) int16   { return int16(input(name)) }
func Int8(name string) int8     { return int8(input(name)) }
func Uint64(name string) uint64 { return input(name) }
func Uint(name string) uint     { return uint(input(name)) }
func Uint32(name string) uint32 { return uint32(input(name)) }
func Uint16(name string) uint16 { return uint16(input(name)) }
func Byte(name string) byte     { return byte(input(name)) }
func Bool(name string) bool     { return input(name) != 0 }

// String is a string of exactly n arbitrary bytes.
func String(name string, n int) string {
	mu.Lock()
	k := seen[name]
	seen[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(cur.Inputs[fmt.Sprintf("%s[%d]", name, i)])
	}
	mu.Unlock()
	return string(b)
}

// Choice is an arbitrary number in [0,n), explored case by case.
func Choice(name string, n int) int {
	v := int(input(name))
	if v >= n {
		end("assume")
	}
	return v
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		end("assume")
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		end("assert: " + msg)
	}
}

// Reach is a reachability witness.
func Reach(tag string) {
	mu.Lock()
	reached = append(reached, tag)
	mu.Unlock()
}

// Stop ends the run successfully.
func Stop() { runtime.Goexit() }

// ObserveStr and ObserveInt record a result the engine's prediction is compared with.
func ObserveStr(s string) {
	mu.Lock()
	obs = append(obs, fmt.Sprintf("%q", s))
	mu.Unlock()
}

func ObserveInt(n int64) {
	mu.Lock()
	obs = append(obs, fmt.Sprint(n))
	mu.Unlock()
}

func ObserveBool(b bool) {
	if b {
		ObserveInt(1)
	} else {
		ObserveInt(0)
	}
}

// And and Or do not fork.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Conc forces a value to be concrete, exploring all of them.
func Conc(n int) int { return n }

// Decide forces a condition to be decided by forking.
func Decide(b bool) bool { return b }

// Symbolic reports whether the engine is running the harness.
func Symbolic() bool { return false }

func Freeze() {}
func Thaw()   {}

// Concurrent is called with work that several goroutines may do at once. The
// engine runs it once and reports any write to memory that existed before;
// natively it runs in parallel, for the race detector.
func Concurrent(f func()) {
	if !Symbolic() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 20; k++ {
					f()
				}
			}()
		}
		close(start)
		wg.Wait()
		return
	}
	Freeze()
	f()
	Thaw()
}

type result struct {
	Status string   `json:"status"`
	Obs    []string `json:"obs"`
	Alloc  uint64   `json:"alloc"`
}

type rcase struct {
	Harness string            `json:"harness"`
	Params  map[string]int64  `json:"params"`
	Inputs  map[string]uint64 `json:"inputs"`
	Reps    int               `json:"reps"`
}

// Main runs the cases of a replay file against the real code.
func Main(table map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []rcase
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	for _, c := range cases {
		var r result
		for i := 0; i < max(c.Reps, 1); i++ {
			r = run1(table[c.Harness], Case{Params: c.Params, Inputs: c.Inputs})
			if r.Status != "" && r.Status != "assume" {
				break
			}
		}
		o, _ := json.Marshal(r)
		fmt.Println(string(o))
	}
}

func run1(f func(), c Case) result {
	Begin(c)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				SetStatus("panic: " + fmt.Sprint(r))
			}
		}()
		f()
	}()
	<-done
	runtime.ReadMemStats(&m1)
	s, o := Status()
	return result{s, o, m1.TotalAlloc - m0.TotalAlloc}
}

// IteInt is a if c, else b, without a branch.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Range is any integer from lo to hi.
func Range(name string, lo, hi int) int {
	v := input(name)
	if v > uint64(hi-lo) {
		end("assume")
	}
	return lo + int(v)
}

var (
	clock time.Time
	tick  time.Duration
)

// SetNow sets the clock that the code under test reads.
func SetNow(t time.Time) { clock, tick = t, 0 }

// Tick lets the clock advance by d whenever it is read.
func Tick(d time.Duration) { tick = d }

// Now replaces time.Now in the code under test.
func Now() time.Time {
	if clock.IsZero() {
		return time.Now()
	}
	now := clock
	clock = clock.Add(tick)
	return now
}

// Since replaces time.Since in the code under test.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until in the code under test.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
