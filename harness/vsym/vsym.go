// Package vsym is the interface between the verification harnesses and the
// symbolic executor. The executor replaces the functions of this file by
// symbolic intrinsics; compiled natively they read a concrete case, so the
// same harness replays a counterexample against the real code.
package vsym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"time"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	U    uint64 `json:"u"`
	B    string `json:"b"`
}

type obs struct {
	Name string `json:"name"`
	U    uint64 `json:"u"`
	B    string `json:"b,omitempty"`
	K    string `json:"k"`
}

// Case is the concrete case being replayed.
var Case struct {
	Fn     string         `json:"fn"`
	Params map[string]int `json:"params"`
	Inputs []input        `json:"inputs"`
	Sync   bool           `json:"sync"`
	Stress bool           `json:"stress"`
}

var (
	mu       sync.Mutex
	byName   map[string]input
	counts   map[string]int
	observed []obs
	allocLim uint64
	allocAt  uint64
	stressed bool
	start    time.Time

	// SettleHook waits until every other goroutine is blocked.
	SettleHook = func() { time.Sleep(20 * time.Millisecond) }
)

// Load reads the case file.
func Load(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &Case); err != nil {
		panic(err)
	}
	byName = map[string]input{}
	for _, i := range Case.Inputs {
		byName[i.Name] = i
	}
	Restart(0)
}

// Restart prepares another execution of the same case.
func Restart(seed uint64) {
	mu.Lock()
	counts = map[string]int{}
	observed = nil
	allocLim = 0
	stressed = Case.Stress
	start = time.Now()
	mu.Unlock()
}

// Finish reports a completed execution.
func Finish() {
	checkAlloc()
	b, _ := json.Marshal(observed)
	fmt.Printf("\nVSYM-OK %s\n", b)
	os.Exit(0)
}

func get(name string) input {
	mu.Lock()
	defer mu.Unlock()
	n := counts[name]
	counts[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return byName[name]
}

func fail(msg string) {
	fmt.Printf("\nVSYM-FAIL %s\n", msg)
	os.Exit(3)
}

func U64(name string) uint64 { return get(name).U }
func U32(name string) uint32 { return uint32(get(name).U) }
func U16(name string) uint16 { return uint16(get(name).U) }
func U8(name string) uint8   { return uint8(get(name).U) }
func Bool(name string) bool  { return get(name).U != 0 }

// Int is an integer with lo <= value <= hi.
func Int(name string, lo, hi int) int {
	in := get(name)
	if in.Kind == "" {
		return lo
	}
	return int(in.U)
}

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	in := get(name)
	b, _ := hex.DecodeString(in.B)
	r := make([]byte, n)
	copy(r, b)
	return r
}

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose is a number in [0, n), explored exhaustively.
func Choose(name string, n int) int { return int(get(name).U) }

// Concrete explores every value of v separately.
func Concrete(v int) int { return v }

// Fork explores both values of c separately.
func Fork(c bool) bool { return c }

// Param is a bound of the check.
func Param(name string, def int) int {
	if v, ok := Case.Params[name]; ok {
		return v
	}
	return def
}

// Symbolic reports whether the harness is executed symbolically.
func Symbolic() bool { return false }

func Assume(c bool) {
	if !c {
		fmt.Printf("\nVSYM-ASSUME\n")
		os.Exit(0)
	}
}

func Assert(c bool, msg string) {
	if !c {
		fail(msg)
	}
}

func AssertEq(a, b uint64, msg string) {
	if a != b {
		fail(fmt.Sprintf("%s: %#x != %#x", msg, a, b))
	}
}

func AssertEqBytes(a, b []byte, msg string) {
	if string(a) != string(b) {
		fail(fmt.Sprintf("%s: %x != %x", msg, cut(a), cut(b)))
	}
}

func cut(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Cover marks a point that must be reachable.
func Cover(name string) {}

func Observe(name string, v uint64) {
	mu.Lock()
	observed = append(observed, obs{Name: name, U: v, K: "u"})
	mu.Unlock()
}

func ObserveBytes(name string, b []byte) {
	if len(b) > 4096 {
		b = b[:4096]
	}
	mu.Lock()
	observed = append(observed, obs{Name: name, B: hex.EncodeToString(b), K: "b"})
	mu.Unlock()
}

// LimitAlloc asserts that no single allocation of the code under test exceeds
// n bytes from here on (0: no limit).
func LimitAlloc(n int) {
	checkAlloc()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	allocLim, allocAt = uint64(n), ms.TotalAlloc
}

func checkAlloc() {
	if allocLim == 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if d := ms.TotalAlloc - allocAt; d > allocLim+1<<20 {
		fail(fmt.Sprintf("allocated %d bytes, limit %d", d, allocLim))
	}
	allocLim = 0
}

// Explore enables exploration of schedules with up to n preemptions.
func Explore(n int) {}

// OnListen sets what net.Listen does: a func(network, address string)
// (net.Listener, error).
func OnListen(f any) {}

// Pools gives every goroutine a P of its own: what it puts into a sync.Pool
// comes back to itself only.
func Pools() {}

// Races enables the detection of unsynchronised accesses.
func Races() {}

// Yield is a scheduling point.
func Yield() {
	if !stressed {
		return
	}
	x := rand.Uint64() // not synchronised, which would hide races
	switch k := x % 32; {
	case k < 22:
	case k < 31:
		for ; k >= 22; k-- {
			runtime.Gosched()
		}
	default:
		for n := x >> 32 % 500; n > 0; n-- {
			runtime.Gosched()
		}
	}
}

// Settle waits until every other goroutine is blocked.
func Settle() { SettleHook() }

// Horizon bounds virtual time.
func Horizon(t time.Duration) {}

// Now is the virtual time since the start.
func Now() time.Duration { return time.Since(start) }

// Goroutines is the number of goroutines that exist.
func Goroutines() int { return runtime.NumGoroutine() }

// Done ends the execution successfully.
func Done() { Finish() }
