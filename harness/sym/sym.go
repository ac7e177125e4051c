// Package sym is the harness side of the symbolic engine. Under the engine
// every function below is intercepted: inputs become solver variables and
// Assert becomes a query over all their values. Compiled natively, the same
// functions read the inputs of one concrete case, so that a solver model can be
// replayed against the real build.
package sym

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

// RuntimeError is the engine's stand-in for runtime.Error values.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }

// RuntimeError marks the type as a runtime error.
func (e RuntimeError) RuntimeError() {}

// Stopped is the panic value that ends a case which violates an assumption.
type Stopped struct{ Why string }

// Failed is the panic value of a failed assertion.
type Failed struct{ Msg string }

// State of the native case being replayed.
var (
	In     map[string]string
	Params map[string]int
	Obs    strings.Builder
)

// Reset prepares for one native case.
func Reset(in map[string]string, params map[string]int) {
	In, Params = in, params
	Obs.Reset()
}

func num(name string) uint64 {
	v, _ := strconv.ParseUint(In[name], 10, 64)
	return v
}

func Byte(name string) byte     { return byte(num(name)) }
func Uint16(name string) uint16 { return uint16(num(name)) }
func Uint32(name string) uint32 { return uint32(num(name)) }
func Uint64(name string) uint64 { return num(name) }
func Bool(name string) bool     { return num(name) != 0 }

// Int is an integer with lo <= v <= hi.
func Int(name string, lo, hi int) int {
	v := int(num(name))
	if v < lo || v > hi {
		if _, ok := In[name]; !ok {
			return lo
		}
		panic(Stopped{"range " + name})
	}
	return v
}

// Choice is an integer in [0,n); the engine explores one path per value.
func Choice(name string, n int) int { return Int(name, 0, n-1) }

// Bytes is a byte string of any length up to max.
func Bytes(name string, max int) []byte {
	b, err := hex.DecodeString(In[name])
	if err != nil || len(b) > max {
		panic(Stopped{"bytes " + name})
	}
	return b
}

// BytesN is a byte string of exactly n bytes.
func BytesN(name string, n int) []byte {
	b, err := hex.DecodeString(In[name])
	if err != nil {
		panic(Stopped{"bytes " + name})
	}
	for len(b) < n {
		b = append(b, 0)
	}
	return b[:n]
}

// Big is like Bytes but kept as an SMT array.
func Big(name string, max int) []byte { return Bytes(name, max) }

func Assume(c bool) {
	if !c {
		panic(Stopped{"assume"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Failed{msg})
	}
}

func Observe(label, v string)        { Obs.WriteString(label + "=" + v + "\n") }
func ObserveInt(label string, v int) { Obs.WriteString(label + "=" + fmt.Sprintf("%d", v) + "\n") }

// Concrete forks the engine over all values of v.
func Concrete(v int) int { return v }

// ConcreteLen forks the engine over all lengths of b.
func ConcreteLen(b []byte) []byte { return b }

// Symbolic reports whether the engine is running.
func Symbolic() bool { return false }

// MapReverse reverses the iteration order of maps in the engine.
func MapReverse(bool) {}

// Reach is a reachability witness.
func Reach(label string) {}

func Stop() { panic(Stopped{"stop"}) }

// Param is a bound set by the driver.
func Param(name string, def int) int {
	if v, ok := Params[name]; ok {
		return v
	}
	return def
}

// And and Or evaluate both sides (one term, no branch, in the engine).
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// IteByte is a choice without a branch.
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
