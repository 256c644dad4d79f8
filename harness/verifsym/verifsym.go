// Package verifsym is the harness API. Symbolically every function is interpreted by the engine;
// natively the functions read the values of one recorded model.
package verifsym

import (
	cryptorand "crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
)

type replay struct {
	Harness string            `json:"harness"`
	Values  map[string]string `json:"values"`
	Bounds  map[string]int    `json:"bounds"`
	Repeat  int               `json:"repeat"`
}

type outcome struct {
	Result  string   `json:"result"`
	Msg     string   `json:"msg"`
	Covers  []string `json:"covers"`
	Observe []string `json:"observe"`
}

var (
	cur      replay
	counts   map[string]int
	out      outcome
	allocLim uint64
	alloc0   uint64
	failed   string
)

type stop struct{ kind string }

func next(name string) uint64 {
	k := counts[name]
	counts[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	s := cur.Values[name]
	if s == "" {
		return 0
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return 0
	}
	return v
}

type modelRand struct{}

func (modelRand) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(next("rand8"))
	}
	return len(b), nil
}

// Main runs the cases of a file given as first argument.
func Main(hs map[string]func()) {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var cases []replay
	if err := json.Unmarshal(data, &cases); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cryptorand.Reader = modelRand{}
	stdout := os.Stdout
	if devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = devnull
	}
	for _, c := range cases {
		dir, _ := os.Getwd()
		work, err := os.MkdirTemp(dir, "work")
		if err != nil || os.Chdir(work) != nil {
			fmt.Fprintln(os.Stderr, "no working directory")
			os.Exit(3)
		}
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			runOne(c, hs[c.Harness])
			if out.Result != "ok" && out.Result != "skip" {
				break
			}
		}
		if os.Chdir(dir) == nil {
			os.RemoveAll(work)
		}
		j, _ := json.Marshal(out)
		fmt.Fprintf(stdout, "@@VERIF %s\n", j)
	}
}

func total() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func runOne(c replay, h func()) {
	cur = c
	counts = map[string]int{}
	out = outcome{Result: "ok", Covers: []string{}, Observe: []string{}}
	failed = ""
	allocLim = 0
	if h == nil {
		out.Result, out.Msg = "fatal", "unknown harness "+c.Harness
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					out.Result = s.kind
				} else {
					out.Result, out.Msg = "panic", fmt.Sprint(r)
				}
			}
		}()
		h()
	}()
	if allocLim > 0 && out.Result != "skip" {
		if d := total() - alloc0; d > allocLim+(4<<20) {
			if out.Result == "ok" {
				out.Result, out.Msg = "alloc", fmt.Sprintf("%d bytes allocated, limit %d", d, allocLim)
			}
		}
	}
	if failed != "" {
		out.Result, out.Msg = "assert", failed
	}
}

func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func Bool(name string) bool  { return next(name)&1 == 1 }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// Int chooses a value in [lo,hi]; every value is explored on its own path.
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(next(name))
}

// Bound is a size bound that depends on the tier; it is recorded in the evidence.
func Bound(name string, quick, thorough int) int {
	if v, ok := cur.Bounds[name]; ok {
		return v
	}
	return quick
}

func Assume(c bool) {
	if !c {
		panic(stop{"skip"})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		if failed == "" {
			failed = msg
		}
		panic(stop{"assert"})
	}
}

// Cover is a reachability witness.
func Cover(tag string) {
	for _, c := range out.Covers {
		if c == tag {
			return
		}
	}
	out.Covers = append(out.Covers, tag)
}

// Observe records values that the symbolic run must predict.
func Observe(tag string, vs ...interface{}) {
	var ps []string
	for _, v := range vs {
		ps = append(ps, obs(v))
	}
	out.Observe = append(out.Observe, tag+":"+strings.Join(ps, ","))
}

func obs(v interface{}) string {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		return fmt.Sprint(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		u := uint64(r.Int())
		if b := r.Type().Bits(); b < 64 {
			u &= 1<<uint(b) - 1
		}
		return fmt.Sprint(u)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(r.Uint())
	case reflect.String:
		return hex.EncodeToString([]byte(r.String()))
	case reflect.Slice, reflect.Array:
		if k := r.Type().Elem().Kind(); k != reflect.Uint8 && k != reflect.Int8 {
			var ps []string
			for i := 0; i < r.Len(); i++ {
				ps = append(ps, obs(r.Index(i).Interface()))
			}
			return strings.Join(ps, "+")
		}
		b := make([]byte, r.Len())
		for i := range b {
			b[i] = byte(r.Index(i).Uint())
		}
		return hex.EncodeToString(b)
	}
	return "?"
}

// AllocLimit bounds the memory the rest of the harness may allocate.
func AllocLimit(n int) {
	allocLim = uint64(n)
	alloc0 = total()
}

// Files counts the files written to the working directory.
func Files() int {
	l, err := os.ReadDir(".")
	if err != nil {
		panic(err)
	}
	return len(l)
}

// Symbolic reports whether the harness runs under the engine.
func Symbolic() bool { return false }

// Must reports whether c holds for all values on this path.
func Must(c bool) bool { return c }

// Concrete enumerates the values of x.
func Concrete(x uint64) uint64 { return x }

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Same is structural equality following pointers, with nil and empty slices identified.
func Same(a, b interface{}) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b)) }

func same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !same(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Float64, reflect.Float32:
		return a.Float() == b.Float()
	}
	return a.Pointer() == b.Pointer()
}

// Z is a mathematical integer.
type Z struct{ v *big.Int }

func ZU(x uint64) Z { return Z{new(big.Int).SetUint64(x)} }
func ZI(x int64) Z  { return Z{big.NewInt(x)} }

// ZVar is an arbitrary integer of the given number of bits.
func ZVar(name string, bits int) Z {
	k := counts[name]
	counts[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	v, ok := new(big.Int).SetString(cur.Values[name], 10)
	if !ok {
		v = new(big.Int)
	}
	return Z{v}
}

// Bytes is the little-endian encoding of a; it is only available natively.
func (a Z) Bytes(n int) []byte {
	b := a.v.Bytes()
	r := make([]byte, n)
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}
func ZStr(s string) Z {
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("ZStr " + s)
	}
	return Z{v}
}
func ZBytesLE(b []byte) Z {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return Z{new(big.Int).SetBytes(r)}
}
func (a Z) Add(b Z) Z { return Z{new(big.Int).Add(a.v, b.v)} }
func (a Z) Sub(b Z) Z { return Z{new(big.Int).Sub(a.v, b.v)} }
func (a Z) Mul(b Z) Z { return Z{new(big.Int).Mul(a.v, b.v)} }

// Div and Mod round towards minus infinity; division by zero gives zero.
func (a Z) Div(b Z) Z {
	if b.v.Sign() == 0 {
		return Z{new(big.Int)}
	}
	q, _ := floor(a.v, b.v)
	return Z{q}
}
func (a Z) Mod(b Z) Z {
	if b.v.Sign() == 0 {
		return Z{new(big.Int)}
	}
	_, m := floor(a.v, b.v)
	return Z{m}
}
func floor(a, b *big.Int) (*big.Int, *big.Int) {
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	if m.Sign() != 0 && (m.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, big.NewInt(1))
		m.Add(m, b)
	}
	return q, m
}
func (a Z) Eq(b Z) bool { return a.v.Cmp(b.v) == 0 }
func (a Z) Le(b Z) bool { return a.v.Cmp(b.v) <= 0 }
func (a Z) Lt(b Z) bool { return a.v.Cmp(b.v) < 0 }
func ZIte(c bool, a, b Z) Z {
	if c {
		return a
	}
	return b
}
