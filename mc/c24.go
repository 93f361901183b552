package main

// C24: the runtime comparison checks, against the order of the mathematical values.

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"unsafe"

	"github.com/HannesKimara/cddlc/runtime/validators"
	"golang.org/x/exp/constraints"
)

var c24Count atomic.Int64

// ranked is a set of values with their rank in the order of the numbers they stand for (-1: NaN).
type ranked[T any] struct {
	v []T
	r []int
}

func rank[T any](vs []T, exact func(T) (*big.Float, int)) ranked[T] {
	// exact gives the value, or an infinity sign (+-1), or nil for NaN
	type it struct {
		v   T
		f   *big.Float
		inf int
		nan bool
	}
	var l []it
	for _, v := range vs {
		f, inf := exact(v)
		l = append(l, it{v, f, inf, f == nil && inf == 0})
	}
	cmp := func(a, b it) int {
		if a.inf != b.inf {
			return a.inf - b.inf
		}
		if a.inf != 0 {
			return 0
		}
		return a.f.Cmp(b.f)
	}
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].nan || l[j].nan {
			return l[i].nan && !l[j].nan
		}
		return cmp(l[i], l[j]) < 0
	})
	out := ranked[T]{}
	n := 0
	for i, x := range l {
		out.v = append(out.v, x.v)
		if x.nan {
			out.r = append(out.r, -1)
			continue
		}
		if i > 0 && !l[i-1].nan && cmp(l[i-1], x) < 0 {
			n++
		}
		out.r = append(out.r, n)
	}
	return out
}

// judge compares all checks for one value against all pairs of bounds of the set.
func judge[T validators.NumericOrdered](s ranked[T], i int, pairsOnly bool) *Fail {
	v, rv := s.v[i], s.r[i]
	cnt := int64(0)
	defer func() { c24Count.Add(cnt) }()
	for a := range s.v {
		lo, rl := s.v[a], s.r[a]
		ok := rv >= 0 && rl >= 0
		if got, want := validators.IsLessThan(v, lo), ok && rv < rl; got != want {
			return failf("IsLessThan(%v, %v) of %T = %v", v, lo, v, got)
		}
		if got, want := validators.IsGreaterThan(v, lo), ok && rv > rl; got != want {
			return failf("IsGreaterThan(%v, %v) of %T = %v", v, lo, v, got)
		}
		cnt += 2
		if pairsOnly {
			for _, hi := range []int{a, 0, len(s.v) - 1, i} {
				h, rh := s.v[hi], s.r[hi]
				ok := ok && rh >= 0
				if got, want := validators.InInclusiveRange(v, lo, h), ok && rl <= rv && rv <= rh; got != want {
					return failf("InInclusiveRange(%v, %v, %v) of %T = %v", v, lo, h, v, got)
				}
				if got, want := validators.InExclusiveRange(v, lo, h), ok && rl < rv && rv < rh; got != want {
					return failf("InExclusiveRange(%v, %v, %v) of %T = %v", v, lo, h, v, got)
				}
				cnt += 2
			}
			continue
		}
		for b := range s.v {
			hi, rh := s.v[b], s.r[b]
			ok := ok && rh >= 0
			if got, want := validators.InInclusiveRange(v, lo, hi), ok && rl <= rv && rv <= rh; got != want {
				return failf("InInclusiveRange(%v, %v, %v) of %T = %v", v, lo, hi, v, got)
			}
			if got, want := validators.InExclusiveRange(v, lo, hi), ok && rl < rv && rv < rh; got != want {
				return failf("InExclusiveRange(%v, %v, %v) of %T = %v", v, lo, hi, v, got)
			}
		}
		cnt += 2 * int64(len(s.v))
	}
	return nil
}

type c24set struct {
	n    int
	call func(i int) *Fail
}

func ints[T constraints.Integer](all bool, pairs bool) c24set {
	var vs []T
	bits := int(unsafe.Sizeof(T(0))) * 8
	signed := T(0)-1 < 0
	if all {
		for i := 0; i < 1<<bits; i++ {
			vs = append(vs, T(i))
		}
	} else {
		seen := map[T]bool{}
		for k := 0; k < bits; k++ {
			for d := -2; d <= 2; d++ {
				for _, x := range []T{T(1)<<k + T(d), -(T(1) << k) + T(d), T(d)} {
					if !seen[x] {
						seen[x] = true
						vs = append(vs, x)
					}
				}
			}
		}
	}
	s := rank(vs, func(v T) (*big.Float, int) {
		f := new(big.Float).SetPrec(128)
		if signed {
			return f.SetInt64(int64(v)), 0
		}
		return f.SetUint64(uint64(v)), 0
	})
	return c24set{len(vs), func(i int) *Fail { return judge(s, i, pairs) }}
}

func floats[T ~float32 | ~float64](full, pairs bool) c24set {
	var vs []T
	seen := map[uint64]bool{}
	add := func(f float64) {
		v := T(f)
		b := math.Float64bits(float64(v))
		if !seen[b] {
			seen[b] = true
			vs = append(vs, v)
		}
	}
	sz := unsafe.Sizeof(T(0))
	for _, sg := range []float64{1, -1} {
		for _, m := range []float64{0, 1, 2, 3, 0.5, 0.1, 1.0 / 3, 2.5, 9.75, 1e16, 1e16 + 2, 1 << 24, 1<<24 + 1, 1 << 53, 1<<53 - 1, math.MaxInt64, math.MaxUint64, math.MaxFloat32, math.MaxFloat64, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64, math.Inf(1), math.NaN()} {
			add(math.Copysign(m, sg))
		}
		top, mant := 255, uint64(1)<<23
		if sz == 8 {
			top, mant = 2047, 1<<52
		}
		step := 1
		if sz == 8 && !pairs || !full {
			step = 37
		}
		for e := 0; e <= top; e += step {
			for _, m := range []uint64{0, 1, mant / 2, mant - 1} {
				var f float64
				if sz == 8 {
					f = math.Float64frombits(uint64(e)<<52 | m)
				} else {
					f = float64(math.Float32frombits(uint32(e)<<23 | uint32(m)))
				}
				add(math.Copysign(f, sg))
			}
		}
		for _, e := range []uint64{0, 1, uint64(top) - 1, uint64(top) / 2, uint64(top)/2 + 1} { // neighbours
			for d := int64(-2); d <= 2; d++ {
				if sz == 8 {
					add(math.Copysign(math.Float64frombits(uint64(int64(e<<52)+d)&^(1<<63)), sg))
				} else {
					add(math.Copysign(float64(math.Float32frombits(uint32(int64(e<<23)+d)&^(1<<31))), sg))
				}
			}
		}
	}
	s := rank(vs, func(v T) (*big.Float, int) {
		f := float64(v)
		switch {
		case math.IsNaN(f):
			return nil, 0
		case math.IsInf(f, 1):
			return nil, 1
		case math.IsInf(f, -1):
			return nil, -1
		}
		return new(big.Float).SetFloat64(f), 0
	})
	return c24set{len(vs), func(i int) *Fail { return judge(s, i, pairs) }}
}

type namedInt int16
type namedF float64

var c24sets = map[string]func() c24set{
	"all int8 triples":              func() c24set { return ints[int8](true, false) },
	"all uint8 triples":             func() c24set { return ints[uint8](true, false) },
	"all int16 pairs":               func() c24set { return ints[int16](true, true) },
	"all uint16 pairs":              func() c24set { return ints[uint16](true, true) },
	"int16 boundary triples":        func() c24set { return ints[int16](false, false) },
	"uint16 boundary triples":       func() c24set { return ints[uint16](false, false) },
	"int32 boundary triples":        func() c24set { return ints[int32](false, false) },
	"uint32 boundary triples":       func() c24set { return ints[uint32](false, false) },
	"int64 boundary triples":        func() c24set { return ints[int64](false, false) },
	"uint64 boundary triples":       func() c24set { return ints[uint64](false, false) },
	"int boundary triples":          func() c24set { return ints[int](false, false) },
	"uint boundary triples":         func() c24set { return ints[uint](false, false) },
	"uintptr boundary triples":      func() c24set { return ints[uintptr](false, false) },
	"named int16 boundary triples":  func() c24set { return ints[namedInt](false, false) },
	"float32 special triples":       func() c24set { return floats[float32](false, false) },
	"float64 special triples":       func() c24set { return floats[float64](false, false) },
	"named float64 triples":         func() c24set { return floats[namedF](false, false) },
	"float32 all exponents pairs":   func() c24set { return floats[float32](true, true) },
	"float64 all exponents pairs":   func() c24set { return floats[float64](true, true) },
	"float32 all exponents triples": func() c24set { return floats[float32](true, false) },
}

var c24cache = func() func(string) c24set {
	m := map[string]*lazySet{}
	for k := range c24sets {
		m[k] = &lazySet{mk: c24sets[k]}
	}
	return func(k string) c24set { return m[k].get() }
}()

// opC24: "set index": one value of the set against all bounds.
func opC24(in []byte) (bool, *Fail) {
	k, n, ok := strings.Cut(string(in), "|")
	if !ok || c24sets[k] == nil {
		return false, nil
	}
	s := c24cache(k)
	i, _ := strconv.Atoi(n)
	return true, s.call(i)
}

// ---- regular expressions ----

// rx is a regular expression over a and b: ends(s, from) lists where a match starting at from may end.
type rx struct {
	src  string
	prec int
	ends func(s string, i int) map[int]bool
}

func rxs(n int, memo map[int][]rx) []rx {
	if r, ok := memo[n]; ok {
		return r
	}
	var r []rx
	lit := func(c string) rx {
		return rx{c, 3, func(s string, i int) map[int]bool {
			if strings.HasPrefix(s[i:], c) {
				return map[int]bool{i + len(c): true}
			}
			return nil
		}}
	}
	if n == 1 {
		at := func(src string, ok func(s string, i int) bool) rx {
			return rx{src, 3, func(s string, i int) map[int]bool {
				if ok(s, i) {
					return map[int]bool{i: true}
				}
				return nil
			}}
		}
		r = append(r, lit("a"), lit("b"), at("^", func(s string, i int) bool { return i == 0 }), at("$", func(s string, i int) bool { return i == len(s) }),
			rx{"[^a]", 3, func(s string, i int) map[int]bool {
				if i < len(s) && s[i] != 'a' {
					return map[int]bool{i + 1: true}
				}
				return nil
			}})
	}
	wrap := func(e rx, p int) string {
		if e.prec < p {
			return "(?:" + e.src + ")"
		}
		return e.src
	}
	for k := 1; k < n-1; k++ {
		for _, a := range rxs(k, memo) {
			for _, b := range rxs(n-1-k, memo) {
				a, b := a, b
				r = append(r, rx{wrap(a, 2) + wrap(b, 2), 2, func(s string, i int) map[int]bool {
					m := map[int]bool{}
					for j := range a.ends(s, i) {
						for k := range b.ends(s, j) {
							m[k] = true
						}
					}
					return m
				}}, rx{wrap(a, 1) + "|" + wrap(b, 1), 1, func(s string, i int) map[int]bool {
					m := map[int]bool{}
					for j := range a.ends(s, i) {
						m[j] = true
					}
					for j := range b.ends(s, i) {
						m[j] = true
					}
					return m
				}})
			}
		}
	}
	if n > 1 {
		for _, a := range rxs(n-1, memo) {
			if a.src == "^" || a.src == "$" || strings.HasSuffix(a.src, "*") || strings.HasSuffix(a.src, "?") {
				continue
			}
			a := a
			r = append(r, rx{"(?:" + a.src + ")*", 3, func(s string, i int) map[int]bool {
				m := map[int]bool{i: true}
				for todo := []int{i}; len(todo) > 0; {
					j := todo[0]
					todo = todo[1:]
					for k := range a.ends(s, j) {
						if !m[k] {
							m[k] = true
							todo = append(todo, k)
						}
					}
				}
				return m
			}}, rx{"(?:" + a.src + ")?", 3, func(s string, i int) map[int]bool {
				m := map[int]bool{i: true}
				for k := range a.ends(s, i) {
					m[k] = true
				}
				return m
			}})
		}
	}
	memo[n] = r
	return r
}

var rxTable = map[int][]rx{}

func rxInit() {
	rxOnce.Do(func() {
		for n := 1; n <= 5; n++ {
			rxs(n, rxTable)
		}
	})
}

var rxStrings = func() []string {
	l := []string{""}
	var prev = l
	for k := 0; k < 5; k++ {
		var next []string
		for _, p := range prev {
			for _, c := range "abc" {
				next = append(next, p+string(c))
			}
		}
		l = append(l, next...)
		prev = next
	}
	return l
}()

// opRx: "size index": one expression on all strings.
func opRx(in []byte) (bool, *Fail) {
	var n, i int
	fmt.Sscanf(string(in), "rx %d %d", &n, &i)
	rxInit()
	e := rxTable[n][i]
	re, err := regexp.Compile(e.src)
	if err != nil {
		return false, nil
	}
	for _, s := range rxStrings {
		want := false
		for j := 0; j <= len(s) && !want; j++ {
			want = len(e.ends(s, j)) > 0
		}
		if got := validators.RegexpMatches(re, s); got != want {
			return true, failf("RegexpMatches(%q, %q) = %v", e.src, s, got)
		}
		c24Count.Add(1)
	}
	return true, nil
}

// opRxText: pattern, NUL, text, NUL, 0 or 1.
func opRxText(in []byte) (bool, *Fail) {
	f := strings.Split(string(in), "\x00")
	if len(f) != 3 {
		return false, nil
	}
	re := regexp.MustCompile(f[0])
	for k := 0; k < 2; k++ {
		if got := validators.RegexpMatches(re, f[1]); got != (f[2] == "1") {
			return true, failf("RegexpMatches(%q, %.200q) = %v", f[0], f[1], got)
		}
	}
	return true, nil
}

func init() {
	name := reg("C24.order", opC24)
	nrx := reg("C24.regexp", opRx)
	nrt := reg("C24.text", opRxText)
	nsz := reg("C24.size", opC24size)
	addCheck("C24", "exploration", "each case is one value judged by every check against all bounds (and all pairs of bounds) of its set: all 8-bit triples, all 16-bit pairs (thorough), boundary values of the other integer types, floats over signs, exponents and extreme mantissas with zeros, infinities and NaN; every regular expression up to the stated size on all texts over {a,b,c} up to length 5; non-trivial: always", func(c *Ctx) {
		var ks []string
		for k := range c24sets {
			if !c.Thorough && (strings.Contains(k, "16 pairs") || k == "float32 all exponents triples") {
				continue
			}
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			c.Enum(k, name, int64(c24cache(k).n), func(i int64, b []byte) []byte { return append(b, fmt.Sprintf("%s|%d", k, i)...) })
		}
		var sz []string
		for i := 0; i < c24widthN; i++ {
			for _, n := range c24sizes {
				sz = append(sz, fmt.Sprintf("%d %d", i, n))
			}
		}
		c.List("the size check on every fixed-width type, and the Must helpers", nsz, sz)
		rxInit()
		for n := 1; n <= c.tier(4, 5); n++ {
			c.Enum(fmt.Sprintf("regular expressions of size %d (those Go accepts) on %d texts", n, len(rxStrings)), nrx, int64(len(rxTable[n])), func(i int64, b []byte) []byte {
				return append(b, fmt.Sprintf("rx %d %d", n, i)...)
			})
		}
		var l []string
		add := func(p, s string, m bool) { l = append(l, p+"\x00"+s+"\x00"+map[bool]string{true: "1", false: "0"}[m]) }
		for a := 0; a < 256; a++ { // every byte as a text
			s := string([]byte{byte(a)})
			if a > 0 {
				add(`^(?s:.)$`, s, true)
				add(`x`, "\n"+s+"\n"+s, s == "x")
				add(`\xff`, s, false)
				add(`^\s$`, s, strings.Contains("\t\n\f\r ", s))
			}
		}
		for _, n := range []int{1, 100, 1000, 4095, 4096, 4097, 70000} {
			s := strings.Repeat("a", n)
			add("b$", s+"b", true)
			add("b", s, false)
			add("^a*$", s, true)
			add("^a*$", s+"b", false)
			add("ab", s+"b", true)
		}
		add("é", "xé", true)
		add("^..$", "éé", true)
		add("(?i)ABC", "xabcx", true)
		add("", "", true)
		add("", "abc", true)
		add("^$", "a", false)
		add("$", "a\n", true)
		add("^a$", "b\na\nc", false)
		add("(?m)^a$", "b\na\nc", true)
		c.List("texts", nrt, l)
		c.res.Extra["comparisons"] = c24Count.Load()
	})
}

type c24err struct{}

func (*c24err) Error() string { return "" }

// c24widths: values of every fixed-width type with their width in bytes.
func c24widths() (v []any, w []uint) {
	add := func(n uint, xs ...any) {
		for _, x := range xs {
			v, w = append(v, x), append(w, n)
		}
	}
	type myInt int32
	add(1, int8(0), int8(-1), int8(127), int8(-128), uint8(0), uint8(255), true, false)
	add(2, int16(0), int16(-1), int16(1<<15-1), uint16(0), uint16(65535))
	add(4, int32(0), int32(-1), int32(1<<31-1), uint32(0), uint32(1<<32-1), float32(0), float32(math.Inf(1)), float32(math.NaN()), 'x', myInt(3))
	add(8, int64(0), int64(-1), int64(1<<63-1), uint64(0), uint64(1<<64-1), float64(0), math.Inf(-1), math.NaN(), 1e300)
	add(uint(strconv.IntSize/8), int(0), int(-5), uint(7))
	for _, e := range []any{uint8(0), int16(0), float32(0), uint64(0), [3]byte{}} { // arrays of them
		t := reflect.TypeOf(e)
		for _, n := range append(upTo(17), 0, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537) {
			k := map[reflect.Kind]uint{reflect.Uint8: 1, reflect.Int16: 2, reflect.Float32: 4, reflect.Uint64: 8, reflect.Array: 3}[t.Kind()]
			add(uint(n)*k, reflect.Zero(reflect.ArrayOf(n, t)).Interface())
		}
	}
	return
}

var c24vals, c24ws = c24widths()
var c24widthN = len(c24vals)
var c24sizes = []uint{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 4, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}

// opC24size: index of a value and a bound.
func opC24size(in []byte) (bool, *Fail) {
	var i int
	var n uint
	if k, _ := fmt.Sscanf(string(in), "%d %d", &i, &n); k != 2 {
		return false, nil
	}
	v, w := c24vals, c24ws
	got := validators.CheckSize(v[i], n)
	if got != (w[i] < n) {
		return true, failf("CheckSize(%T(%.40v), %d) is %v", v[i], v[i], n, got)
	}
	panics := func(f func()) (p bool) {
		defer func() { p = recover() != nil }()
		f()
		return
	}
	if panics(func() { validators.MustBool(got) }) == got {
		return true, failf("MustBool(%v) does the opposite", got)
	}
	var err error
	switch i % 4 {
	case 1:
		err = fmt.Errorf("e%d", n)
	case 2:
		err = (*c24err)(nil)
	case 3:
		err = &c24err{}
	}
	if panics(func() { validators.MustNotErr(err) }) != (err != nil) {
		return true, failf("MustNotErr(%#v) does the opposite", err)
	}
	return true, nil
}
