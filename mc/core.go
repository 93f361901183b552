package main

// Core of the checker: operations, bounded exhaustive enumeration over worker goroutines,
// and the protocol between the exploring child process and its supervising parent.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Fail is one observed violation.
type Fail struct {
	Key string // identifies the finding for known_findings.txt ("" = the input itself)
	Msg string
}

func failf(f string, a ...any) *Fail { return &Fail{Msg: fmt.Sprintf(f, a...)} }

// Op runs the implementation on one input and judges it. nontrivial says whether the case
// exercised the property by the check's rule.
type Op func(in []byte) (nontrivial bool, fail *Fail)

var ops = map[string]Op{}

func reg(name string, op Op) string {
	if ops[name] != nil {
		panic("dup op " + name)
	}
	ops[name] = op
	return name
}

// safe runs op and turns a panic into a failure.
func safe(op Op, in []byte) (nt bool, f *Fail) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			lines := strings.Split(st, "\n")
			if len(lines) > 12 {
				lines = lines[:12]
			}
			nt, f = true, failf("panic: %v\n%s", r, strings.Join(lines, "\n"))
		}
	}()
	return op(in)
}

// hashSet counts distinct inputs by 64-bit hash, up to a capacity (then the count is a lower bound).
type hashSet struct {
	sh [256]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	n, over atomic.Int64
}

const hashCap = 12 << 20

func (h *hashSet) add(in []byte) {
	x := maphash.Bytes(hashSeed, in)
	s := &h.sh[x&255]
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[x]; ok {
		return
	}
	if h.n.Load() >= hashCap {
		h.over.Add(1)
		return
	}
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	s.m[x] = struct{}{}
	h.n.Add(1)
}

var hashSeed = maphash.MakeSeed()

type violation struct {
	Op    string `json:"op"`
	Input []byte `json:"input"`
	Key   string `json:"key,omitempty"`
	Msg   string `json:"msg"`
	// History: the case fails only after the cases explored before it by this check and tier.
	History string `json:"history,omitempty"`
}

const slotSize = 1 << 20
const nSlots = 16

type slotFile struct{ mem []byte }

func openSlots(path string) *slotFile {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(slotSize * nSlots); err != nil {
		panic(err)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize*nSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return &slotFile{m}
}

// slot layout: seq u64, busy u64, oplen u32, inlen u32, op, input
func (s *slotFile) begin(w int, op string, in []byte) {
	m := s.mem[w*slotSize : (w+1)*slotSize]
	n := len(in)
	if n > slotSize-256 {
		n = slotSize - 256
	}
	binary.LittleEndian.PutUint32(m[16:], uint32(len(op)))
	binary.LittleEndian.PutUint32(m[20:], uint32(n))
	copy(m[24:], op)
	copy(m[24+len(op):], in[:n])
	binary.LittleEndian.PutUint64(m[8:], 1)
	binary.LittleEndian.PutUint64(m[0:], binary.LittleEndian.Uint64(m[0:])+1)
}
func (s *slotFile) end(w int) {
	binary.LittleEndian.PutUint64(s.mem[w*slotSize+8:], 0)
}
func (s *slotFile) read(w int) (seq uint64, busy bool, op string, in []byte) {
	m := s.mem[w*slotSize : (w+1)*slotSize]
	seq = binary.LittleEndian.Uint64(m)
	busy = binary.LittleEndian.Uint64(m[8:]) == 1
	ol := binary.LittleEndian.Uint32(m[16:])
	il := binary.LittleEndian.Uint32(m[20:])
	if ol > 200 || int(il) > slotSize-200 {
		return
	}
	op = string(m[24 : 24+ol])
	in = append([]byte{}, m[24+ol:24+ol+il]...)
	return
}

// result is what the exploring child hands to the parent.
type result struct {
	Evaluations int64            `json:"evaluations"`
	Nontrivial  int64            `json:"nontrivial"`
	Distinct    int64            `json:"distinct"`
	Rule        string           `json:"rule"`
	Samples     []string         `json:"samples"`
	Exhaustive  bool             `json:"exhaustive"`
	Level       string           `json:"level"`
	Phases      []phase          `json:"phases"`
	Extra       map[string]any   `json:"extra"`
	Violations  []violation      `json:"violations"`
	Known       map[string]int64 `json:"known"`
	Flaky       int64            `json:"flaky"` // failures that did not repeat at once
	Assumptions []string         `json:"assumptions"`
}

type phase struct {
	Name       string `json:"name"`
	Cases      int64  `json:"cases"`
	Of         int64  `json:"of"`
	Nontrivial int64  `json:"nontrivial"`
}

// Ctx is the environment of one check run.
type Ctx struct {
	ID       string
	Thorough bool
	deadline time.Time
	slots    *slotFile
	res      result
	mu       sync.Mutex
	stop     atomic.Bool
	known    map[string]bool
	workers  int
	single   bool // one worker, fixed order: a failure counts even when it does not repeat at once
	smp      map[string]bool
	dist     hashSet
}

func (c *Ctx) tier(q, t int) int {
	if c.Thorough {
		return t
	}
	return q
}

func (c *Ctx) timeUp() bool { return time.Now().After(c.deadline) }

// report registers a failing case: known finding or violation.
func (c *Ctx) report(op string, in []byte, f *Fail) {
	key := f.Key
	if key == "" {
		key = string(in)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.known[key] {
		c.res.Known[key]++
		return
	}
	if len(c.res.Violations) < 5 {
		c.res.Violations = append(c.res.Violations, violation{Op: op, Input: append([]byte{}, in...), Key: f.Key, Msg: f.Msg})
	}
	c.stop.Store(true)
}

func (c *Ctx) sample(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Samples) < 40 && !c.smp[s] && len(s) < 2000 {
		c.smp[s] = true
		c.res.Samples = append(c.res.Samples, s)
	}
}

// Enum runs op on the inputs at(0..n-1), all of them unless the deadline or a violation stops it.
func (c *Ctx) Enum(name, opName string, n int64, at func(i int64, buf []byte) []byte) {
	if c.stop.Load() {
		return
	}
	op := ops[opName]
	if op == nil {
		panic("no op " + opName)
	}
	var next, done, nontriv atomic.Int64
	chunk := n / int64(c.workers*64)
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 4096 {
		chunk = 4096
	}
	var wg sync.WaitGroup
	var sampled atomic.Int64
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			buf := make([]byte, 0, 4096)
			for !c.stop.Load() && !c.timeUp() {
				lo := next.Add(chunk) - chunk
				if lo >= n {
					return
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				for i := lo; i < hi; i++ {
					in := at(i, buf[:0])
					if in == nil {
						done.Add(1)
						continue
					}
					c.slots.begin(w, opName, in)
					nt, f := safe(op, in)
					if f != nil { // must fail every time
						ok := true
						for k := 0; k < 4 && ok && !c.single; k++ {
							_, f2 := safe(op, in)
							ok = f2 != nil
						}
						if ok {
							c.report(opName, in, f)
						} else {
							atomic.AddInt64(&c.res.Flaky, 1)
						}
					}
					c.slots.end(w)
					done.Add(1)
					if nt {
						nontriv.Add(1)
						c.dist.add(in)
						if sampled.Load() < 3 && (i*7919)%5 == 0 && sampled.Add(1) <= 3 {
							c.sample(fmt.Sprintf("%s: %q", name, in))
						}
					}
					if c.stop.Load() {
						return
					}
				}
			}
		}(w)
	}
	wg.Wait()
	if sampled.Load() == 0 && n > 0 {
		if in := at(n/2, nil); in != nil && len(in) < 400 {
			c.sample(fmt.Sprintf("%s: %q", name, in))
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Evaluations += done.Load()
	c.res.Nontrivial += nontriv.Load()
	c.res.Phases = append(c.res.Phases, phase{name, done.Load(), n, nontriv.Load()})
	if done.Load() != n {
		c.res.Exhaustive = false
	}
}

// List runs op on an explicit list, without duplicates.
func (c *Ctx) List(name, opName string, l []string) {
	seen := make(map[string]bool, len(l))
	u := l[:0:0]
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			u = append(u, s)
		}
	}
	c.Enum(name, opName, int64(len(u)), func(i int64, buf []byte) []byte { return append(buf, u[i]...) })
}

// Words enumerates all sequences of exactly k symbols, wrapped in pre and post, joined by sep.
func (c *Ctx) Words(name, opName string, syms []string, k int, pre, sep, post string) {
	n := int64(1)
	for i := 0; i < k; i++ {
		n *= int64(len(syms))
	}
	b := int64(len(syms))
	c.Enum(name, opName, n, func(i int64, buf []byte) []byte {
		buf = append(buf, pre...)
		for j := 0; j < k; j++ {
			if j > 0 {
				buf = append(buf, sep...)
			}
			buf = append(buf, syms[i%b]...)
			i /= b
		}
		return append(buf, post...)
	})
}

// check is one property's exploration.
type check struct {
	id    string
	level string
	rule  string
	run   func(c *Ctx)
}

var checks = map[string]*check{}

func addCheck(id, level, rule string, run func(c *Ctx)) {
	checks[id] = &check{id, level, rule, run}
}

func newCtx(id string, thorough bool, slots string, budget time.Duration, known map[string]bool) *Ctx {
	c := &Ctx{ID: id, Thorough: thorough, deadline: time.Now().Add(budget), known: known, smp: map[string]bool{}}
	c.slots = openSlots(slots)
	c.workers = runtime.NumCPU()
	if c.workers > 8 {
		c.workers = 8
	}
	if os.Getenv("MC_WORKERS") == "1" {
		c.workers, c.single = 1, true
	}
	c.res.Exhaustive = true
	c.res.Known = map[string]int64{}
	c.res.Extra = map[string]any{}
	return c
}

func childMain(id, tier, slots, out string, budget time.Duration, known map[string]bool) {
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
	ck := checks[id]
	c := newCtx(id, tier == "thorough", slots, budget, known)
	c.res.Level, c.res.Rule = ck.level, ck.rule
	ck.run(c)
	if c.timeUp() {
		c.res.Exhaustive = false
	}
	if d := c.dist.n.Load(); d > 0 {
		c.res.Distinct = d
		if c.dist.over.Load() > 0 {
			c.res.Extra["distinct_note"] = fmt.Sprintf("distinct inputs were counted up to a capacity of %d; %d later cases are not in the count", hashCap, c.dist.over.Load())
		}
	} else {
		c.res.Distinct = c.res.Nontrivial
	}
	sort.Slice(c.res.Samples, func(i, j int) bool { return len(c.res.Samples[i]) < len(c.res.Samples[j]) })
	b, err := json.Marshal(&c.res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, b, 0600); err != nil {
		panic(err)
	}
	os.Exit(0)
}
