package main

// C05: every interleaving of construct/scan calls of two and three scanners over separate, shared,
// adjacent, overlapping and spare-capacity buffers, on the real scanner; plus buffer reuse after
// scanning and parsing.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

type c05case struct {
	Layout string
	Srcs   []string
	Sched  []int // which scanner makes its next call
}

// place lays the sources out and returns the slices handed to the scanners and the whole backing store.
func place(layout string, srcs []string) (views [][]byte, backing []byte) {
	switch layout {
	case "separate": // exact capacity, but one after the other in one allocation with guards
		for _, s := range srcs {
			backing = append(backing, '#')
			backing = append(backing, s...)
			backing = append(backing, '#')
		}
		at := 0
		for _, s := range srcs {
			views = append(views, backing[at+1:at+1+len(s):at+1+len(s)])
			at += len(s) + 2
		}
	case "adjacent": // neighbour starts where the previous ends, capacity reaches over the neighbour
		for _, s := range srcs {
			backing = append(backing, s...)
		}
		at := 0
		for _, s := range srcs {
			views = append(views, backing[at:at+len(s)])
			at += len(s)
		}
	case "spare": // each source followed by spare capacity with data in it
		n := 0
		for _, s := range srcs {
			n += len(s) + 8
		}
		backing = bytes.Repeat([]byte{'Z'}, n)
		at := 0
		for _, s := range srcs {
			copy(backing[at:], s)
			views = append(views, backing[at:at+len(s):at+len(s)+8])
			at += len(s) + 8
		}
	case "same": // one slice for all: the longest source
		backing = []byte(srcs[0])
		for range srcs {
			views = append(views, backing)
		}
	case "suffix": // scanner k reads from the k-th byte on, overlapping
		backing = []byte(srcs[0])
		for k := range srcs {
			views = append(views, backing[min(k, len(backing)):])
		}
	}
	return
}

type scanState struct {
	l    *lexer.Lexer
	toks []itok
}

func (s *scanState) step(src []byte) {
	if s.l == nil {
		s.l = lexer.NewLexer(src)
		return
	}
	t, p, l := s.l.Scan()
	s.toks = append(s.toks, itok{t, p, l})
}

func sameToks(a, b []itok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// alone scans a private copy to end-of-file plus one further request.
func alone(src []byte) ([]itok, []lexer.Error) {
	l := lexer.NewLexer(append([]byte{}, src...))
	var out []itok
	for i := 0; i <= len(src)+1; i++ {
		t, p, s := l.Scan()
		out = append(out, itok{t, p, s})
		if t == token.EOF {
			t, p, s = l.Scan()
			out = append(out, itok{t, p, s})
			break
		}
	}
	return out, l.Errors
}

func runC05(cs *c05case) *Fail {
	views, backing := place(cs.Layout, cs.Srcs)
	orig := append([]byte{}, backing...)
	st := make([]scanState, len(views))
	for k, w := range cs.Sched {
		st[w].step(views[w])
		if !bytes.Equal(orig, backing) {
			return failf("call %d of schedule %v (scanner %d) changed the caller's memory from %q to %q", k, cs.Sched, w, orig, backing)
		}
	}
	for i := range backing {
		backing[i] = '!'
	}
	for w := range st {
		if st[w].l == nil {
			continue
		}
		want, werr := alone(orig[offsetOf(backing, views[w]) : offsetOf(backing, views[w])+len(views[w])])
		n := len(st[w].toks)
		if n > len(want) || !sameToks(st[w].toks, want[:n]) {
			return failf("schedule %v: scanner %d (%s layout) returned %s; alone it returns %s", cs.Sched, w, cs.Layout, showToks(st[w].toks), showToks(want))
		}
		if n == len(want) && fmt.Sprint(st[w].l.Errors) != fmt.Sprint(werr) {
			return failf("schedule %v: scanner %d has errors %v; alone %v", cs.Sched, w, st[w].l.Errors, werr)
		}
	}
	return nil
}

func offsetOf(backing, view []byte) int {
	if cap(view) == 0 || len(backing) == 0 {
		return 0
	}
	for i := range backing {
		if len(view) > 0 && &backing[i] == &view[0] {
			return i
		}
	}
	return 0
}

var c05srcs = []string{
	"a = 1", "xy /= \"t\"", "1..2.5", "; c\n b", "\n\n\"u", "é .size", "", "0x1F{", "$g//=~q", "\xff\t]", "tstr,\r\nuint", "\"", "a\n",
}

// reuse scans and parses a buffer with the given spare capacity, then overwrites all of it.
func reuse(in []byte, room int) (bool, *Fail) {
	buf := append(make([]byte, 0, len(in)+room), in...)
	full := buf[:cap(buf)]
	for i := len(in); i < len(full); i++ {
		full[i] = 'Z'
	}
	orig := append([]byte{}, full...)
	toks, ok := scanAll(buf)
	if !ok {
		return true, failf("no end-of-file")
	}
	before := showToks(toks)
	p := parser.NewParser(lexer.NewLexer(buf))
	tree, errs := p.ParseFile()
	d1 := dumpTree(tree) + errString(errs)
	if !bytes.Equal(full, orig) {
		return true, failf("scanning or parsing %q changed the caller's memory to %q", orig, full)
	}
	for i := range full {
		full[i] = "#/\"\n;a"[i%6]
	}
	if s := showToks(toks); s != before {
		return true, failf("returned tokens changed with the buffer: %s -> %s", before, s)
	}
	if d2 := dumpTree(tree) + errString(errs); d2 != d1 {
		return true, failf("returned tree changed with the buffer:\n%s\n%s", d1, d2)
	}
	return len(toks) > 1, nil
}

func initC05() {
	opS := reg("C05.interleave", func(in []byte) (bool, *Fail) {
		var cs c05case
		if err := json.Unmarshal(in, &cs); err != nil {
			return false, nil
		}
		return true, runC05(&cs)
	})
	opB := reg("C05.reuse", func(in []byte) (bool, *Fail) {
		return reuse(in, 16)
	})
	opG := reg("C05.room", func(in []byte) (bool, *Fail) { // the first six digits say how much spare capacity follows
		if len(in) < 6 {
			return false, nil
		}
		n, err := strconv.Atoi(string(in[:6]))
		if err != nil {
			return false, nil
		}
		return reuse(in[6:], n)
	})
	opF := reg("C05.refill", opC05refill)
	addCheck("C05", "model_checking",
		"transition system: a state is the progress of every scanner plus the tokens it has returned; a transition is one real construct or scan call; all interleavings of all calls (construct, scans to end-of-file, one scan more) are executed on the implementation and after every call the caller's whole backing store is compared; every execution is compared with each scanner run alone",
		func(c *Ctx) {
			var states, trans, traces, outcomes atomic.Int64
			seen := sync.Map{}
			type job struct {
				layout string
				srcs   []string
			}
			var jobs []job
			layouts := []string{"separate", "adjacent", "spare", "same", "suffix"}
			for _, lay := range layouts {
				for _, a := range c05srcs {
					for _, b := range c05srcs {
						if (lay == "same" || lay == "suffix") && b != c05srcs[0] {
							continue
						}
						jobs = append(jobs, job{lay, []string{a, b}})
					}
				}
				small := []string{"a=", "\"u\n", ";c\nb", "1..2", ""}
				for _, a := range small {
					for _, b := range small {
						for _, d := range small {
							if (lay == "same" || lay == "suffix") && (b != small[0] || d != small[0]) {
								continue
							}
							if !c.Thorough && (len(a)+len(b)+len(d) > 6 || lay == "separate" || lay == "same") {
								continue
							}
							jobs = append(jobs, job{lay, []string{a, b, d}})
						}
					}
				}
			}
			var wg sync.WaitGroup
			var nextJob atomic.Int64
			for w := 0; w < c.workers; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for {
						j := int(nextJob.Add(1)) - 1
						if j >= len(jobs) || c.stop.Load() || c.timeUp() {
							return
						}
						jb := jobs[j]
						views, _ := place(jb.layout, jb.srcs)
						rem := make([]int, len(views))
						for k, v := range views {
							in, _ := json.Marshal(&c05case{jb.layout, jb.srcs, []int{k}})
							c.slots.begin(w, opS, in)
							toks, _ := alone(v)
							c.slots.end(w)
							rem[k] = 1 + len(toks)
						}
						sched := []int{}
						local := map[string]bool{}
						var dfs func(left int)
						total := 0
						for _, r := range rem {
							total += r
						}
						dfs = func(left int) {
							if c.stop.Load() {
								return
							}
							key := fmt.Sprint(rem)
							local[key] = true
							if left == 0 {
								cs := &c05case{jb.layout, jb.srcs, sched}
								var f *Fail
								if traces.Load()%64 == 0 {
									in, _ := json.Marshal(cs)
									c.slots.begin(w, opS, in)
								}
								f = func() (f *Fail) {
									defer func() {
										if r := recover(); r != nil {
											f = failf("panic: %v", r)
										}
									}()
									return runC05(cs)
								}()
								traces.Add(1)
								trans.Add(int64(len(sched)))
								if f != nil {
									in, _ := json.Marshal(cs)
									c.report(opS, in, f)
								}
								return
							}
							for k := range rem {
								if rem[k] == 0 {
									continue
								}
								rem[k]--
								sched = append(sched, k)
								dfs(left - 1)
								sched = sched[:len(sched)-1]
								rem[k]++
							}
						}
						dfs(total)
						c.slots.end(w)
						states.Add(int64(len(local)))
						if _, dup := seen.LoadOrStore(fmt.Sprint(jb), true); !dup {
							outcomes.Add(1)
						}
						if j%97 == 5 {
							c.sample(fmt.Sprintf("layout %s sources %q: %d states", jb.layout, jb.srcs, len(local)))
						}
					}
				}(w)
			}
			wg.Wait()
			if int(nextJob.Load()) < len(jobs) {
				c.res.Exhaustive = false
			}
			c.res.Evaluations += traces.Load()
			c.res.Nontrivial += traces.Load()
			c.res.Phases = append(c.res.Phases, phase{"interleavings", traces.Load(), traces.Load(), traces.Load()})
			c.res.Extra["states"] = states.Load()
			c.res.Extra["transitions"] = trans.Load()
			c.res.Extra["traces_validated_against_impl"] = traces.Load()
			c.res.Extra["scenarios"] = outcomes.Load()
			// buffer reuse
			lx := lexemes()
			n := int64(len(lx))
			c.Enum("buffer reuse: all lexeme pairs", opB, n*n, func(i int64, b []byte) []byte {
				b = append(b, lx[i%n]...)
				b = append(b, ' ')
				return append(b, lx[i/n]...)
			})
			c.Enum("buffer reuse: rules over all lexeme pairs", opB, n*n, func(i int64, b []byte) []byte {
				b = append(b, "r = "...)
				b = append(b, lx[i%n]...)
				b = append(b, ' ')
				return append(b, lx[i/n]...)
			})
			c.List("buffer reuse: schemas", opB, goodSchemas())
			// one buffer, filled again and again
			var eq []string // same length, so that only the contents differ
			for _, s := range []string{"a = 1", "b = 2", "a/b/c", "\"abc\"", "; abc", "a\nb\nc", "1..2.", "\"abcd", "\xffa\xffb", "a .lt", "\n\n\nab", "r=int", "     ", "[{}]("} {
				if len(s) == 5 {
					eq = append(eq, s)
				}
			}
			mix := append(append([]string{}, eq...), "", "a", "a = 1\n; c\nb = \"t\"", "zz", "x = [1.5, ~g]", "r={}\n", strings.Repeat("ab ", 400), strings.Repeat("ba ", 400), strings.Repeat("a ", 40)+"\n"+strings.Repeat("b ", 40), strings.Repeat("a ", 40)+" "+strings.Repeat("c ", 40))
			k := int64(len(mix))
			for _, n := range []int{2, c.tier(3, 4)} {
				tot := int64(8)
				for q := 0; q < n; q++ {
					tot *= k
				}
				c.Enum(fmt.Sprintf("one buffer refilled: all sequences of %d sources, all ways of scanning or parsing them", n), opF, tot, func(i int64, b []byte) []byte {
					b = append(b, byte('0'+i%8))
					i /= 8
					for q := 0; q < n; q++ {
						b = append(b, 0)
						b = append(b, mix[i%k]...)
						i /= k
					}
					return b
				})
			}
			gs := goodSchemas()
			var ps []string
			for _, a := range gs {
				for _, x := range [][2]string{{"int", "any"}, {"a", "q"}, {"1", "2"}, {"\"", "'"}, {",", " "}, {"\n", " "}, {" ", "\n"}, {"=", "-"}} {
					if b := strings.ReplaceAll(a, x[0], x[1]); b != a {
						for m := 0; m < 8; m++ {
							ps = append(ps, fmt.Sprintf("%d\x00%s\x00%s\x00%s", m, a, b, a))
						}
					}
				}
			}
			c.List("one buffer refilled with a schema, an edit of it, and the schema", opF, ps)
			// every spare capacity that a growth policy or block size could treat specially
			rooms := []int{}
			for k := 0; k <= 130; k++ {
				rooms = append(rooms, k)
			}
			for k := 256; k <= 1<<17; k *= 2 {
				rooms = append(rooms, k-1, k, k+1)
			}
			bodies := append([]string{"a", "a = 1", "a = 1\n", "x = \"t\"", "", "; c", "1..2.5", "a = [* int]\n\n"}, goodSchemas()...)
			for _, k := range []int{30, 31, 32, 33, 63, 64, 65, 127, 128, 511, 512, 4095, 4096} {
				bodies = append(bodies, "a = "+strings.Repeat("b", k), "a = int"+strings.Repeat(" ", k))
			}
			nr, nbd := int64(len(rooms)), int64(len(bodies))
			c.Enum(fmt.Sprintf("buffer reuse: %d sources with %d amounts of spare capacity up to %d bytes", nbd, nr, rooms[nr-1]), opG, nr*nbd, func(i int64, b []byte) []byte {
				return append(fmt.Appendf(b, "%06d", rooms[i%nr]), bodies[i/nr]...)
			})
		})
}

// opC05refill: each source in turn is put into the same buffer, scanned or parsed, and gives what a
// private copy gives; what was returned for the earlier ones stays as it was. Bit k of the first digit:
// source k is parsed, not scanned.
func opC05refill(in []byte) (bool, *Fail) {
	if len(in) < 3 {
		return false, nil
	}
	parts := bytes.Split(in[2:], []byte{0})
	n := 0
	for _, p := range parts {
		n = max(n, len(p))
	}
	buf := make([]byte, n+9)
	type kept struct {
		toks []itok
		tree any
		errs parser.ErrorList
		want string
	}
	var all []kept
	show := func(k kept) string {
		if k.toks != nil {
			return showToks(k.toks)
		}
		return dumpTree(k.tree) + errString(k.errs)
	}
	run := func(src []byte, parse bool) kept {
		if parse {
			tree, errs := parser.NewParser(lexer.NewLexer(src)).ParseFile()
			return kept{tree: tree, errs: errs}
		}
		toks, _ := scanAll(src)
		return kept{toks: toks}
	}
	parsed := func(i int) bool { return in[0]>>uint(i)&1 == 1 }
	want := make([]string, len(parts)) // first, so that nothing comes between the uses of the buffer
	for i, p := range parts {
		want[i] = show(run(append([]byte{}, p...), parsed(i)))
	}
	for i, p := range parts {
		copy(buf, p)
		k := run(buf[:len(p)], parsed(i))
		k.want = want[i]
		all = append(all, k)
		if !bytes.Equal(buf[:len(p)], p) {
			return true, failf("source %d, %q, was changed to %q", i, p, buf[:len(p)])
		}
		for j, o := range all {
			if s := show(o); s != o.want {
				return true, failf("one buffer, filled in turn with %q: source %d gives %s after source %d; a private copy gives %s", parts, j, s, i, o.want)
			}
		}
	}
	return true, nil
}
