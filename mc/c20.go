package main

// C20: two instances under every schedule of a controlled scheduler (c20sched.go, in a binary built from
// instrumented sources), and every short history of runs.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/runtime/validators"
	"github.com/HannesKimara/cddlc/token"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
)

// allCons has every construct the parser knows and most diagnostics.
const allCons = "a = int / \"x\" ; c\nb = [ ? k : tstr , 1*2 uint , * bool , + n2 : b64 ]\nc = { x : float .lt 5 , ~ d , \"t\" : 1 }\nd = 1..4\ne = #6.1( tstr ) .size 3 / \"y\" .regexp \"z\"\nf //= n : 5\ng = ( h : int ) // ( i : 1...x )\np /= &( s : 1 )\nq = &r\nr = ( a : 1 , b : 2 )\n$s = bstr\n$$t //= o : -1.5e3\nu = 0x1F / true / null / nint .gt 0\nv = ~ w\nw = any\na = dup\nx = .foo\n! \xff 1. 0x 999999999999999999999999\ny = ( [ 1 .size }\n\"u"

var c20src = map[string]string{
	"k":  "a = int / \"x\" ; c\n",
	"m":  "b = [ ? k : tstr , 1*2 uint ]",
	"g":  "c = { x : float .lt 5 , ~ d }\nd = 1..4",
	"t":  "e = #6.1( tstr ) .size 3 / \"y\" .regexp \"z\" // n : z",
	"e":  "f = ( [ 1 .size } \n\"u",
	"b":  "\xff @ .foo 1. 0x 9999999999999999999999",
	"n":  "h = nint\ni = bstr ; two\nj = { p : i , ? q : h }",
	"l":  "v = 5\nw = \"s\"\nx = true\ny = 1.5",
	"r":  "p /= &( s : 1 )\np = 7",
	"":   "",
	"o":  "$s //= o : 1..x",
	"1":  "a=b/\"t\"",
	"2":  "c=[d:.5]",
	"3":  "e=1..x;",
	"4":  "f=int .lt 2",
	"5":  "g=(h:int)",
	"6":  "i=2.5",
	"L":  "long-name = ( first-key : float16 , second_key : float32 , ? third : null )\nother = [ k1 : long-name , k2 : bool ]\n; end\n",
	"A":  allCons,
	"B":  "xx = 9\n" + allCons,
	"G":  "n = nint\np = tstr\nb = [ int , k : n , y : ( z : int ) ]\nv = 5\nw = \"s\"\nx = true\ny = 1.5\nz = null\nik = ( 1 : int , 22 : tstr )\n; one\n; two\nm = ( first-key : float16 , ? third : bstr )\n; c\nq = m\nr = ( m )\ns = [ ? a : p , 1*2 b : [ int ] ]\nt = any\nu = uint .size 4\no = ( bool )\n",
	"gg": "c = [ x : tstr , y : ( z : int ) ]\nd = ( c )",
}

func c20lex(src string) string {
	var b strings.Builder
	l := lexer.NewLexer([]byte(src))
	for i := 0; i <= len(src)+1; i++ {
		t, p, lit := l.Scan()
		fmt.Fprintf(&b, "%v %v %q\n", t, p, lit)
		if t == token.EOF {
			break
		}
	}
	fmt.Fprintf(&b, "%v", l.Errors)
	return b.String()
}

func c20parse(src string) string {
	env := environment.NewEnvironment()
	p := parser.NewParser(lexer.NewLexer([]byte(src)), parser.WithEnv(env))
	tree, errs := p.ParseFile()
	return dumpTree(tree) + "\n" + dumpTree(errs)
}

func c20parse1(src string) string { // without an environment
	tree, errs := parse([]byte(src))
	return dumpTree(tree) + "\n" + dumpTree(errs)
}

func c20gen(tree *ast.CDDL, pkg string) string {
	var b bytes.Buffer
	g := gogen.NewGenerator(pkg)
	g.Visit(tree)
	err := g.String(&b)
	return b.String() + fmt.Sprint(err)
}

type c20visit struct{ b *strings.Builder }

func (v c20visit) Visit(n ast.Node) astutils.Visitor {
	if n == nil {
		v.b.WriteString(")")
		return nil
	}
	fmt.Fprintf(v.b, "(%T %v", n, n.Start())
	return v
}

func c20walk(tree *ast.CDDL) string {
	var b strings.Builder
	astutils.Walk(c20visit{&b}, tree)
	return b.String()
}

func c20val(k string) string {
	var b strings.Builder
	n := int(k[0])
	for i := 0; i < 4; i++ {
		fmt.Fprint(&b, validators.InInclusiveRange(i, 1, n%4), validators.InExclusiveRange(float64(i), 0, float64(n%5)), validators.IsLessThan(i, n%3), validators.IsGreaterThan(float32(i), float32(math.Pi)))
	}
	r := regexp.MustCompile("^" + k)
	fmt.Fprint(&b, validators.RegexpMatches(r, k), validators.RegexpMatches(r, "zz"))
	return b.String()
}

// c20task returns the task of a name like "parse:m". Tasks on the tree of a source share one tree per
// table entry when the table is given.
func c20task(name string, trees map[string]*ast.CDDL) func() string {
	kind, arg, _ := strings.Cut(name, ":")
	src := c20src[arg]
	tree := func() *ast.CDDL {
		if t := trees[arg]; t != nil {
			return t
		}
		t, _ := parse([]byte(src))
		if t == nil {
			t = &ast.CDDL{}
		}
		if trees != nil {
			trees[arg] = t
		}
		return t
	}
	safely := func(f func() string) func() string {
		return func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprintf("panic: %v", r)
				}
			}()
			return f()
		}
	}
	switch kind {
	case "lex":
		return safely(func() string { return c20lex(src) })
	case "parse":
		return safely(func() string { return c20parse(src) })
	case "parse1":
		return safely(func() string { return c20parse1(src) })
	case "gen":
		t := tree()
		return safely(func() string { return c20gen(t, "pa") })
	case "genb":
		t := tree()
		return safely(func() string { return c20gen(t, "pkgb") })
	case "walk":
		t := tree()
		return safely(func() string { return c20walk(t) })
	case "fmt":
		t := tree()
		return safely(func() string { return astutils.Format(t) })
	case "all":
		return safely(func() string {
			t, errs := parse([]byte(src))
			return dumpTree(errs) + astutils.Format(t) + c20walk(t) + c20gen(t, "q")
		})
	case "text":
		return safely(func() string { return c20text(src) })
	case "wide":
		n, _ := strconv.Atoi(arg)
		wideSrcs()
		return safely(func() string { return c20wide(n) })
	case "size":
		return safely(func() string { return c20sizes(arg) })
	case "val":
		return safely(func() string { return c20val(arg) })
	}
	panic("no task " + name)
}

// c20exec runs a helper process and returns its output; bad is set when it crashed or raced.
func c20exec(exe string, args ...string) (out string, bad string, ok bool) {
	cmd := exec.Command(exe, append([]string{"sub"}, args...)...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=1")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if cmd.Start() != nil {
		return "", "", false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(200 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return "", "", false
	}
	if err == nil {
		return so.String(), "", true
	}
	e := se.String()
	if len(e) > 4000 {
		e = e[:4000]
	}
	if strings.Contains(e, "DATA RACE") || strings.Contains(e, "\ngoroutine ") && (strings.Contains(e, "panic: ") || strings.Contains(e, "fatal error: ")) && !strings.Contains(e, "cannot allocate") && !strings.Contains(e, "out of memory") && !strings.Contains(e, "all goroutines are asleep") {
		return so.String(), e, true
	}
	return "", "", false
}

func c20exe() string { e, _ := os.Executable(); return e }

var c20solo struct {
	sync.Mutex
	m map[string]string
}

// c20baseline is the result of the task run alone in a fresh process.
func c20baseline(task string) (string, bool) {
	c20solo.Lock()
	s, ok := c20solo.m[task]
	c20solo.Unlock()
	if ok {
		return s, true
	}
	s, bad, ok := c20exec(c20exe(), "c20solo", task)
	if !ok || bad != "" {
		return "", false
	}
	c20solo.Lock()
	if c20solo.m == nil {
		c20solo.m = map[string]string{}
	}
	c20solo.m[task] = s
	c20solo.Unlock()
	return s, true
}

type c20answer struct {
	N     int64  `json:"n"`
	Steps [2]int `json:"steps"`
	Fail  string `json:"fail,omitempty"`
}

// opC20sched: "A|B|i": A is preempted after i of its scheduling points, B runs j of its own (every j, and
// all of them first in the fresh process), A ends, B ends. "A|B|i!": only the first schedule, in the fresh
// process. "A|B|*": every i, each with B run to its end, in one process.
// "A|B|i~": the two in turns, i scheduling points each.
func opC20sched(in []byte) (bool, *Fail) {
	exe := os.Getenv("MC_SCHED")
	f := strings.Split(string(in), "|")
	if exe == "" || len(f) != 3 {
		return false, nil
	}
	base := [2]string{}
	for k := 0; k < 2; k++ {
		s, ok := c20baseline(f[k])
		if !ok {
			return false, nil
		}
		base[k] = s
	}
	out, bad, ok := c20exec(exe, "c20sched", f[0], f[1], f[2], c20hash(base[0]), c20hash(base[1]))
	if !ok {
		return false, nil
	}
	if bad != "" {
		return true, failf("tasks %s and %s, the first preempted at its scheduling point %s: %s\n%s", f[0], f[1], f[2], bad, out)
	}
	var a c20answer
	if json.Unmarshal([]byte(out), &a) != nil {
		return false, nil
	}
	c20count.Lock()
	c20count.n += a.N
	c20count.Unlock()
	if a.Fail != "" {
		return true, failf("%s\nrun alone:\n%s\n--\n%s", a.Fail, base[0], base[1])
	}
	return a.N > 0, nil
}

var c20count struct {
	sync.Mutex
	n int64
}

func c20hash(s string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return strconv.FormatUint(h, 16)
}

// opC20hist: task names separated by blanks ("x*n": n times), run one after another in a fresh process.
func opC20hist(in []byte) (bool, *Fail) {
	args := []string{"c20hist"}
	for _, t := range strings.Fields(string(in)) {
		name, _, _ := strings.Cut(t, "*")
		if name == "?" {
			for _, n := range c20hist {
				s, ok := c20baseline(n)
				if !ok {
					return false, nil
				}
				args = append(args, n+"="+c20hash(s))
			}
			continue
		}
		s, ok := c20baseline(name)
		if !ok {
			return false, nil
		}
		args = append(args, name+"="+c20hash(s))
	}
	args = append(args, "--")
	out, bad, ok := c20exec(c20exe(), append(args, strings.Fields(string(in))...)...)
	if !ok {
		return false, nil
	}
	if bad != "" {
		return true, failf("history %q crashes: %s", in, bad)
	}
	if strings.HasPrefix(out, "FAIL ") {
		return true, failf("history %q: %s", in, out)
	}
	if n, err := strconv.ParseInt(strings.TrimSpace(out), 10, 64); err == nil {
		c20count.Lock()
		c20count.n += n
		c20count.Unlock()
	}
	return true, nil
}

func c20HistMain(args []string) {
	want := map[string]string{}
	var names []string
	for len(args) > 0 && args[0] != "--" {
		n, h, _ := strings.Cut(args[0], "=")
		if want[n] == "" {
			names = append(names, n)
		}
		want[n] = h
		args = args[1:]
	}
	var n int64
	log := []string{}
	trees := map[string]*ast.CDDL{}
	do := func(t string) {
		if len(log) < 400 {
			log = append(log, t)
		}
		n++
		s := c20task(t, trees)()
		if c20hash(s) != want[t] {
			if len(log) == 400 {
				log = append(log, "...")
			}
			fmt.Printf("FAIL run %d (%s) differs from the run in a fresh process; runs before: %v\n%s", n, t, log, s)
			os.Exit(0)
		}
	}
	for _, t := range args[1:] {
		name, cnt, _ := strings.Cut(t, "*")
		k, _ := strconv.Atoi(cnt)
		if k < 1 {
			k = 1
		}
		if name == "?" { // every word of two tasks
			for _, a := range names {
				for _, b := range names {
					do(a)
					do(b)
				}
			}
			continue
		}
		for ; k > 0; k-- {
			do(name)
		}
	}
	fmt.Println(n)
	os.Exit(0)
}

var c20hist = func() []string {
	var l []string
	for _, s := range []string{"k", "m", "g", "t", "e", "b", "n", "l", "r", "", "o", "L", "gg", "1", "2", "A", "G"} {
		for _, k := range []string{"lex:", "parse:", "parse1:", "gen:", "genb:", "walk:", "fmt:", "text:"} {
			l = append(l, k+s)
		}
	}
	return append(l, "val:a", "val:b", "size:a", "size:b")
}()

func init() {
	reg("C20.sched", opC20sched)
	reg("C20.hist", opC20hist)
	subs["c20solo"] = func(a []string) { fmt.Print(c20task(a[0], nil)()); os.Exit(0) }
	subs["c20hist"] = c20HistMain
	addCheck("C20", "exploration", "schedule blocks: two instances (scanning, parsing, generating, walking, formatting, on separate inputs or on one tree) run as tasks of a controlled scheduler over sources instrumented with a scheduling point before every statement; for every point i of the first task, in a fresh process: the first is preempted at i, the second runs to its end, the first ends; then for every point j of the second task the same with the second preempted at j; results must equal those of the run alone, and the race detector (blind to the scheduler's own hand-overs) must stay silent. histories: every sequence of two (thorough: three) runs in one process against fresh-process results, and long repetitions. non-trivial: the block ran at least one schedule",
		runC20)
}

func runC20(c *Ctx) {
	// histories
	h := c20hist
	var l []string
	for _, t := range h {
		l = append(l, t+"*"+strconv.Itoa(c.tier(300, 3000)))
		l = append(l, "? "+t+" ?")
	}
	if !c.Thorough {
		l2 := l[:0:0]
		for i, t := range l {
			if i%2 == 0 || i%16 == 1 {
				l2 = append(l2, t)
			}
		}
		l = l2
	}
	for _, a := range h {
		for _, b := range h {
			ka, sa, _ := strings.Cut(a, ":")
			kb, sb, _ := strings.Cut(b, ":")
			if c.Thorough || ka == kb && sa != sb && (len(sa)+len(sb)) < 3 || ka != kb && sa == sb {
				l = append(l, a+" "+b)
			}
		}
	}
	c.List("histories against fresh-process results", "C20.hist", l)
	var fams []string
	for k := 0; k < famCount; k++ {
		for _, kind := range famKinds {
			fams = append(fams, fmt.Sprint(k, " ", kind, " ", []string{"quick", "thorough"}[c.tier(0, 1)]))
		}
	}
	c.List(fmt.Sprintf("families of similar inputs (%d names, %d numbers) in both orders", len(simNames(c.Thorough)), len(famNums())), "C20.fam", fams)
	c20count.Lock()
	c.res.Extra["history_runs"] = c20count.n
	c20count.n = 0
	c20count.Unlock()
	// schedules
	exe := os.Getenv("MC_SCHED")
	if exe == "" {
		c.res.Exhaustive = false
		return
	}
	pairs := [][2]string{
		{"lex:1", "lex:4"}, {"lex:2", "lex:3"}, {"lex:4", "parse:6"}, {"lex:b", "lex:e"}, {"parse:g", "lex:k"},
		{"parse:1", "parse:3"}, {"parse:3", "parse1:1"}, {"parse:5", "parse:2"}, {"parse1:6", "parse1:4"}, {"parse:r", "parse:o"},
		{"parse:t", "parse:m"}, {"parse:e", "parse:b"}, {"gen:L", "genb:n"}, {"fmt:L", "fmt:g"}, {"walk:L", "walk:g"}, {"all:n", "all:gg"}, {"text:6", "text:3"},
		// from here on every pair of preemption points
		{"lex:6", "lex:3"}, {"parse:6", "parse1:6"},
		{"gen:l", "genb:n"}, {"genb:n", "gen:l"}, {"gen:5", "genb:5"}, {"gen:gg", "genb:k"}, {"genb:m", "gen:6"},
		{"walk:1", "walk:1"}, {"fmt:5", "fmt:1"}, {"fmt:2", "fmt:2"}, {"walk:5", "fmt:5"}, {"gen:5", "walk:5"}, {"fmt:5", "gen:5"},
		{"val:a", "val:b"}, {"size:a", "size:b"},
	}
	few := c.tier(17, 0)
	// every construct in both tasks: the second runs after some number of steps of the first
	all := [][2]string{{"lex:A", "lex:A"}, {"parse:A", "parse:A"}, {"parse1:A", "parse1:A"}, {"parse:B", "parse1:A"}, {"parse:A", "lex:A"}, {"lex:A", "parse1:A"}, {"gen:G", "gen:G"}, {"gen:G", "genb:G"}, {"fmt:A", "fmt:A"}, {"walk:A", "walk:A"}, {"walk:G", "fmt:G"}, {"fmt:G", "gen:G"}, {"gen:G", "walk:G"}, {"all:G", "all:G"}, {"all:A", "all:A"}, {"all:B", "all:G"}, {"val:a", "val:a"}, {"size:a", "size:a"}, {"text:A", "text:A"}, {"text:B", "text:G"}}
	if c.Thorough {
		for _, a := range []string{"k", "m", "g", "t", "e", "b", "n", "l", "r", "o"} {
			for _, b := range []string{"k", "m", "g", "t", "e", "b", "n", "l", "r", "o"} {
				pairs = append(pairs, [2]string{"lex:" + a, "lex:" + b}, [2]string{"parse:" + a, "parse:" + b}, [2]string{"parse1:" + a, "lex:" + b})
			}
		}
		for _, a := range []string{"k", "n", "l", "gg", "m", "g"} {
			for _, b := range []string{"k", "n", "l", "gg", "L"} {
				pairs = append(pairs, [2]string{"gen:" + a, "genb:" + b}, [2]string{"fmt:" + a, "fmt:" + b}, [2]string{"walk:" + a, "gen:" + b}, [2]string{"parse:" + a, "gen:" + b}, [2]string{"fmt:" + a, "walk:" + b})
			}
		}
		pairs = append(pairs, [2]string{"all:gg", "all:n"}, [2]string{"all:k", "all:m"})
	}
	var blocks []string
	for k, p := range pairs {
		out, bad, ok := c20exec(exe, "c20steps", p[0])
		n, err := strconv.Atoi(strings.TrimSpace(out))
		if !ok || bad != "" || err != nil {
			c.res.Exhaustive = false
			continue
		}
		if k < few {
			blocks = append(blocks, p[0]+"|"+p[1]+"|*")
			for i := 1; i <= n; i += 6 {
				blocks = append(blocks, fmt.Sprintf("%s|%s|%d!", p[0], p[1], i))
			}
			continue
		}
		for i := 1; i <= n; i++ {
			blocks = append(blocks, fmt.Sprintf("%s|%s|%d", p[0], p[1], i))
		}
	}
	c.List("two tasks, every pair of preemption points", "C20.sched", blocks)
	blocks = nil
	for _, p := range all {
		out, bad, ok := c20exec(exe, "c20steps", p[0])
		n, err := strconv.Atoi(strings.TrimSpace(out))
		if !ok || bad != "" || err != nil {
			c.res.Exhaustive = false
			continue
		}
		for k := 1; k < 8; k++ {
			blocks = append(blocks, fmt.Sprintf("%s|%s|%d~", p[0], p[1], k))
		}
		for k := 0; k < c.tier(24, 200); k++ {
			blocks = append(blocks, fmt.Sprintf("%s|%s|%d!", p[0], p[1], 1+n*k/c.tier(24, 200)))
		}
	}
	c.List("every construct in both tasks, the first preempted at points spread over its run, and both in turns of 1-7 points", "C20.sched", blocks)
	blocks = nil
	for i := 0; i < wideCount(); i++ {
		w := fmt.Sprint("wide:", i)
		blocks = append(blocks, w+"|"+w+"|1~", w+"|"+w+"|3~", fmt.Sprintf("%s|wide:%d|1!", w, (i+1)%wideCount()), fmt.Sprintf("%s|wide:%d|2~", w, (i+1)%wideCount()))
	}
	c.List(fmt.Sprintf("everything the library offers on %d sources of every construct, length and depth, beside itself and beside the next %d, one after the other and in turns", len(wideSrcs()), wideChunk), "C20.sched", blocks)
	c20count.Lock()
	c.res.Extra["schedules"] = c20count.n
	c20count.Unlock()
	c.res.Extra["task_pairs"] = len(pairs)
}
