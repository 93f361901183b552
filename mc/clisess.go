package main

// C28 (init), C29 (REPL sessions), C30 (lex and parse commands).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/config"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
)

// ---- C28 ----

// iworld is a directory in which init is run.
type iworld struct {
	Files []wfile  `json:"files"`
	Cwd   string   `json:"cwd,omitempty"`
	Ro    bool     `json:"ro,omitempty"` // the directory cannot be written
	Runs  int      `json:"runs,omitempty"`
	Limit *int64   `json:"limit,omitempty"`
	Args  []string `json:"args,omitempty"` // words after init
	Gen   bool     `json:"gen,omitempty"`  // run generate afterwards, and without the configuration
}

func opC28(in []byte) (bool, *Fail) {
	var g iworld
	if json.Unmarshal(in, &g) != nil {
		return false, nil
	}
	if (g.Ro || needsPriv(g.Files)) && !canDrop() {
		return false, nil
	}
	w := newWorld()
	defer w.close()
	w.put("d/", "")
	cwd := "d"
	if g.Cwd != "" {
		cwd = "d/" + g.Cwd
		w.put(cwd+"/", "")
	}
	w.putAll(g.Files)
	conf := cwd + "/cddlc.json"
	if g.Ro {
		os.Chmod(w.path(cwd), 0555)
	}
	before := w.snap()
	had := exists(w.path(conf))
	say := func(r cliResult, after map[string]string, f string, a ...any) (bool, *Fail) {
		return true, failf("%s\nworld: %s\nrun: %s\nchanges: %v", fmt.Sprintf(f, a...), in, r, snapDiff(before, after))
	}
	var r cliResult
	if g.Limit != nil {
		r = w.runLimited(*g.Limit, cwd, "", "init")
	} else {
		r = w.run(cwd, "", append([]string{"init"}, g.Args...)...)
	}
	after := w.snap()
	if r.crashed() {
		return say(r, after, "init crashed")
	}
	d := snapDiff(before, after)
	if len(g.Args) > 0 && r.code != 0 && len(d) == 0 {
		return true, nil // superfluous words refused
	}
	if had || g.Ro {
		if r.code == 0 {
			return say(r, after, "init reports success although cddlc.json exists or cannot be created")
		}
		if len(d) > 0 {
			return say(r, after, "init failed but changed files")
		}
		if strings.TrimSpace(r.err+r.out) == "" {
			return say(r, after, "no message")
		}
		return true, nil
	}
	text, _ := w.read(conf)
	if g.Limit != nil && r.code != 0 {
		if int64(len(text)) > *g.Limit {
			return say(r, after, "limit not effective")
		}
		return true, nil
	}
	if r.code != 0 {
		return say(r, after, "init failed")
	}
	if strings.Join(d, ",") != "added "+conf {
		return say(r, after, "init must only create %s", conf)
	}
	c, err := config.LoadConfig(w.path(conf))
	if err != nil {
		return say(r, after, "the created configuration does not load: %v", err)
	}
	def := config.NewDefaultConfig()
	if confString(c) != confString(def) || len(c.Builds) != 1 || *c.Builds[0] != (config.BuildConfig{Package: "dist", SourceDir: ".", OutDir: "dist/"}) {
		return say(r, after, "the created configuration is %s, want the default %s", confString(c), confString(def))
	}
	var one any
	dec := json.NewDecoder(strings.NewReader(text))
	if dec.Decode(&one) != nil || strings.TrimSpace(text[dec.InputOffset():]) != "" {
		return say(r, after, "the created file is not one JSON document: %q", text)
	}
	for i := 1; i < g.Runs; i++ {
		b := w.snap()
		r2 := w.run(cwd, "", "init")
		a := w.snap()
		if r2.code == 0 || r2.crashed() || len(snapDiff(b, a)) > 0 {
			return say(r2, a, "init run %d must fail and change nothing", i+1)
		}
	}
	if g.Gen {
		gen := func() (string, cliResult) {
			b := w.snap()
			r := w.run(cwd, "", "generate")
			a := w.snap()
			s := fmt.Sprintf("exit %d", r.code)
			for _, x := range snapDiff(b, a) {
				p := strings.TrimPrefix(strings.TrimPrefix(x, "added "), "changed ")
				s += "\n" + x + " " + a[p]
				if strings.HasPrefix(x, "added ") && strings.HasPrefix(a[p], "file ") {
					os.Remove(w.path(p))
				}
			}
			return s, r
		}
		s1, r1 := gen()
		if r1.crashed() {
			return say(r1, w.snap(), "generate crashed")
		}
		for p := range after {
			if strings.HasPrefix(p, cwd+"/") && strings.HasSuffix(p, ".cddl") && !strings.Contains(p[len(cwd)+1:], "/") {
				src, _ := w.read(p)
				body, ok := genLib(src, "dist")
				if ok && r1.code == 0 && !strings.Contains(s1, body) {
					return say(r1, w.snap(), "generate after init did not write the Go file of %s:\n%s", p, s1)
				}
				if !ok && r1.code == 0 {
					return say(r1, w.snap(), "generate after init succeeds although %s cannot be generated", p)
				}
			}
		}
		os.RemoveAll(w.path(cwd + "/dist"))
		os.Remove(w.path(conf))
		s2, r2 := gen()
		os.Remove(w.path(conf))
		w.put(conf, text)
		os.RemoveAll(w.path(cwd + "/dist"))
		s3, _ := gen()
		if s2 != s3 {
			return say(r2, w.snap(), "generate differs between the created and the default configuration:\n%s\n%s", s3, s2)
		}
	}
	return true, nil
}

// ---- C29 ----

// opC29: the first byte says whether --lex is given; then the lines of a session.
func opC29(in []byte) (bool, *Fail) {
	if len(in) == 0 {
		return false, nil
	}
	lexFlag := in[0] == 'L'
	body := in[1:]
	args := []string{"qrepl"}
	if lexFlag {
		args = append(args, "--lex")
	}
	w := newWorld()
	defer w.close()
	r := w.run("", string(body), args...)
	say := func(f string, a ...any) (bool, *Fail) {
		return true, failf("session %.2000q: %s\n%s", body, fmt.Sprintf(f, a...), r)
	}
	if r.crashed() {
		return say("crashed")
	}
	// the lines as a line reader sees them
	lines := strings.Split(string(body), "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	segs := strings.Split(r.out, ">>> ")
	if len(segs) < 2 {
		return say("no prompt")
	}
	segs = segs[1:]
	e := newEnv()
	verbose := false
	spec := map[string]bool{} // names defined by accepted lines
	fuzzy := map[string]bool{}
	first := map[string]string{} // the text of the first definition of a name
	for i, line := range lines {
		line = strings.TrimSuffix(line, "\r")
		if i >= len(segs) {
			return say("no prompt for line %d %q", i+1, line)
		}
		got := segs[i]
		cmd := strings.TrimSpace(line)
		if strings.HasPrefix(cmd, ":exit") {
			if r.code != 0 {
				return say("the exit command ended with status %d", r.code)
			}
			if len(segs) != i+1 {
				return say("the session went on after the exit command")
			}
			return true, nil
		}
		if i+1 >= len(segs) {
			return say("the session ended at line %d %q", i+1, line)
		}
		switch {
		case strings.HasPrefix(cmd, ":help"):
			if !strings.Contains(got, ":exit") {
				return say("help shows %q", got)
			}
			continue
		case strings.HasPrefix(cmd, ":pv"):
			verbose = !verbose
			if got != "" {
				return say("toggle printed %q", got)
			}
			continue
		case strings.HasPrefix(cmd, ":tree"):
			want := ""
			for _, a := range strings.Split(cmd, " ")[1:] {
				v := e.Get(a)
				if spec[a] && isNil(v) {
					return say("%q is not in scope for the library", a)
				}
				if !spec[a] && !fuzzy[a] && !isNil(v) {
					return say("%q is in scope although no accepted line defines it", a)
				}
				if x, ok := first[a]; ok {
					want += x
				} else if v != nil {
					want += a + ": " + strings.TrimRight(astutils.Format(v), "\n") + "\n"
				}
			}
			if squeeze(got) != squeeze(want) {
				return say("line %d %q printed %q, want %q", i+1, line, got, want)
			}
			continue
		}
		want := ""
		if lexFlag {
			want += lexDump([]byte(line))
		}
		tree, errs := parseWith([]byte(line), e)
		if len(errs) > 0 {
			want += errs.String() + "\n"
		}
		var names []string
		texts := map[string]string{}
		again := ""
		if tree != nil {
			for _, x := range tree.Rules {
				if rl, ok := x.(*ast.Rule); ok && rl.Name != nil {
					names = append(names, rl.Name.Name)
					if _, ok := texts[rl.Name.Name]; !ok && !isNil(rl.Value) {
						texts[rl.Name.Name] = rl.Name.Name + ": " + strings.TrimRight(astutils.Format(rl.Value), "\n") + "\n"
					}
					if spec[rl.Name.Name] && !strings.Contains(line, "/=") {
						again = rl.Name.Name
					}
					if verbose {
						want += fmt.Sprintf("%s ; %T\n", rl.Name.Name, rl.Value)
					}
				}
			}
		}
		if squeeze(got) != squeeze(want) {
			return say("line %d %q printed %q, want %q", i+1, line, got, want)
		}
		if again != "" && len(errs) == 0 {
			return say("line %d %q defines %q again and nothing was reported", i+1, line, again)
		}
		for _, n := range names {
			if len(errs) == 0 {
				if !spec[n] && !fuzzy[n] {
					first[n] = texts[n]
				}
				spec[n] = true
			} else {
				fuzzy[n] = true
			}
		}
		// an accepted line resolves: nothing it refers to is reported; a repeated definition is
		if f := checkScope(line, len(errs) == 0, names, spec, fuzzy); f != "" {
			return say("line %d %q: %s", i+1, line, f)
		}
	}
	return len(lines) > 0, nil
}

var scopeDefs = map[string]int{}

// checkScope judges what needs no parser: rules over plain names.
func checkScope(line string, accepted bool, names []string, spec, fuzzy map[string]bool) string {
	f := strings.Fields(line)
	if len(f) != 3 || f[1] != "=" || !plainName(f[0]) || !plainName(f[2]) {
		return ""
	}
	if goTypes[f[2]] == "" && !spec[f[2]] && !fuzzy[f[2]] && accepted {
		return "a reference to a name nobody defined was accepted"
	}
	return ""
}

func plainName(s string) bool {
	if s == "" || s == "true" || s == "false" {
		return false
	}
	for _, r := range s {
		if r < 'a' || r > 'z' {
			return false
		}
	}
	return true
}

// squeeze normalises trailing space and empty lines.
func squeeze(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if x = strings.TrimRight(x, " \t\r"); x != "" {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}

func lexDump(src []byte) string {
	var b strings.Builder
	lx := lexer.NewLexer(append([]byte{}, src...))
	for {
		t, p, lit := lx.Scan()
		fmt.Fprintf(&b, "%s: %s -> %s\n", p, t, lit)
		if t == token.EOF {
			return b.String()
		}
	}
}

// ---- C30 ----

func opC30lex(in []byte) (bool, *Fail) {
	w := newWorld()
	defer w.close()
	w.put("f.cddl", string(in))
	before := w.snap()
	r := w.run("", "", "lex", "f.cddl")
	if r.crashed() {
		return true, failf("lex of %.500q crashed: %s", in, r)
	}
	if d := snapDiff(before, w.snap()); len(d) > 0 {
		return true, failf("lex changed %v", d)
	}
	if want := lexDump(in); r.out != want {
		return true, failf("lex of %.500q printed\n%.2000s\nwant\n%.2000s", in, r.out, want)
	}
	// positions and literals against the reference scanner
	illegal, unclosed := false, false
	for _, t := range refLex(in) {
		illegal = illegal || t.illegal
		unclosed = unclosed || t.unclosed
	}
	if illegal && r.code == 0 {
		return true, failf("lex of %.500q succeeds although there are illegal tokens", in)
	}
	if !illegal && !unclosed && r.code != 0 {
		return true, failf("lex of %.500q failed without illegal tokens: %s", in, r)
	}
	if r.code != 0 && strings.TrimSpace(r.err) == "" {
		return true, failf("lex of %.500q failed without a message", in)
	}
	return true, nil
}

func opC30parse(in []byte) (bool, *Fail) {
	w := newWorld()
	defer w.close()
	w.put("f.cddl", string(in))
	before := w.snap()
	r := w.run("", "", "parse", "f.cddl")
	if r.crashed() {
		return true, failf("parse of %.500q crashed: %s", in, r)
	}
	if d := snapDiff(before, w.snap()); len(d) > 0 {
		return true, failf("parse changed %v", d)
	}
	tree, errs := parse(in)
	b, err := json.Marshal(tree)
	if err != nil {
		return true, failf("the tree of %.500q cannot be written as JSON: %v", in, err)
	}
	var want, got any
	dec := func(b []byte, v *any) error {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if err := d.Decode(v); err != nil {
			return err
		}
		if rest := strings.TrimSpace(string(b[d.InputOffset():])); rest != "" {
			return fmt.Errorf("more than one document: %.100q", rest)
		}
		return nil
	}
	if err := dec(b, &want); err != nil {
		return true, failf("library JSON: %v", err)
	}
	if err := dec([]byte(r.out), &got); err != nil {
		return true, failf("parse of %.500q: standard output is not one JSON document (%v): %s", in, err, r)
	}
	if !reflect.DeepEqual(want, got) {
		return true, failf("parse of %.500q printed the tree\n%.2000s\nwant\n%.2000s", in, r.out, b)
	}
	if f := jsonTree(canon(tree), got, in); f != nil {
		return true, f
	}
	if len(errs) > 0 {
		return true, checkRendering(in, r.err)
	}
	return true, nil
}

// jsonTree: every name and text of the tree is in the document, as often as in the tree.
func jsonTree(t *N, doc any, in []byte) *Fail {
	cnt := map[string]int{}
	var jw func(v any)
	jw = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			for _, e := range x {
				jw(e)
			}
		case []any:
			for _, e := range x {
				jw(e)
			}
		case string:
			cnt[x]++
		}
	}
	jw(doc)
	need := map[string]int{}
	var tw func(n *N)
	tw = func(n *N) {
		if n.K == "id" || n.K == "text" || n.K == "comment" {
			need[strings.ToValidUTF8(n.V, "\ufffd")]++
		}
		for _, c := range n.C {
			tw(c)
		}
	}
	tw(t)
	for k, v := range need {
		if cnt[k] < v && k != "" && strings.ToValidUTF8(k, "") == k && !strings.Contains(k, "\ufffd") {
			return failf("parse of %.500q: %q is %d times in the tree and %d times in the JSON document", in, k, v, cnt[k])
		}
	}
	return nil
}

// opC30args: lex and parse with other arguments, separated by NUL; the file x.cddl exists.
func opC30args(in []byte) (bool, *Fail) {
	w := newWorld()
	defer w.close()
	w.put("x.cddl", "a = int\n")
	w.put("dir/", "")
	for _, n := range []string{"y", "y.CDDL", " y", "y ", "é.cddl", "a b.cddl", ".cddl", "%s", "d/e/z.cddl", "a.json", "lex", "parse", "x.cddl.cddl", "$x", "*", "~"} {
		w.put(n, "a = int\n")
	}
	a := strings.Split(string(in), "\x00")
	r := w.run("", "", a...)
	if r.crashed() {
		return true, failf("%q crashed: %s", a, r)
	}
	ok := false
	if len(a) == 2 && !strings.HasPrefix(a[1], "-") {
		i, err := os.Stat(w.root + "/" + a[1])
		ok = err == nil && i.Mode().IsRegular()
	}
	if ok != (r.code == 0) {
		return true, failf("%q: %s", a, r)
	}
	if !ok && strings.TrimSpace(r.err+r.out) == "" {
		return true, failf("%q failed without a message", a)
	}
	return true, nil
}

// opC28race: that many init commands at once, under every schedule with two (with three commands:
// three) preemptions at the scheduling points of the instrumented sources.
func opC28race(in []byte) (bool, *Fail) {
	exe := os.Getenv("MC_SCHED")
	if exe == "" {
		return false, nil
	}
	w := newWorld()
	defer w.close()
	w.put("d/", "")
	out, bad, ok := c20exec(exe, "c28race", w.path("d"), string(in))
	if !ok {
		return false, nil
	}
	if bad != "" {
		return true, failf("%s init commands at once: %s\n%s", in, bad, out)
	}
	var a c20answer
	if json.Unmarshal([]byte(out), &a) != nil {
		return false, nil
	}
	c20count.Lock()
	c20count.n += a.N
	c20count.Unlock()
	if a.Fail != "" {
		return true, failf("%s", a.Fail)
	}
	return true, nil
}

func init() {
	n28 := reg("C28.init", opC28)
	n28race := reg("C28.race", opC28race)
	addCheck("C28", "exploration", "every state of cddlc.json (absent, every content of the list, directory, link, unreadable) and of the directory, with other files of the stated kinds; repeated runs; writing failing after every number of bytes; generate with the created and with the default configuration; two (thorough: three) init commands at once under a controlled scheduler with a scheduling point before every statement, preempted at every pair (triple) of points; non-trivial: the command ran", func(c *Ctx) {
		var l []string
		add := func(g iworld) { b, _ := json.Marshal(g); l = append(l, string(b)) }
		others := [][]wfile{nil, {{N: "d/cddlc.yaml", C: yamlConfig(nil)}}, {{N: "d/cddlc.json.bak", C: "x"}}, {{N: "cddlc.json", C: "{}"}}, {{N: "d/sub/cddlc.json", C: "{}"}}, {{N: "d/Cddlc.json", C: "{}"}}, {{N: "d/.cddlc.json", C: ""}}, {{N: "d/cddlc.yml", C: ""}}, {{N: "d/dist/a.go", C: "package x"}}, {{N: "d/cddlc", C: ""}}, {{N: "d/cddlc.js", C: ""}}}
		for i, a := range others {
			for _, b := range others[:i+1] {
				fs := append(append([]wfile{}, a...), b...)
				for _, runs := range []int{1, 2, 3} {
					add(iworld{Files: fs, Runs: runs})
				}
				add(iworld{Files: fs, Cwd: "deep/er", Runs: 2})
			}
		}
		for _, n := range append(upTo(34), 50, 64, 65, 99, 100, 101, 128, 257, 1025) {
			for _, kind := range []string{"f%d.txt", "f%d.cddl", "sub%d/", ".h%d", "cddlc%d.json"} {
				var fs []wfile
				for i := 0; i < n; i++ {
					fs = append(fs, wfile{N: "d/" + fmt.Sprintf(kind, i)})
				}
				add(iworld{Files: fs, Runs: 2})
			}
		}
		for _, n := range []string{"a.cddl", ".git/", ".git/config", "go.mod", "main.go", "dist/", "dist", "Makefile", "node_modules/x", "cddlc.json/../x", "cddlc.json.tmp", "cddlc.json~", ".cddlc.json.swp", "cddlc.lock", "README.md", "package.json", "cddlc.json.", "cddlc.jso", "CDDLC.JSON", "cddlc_json", "cddlc-json"} {
			add(iworld{Files: []wfile{{N: "d/" + n, C: "x"}}, Runs: 2})
			add(iworld{Files: []wfile{{N: n, C: "x"}}, Runs: 1})
		}
		for _, a := range []string{"x", ".", "dist", "gen", "..", "cddlc.yaml", "sub/", "", "a.cddl", "init", "generate", "go", "1", "/", "--", "-"} {
			add(iworld{Args: []string{a}})
			add(iworld{Args: []string{a, "y"}})
			add(iworld{Args: []string{"p", a, "z"}})
			add(iworld{Args: []string{a}, Files: []wfile{{N: "d/cddlc.json", C: "{}"}}})
			add(iworld{Args: []string{a}, Files: []wfile{{N: "d/a.cddl", C: "a = int\n"}, {N: "d/dist/"}}})
		}
		c.List("no configuration, other files", n28, l)
		l = nil
		var contents []string
		for b := 0; b < 256; b++ {
			contents = append(contents, string([]byte{byte(b)}))
		}
		contents = append(contents, "", "{}", "null", "[]", jsonConfig(nil), jsonConfig([]wbuild{{"p", "s", "o"}}), strings.Repeat(" ", 5000), "{\"builds\":", "\xff\xfe", strings.TrimSuffix(jsonConfig(nil), "\n"))
		contents = append(contents, badConfigs["json"]...)
		for _, x := range contents {
			add(iworld{Files: []wfile{{N: "d/cddlc.json", C: x}}})
		}
		for _, m := range []string{"000", "444", "222", "777"} {
			for _, x := range contents[256:262] {
				add(iworld{Files: []wfile{{N: "d/cddlc.json", C: x, M: m}}})
			}
		}
		add(iworld{Files: []wfile{{N: "d/cddlc.json/"}}})
		add(iworld{Files: []wfile{{N: "d/cddlc.json/x", C: "y"}}})
		for _, x := range contents[256:262] {
			add(iworld{Files: []wfile{{N: "d/t", C: x}, {N: "d/cddlc.json", L: "t"}}})
			add(iworld{Files: []wfile{{N: "t", C: x}, {N: "d/cddlc.json", L: "../t"}}})
		}
		add(iworld{Files: []wfile{{N: "d/t/"}, {N: "d/cddlc.json", L: "t"}}})
		add(iworld{Files: []wfile{{N: "d/cddlc.json", L: "/dev/null"}}})
		add(iworld{Files: nil, Ro: true})
		add(iworld{Files: []wfile{{N: "d/cddlc.json", C: "{}"}}, Ro: true})
		add(iworld{Files: nil, Ro: true, Cwd: "deep"})
		c.List("existing configurations and unwritable directories", n28, l)
		l = nil
		for n := int64(0); n < 400; n++ {
			n := n
			add(iworld{Limit: &n})
		}
		c.List("writing fails after every number of bytes", n28, l)
		l = nil
		for _, s := range append(append(append(append([]string{}, okSchemas...), rejSchemas...), hardSchema...), goodSchemas()...) {
			add(iworld{Files: []wfile{{N: "d/m.cddl", C: s}}, Gen: true})
			add(iworld{Files: []wfile{{N: "d/m.cddl", C: s}, {N: "d/a.cddl", C: okSchemas[1]}, {N: "d/sub/x.cddl", C: "bad ("}}, Gen: true})
		}
		c.List("generate with the created configuration", n28, l)
		c20count.n = 0
		c.List("several init commands at once, all schedules", n28race, []string{"2", "3"}[:c.tier(1, 2)])
		c.res.Extra["schedules_of_concurrent_inits"] = c20count.n
		c.res.Extra["unprivileged_user"] = canDrop()
	})

	n29 := reg("C29.session", opC29)
	addCheck("C29", "exploration", "all sessions of the stated length over the line alphabet, run in the real REPL and compared line by line with library parses in one scope and with the names accepted lines define; every byte and lexeme sequence as a line; non-trivial: at least one line was judged", func(c *Ctx) {
		lines := []string{"a = int", "b = a", "a = tstr", "c = zzz", "x = (", ":pv", ":tree a b c x", "b = (k: a) d = 5", "a /= uint", "\"open", "n = d .. 2.5", ":tree", ":exit", "", "c = b ; note"}
		k := c.tier(3, 4)
		c.Words(fmt.Sprintf("all sessions of %d lines (of %d), ended by :tree", k, len(lines)), n29, lines, k, "-", "\n", "\n:tree a b c d n x\n")
		c.Words("all sessions of 2 lines with --lex", n29, lines, 2, "L", "\n", "\n")
		c.Words("all sessions of 2 lines, no final newline", n29, lines, 2, "-", "\n", "")
		mini := []string{"a = int", "b = a", "b = (", "a = b", ":pv", ":tree b a"}
		c.Words(fmt.Sprintf("all sessions of %d lines (of %d)", c.tier(4, 6), len(mini)), n29, mini, c.tier(4, 6), "-", "\n", "\n:tree a b\n")
		// many lines in one session: every byte, every pair with a special byte, every lexeme sequence
		var ls []string
		for b := 0; b < 256; b++ {
			if b != '\n' {
				ls = append(ls, string([]byte{byte(b)}), "a"+string([]byte{byte(b)})+" = int", "z = \""+string([]byte{byte(b)})+"\"", string([]byte{byte(b)})+":tree a", " "+string([]byte{byte(b), byte(b)})+" = 5 ; x")
			}
		}
		syms := append([]string{}, synCore...)
		for _, a := range syms {
			for _, b := range syms {
				ls = append(ls, a+" "+b, "y = "+a+" "+b, "y = ("+a+" "+b)
			}
		}
		for _, p := range rich() {
			ls = append(ls, strings.ReplaceAll(p.src(), "\n", " "))
			for _, t := range edits(p.toks[:min(len(p.toks), c.tier(6, 20))], synMini) {
				ls = append(ls, strings.ReplaceAll(t, "\n", " "))
			}
		}
		for _, s := range []string{":tree  a", ":treea", ":tree\ta", ": tree a", ":", ":x", " :pv ", ":pvx", ":help", ":helpx", ":tree :tree", ":tree $a", ":tree %s %d", "%s = int", ":tree " + strings.Repeat("a ", 200), "a = int\r", "\r", "\t a = int \t", "é = int", "$a = int", "a=int", "a=int b=tstr c=a", ";", "; c", "a ; c", "a =", "= a", "()", "{", "}", "a = {", "a = ~", "a = &", "a = #", "a = #6.1(", "\x00", "\ufeffa = int", "a = ( ; c", "a //= int", "a /= b"} {
			ls = append(ls, s)
		}
		for _, ex := range []string{":exit"} {
			_ = ex
		}
		per := 40
		var blocks []string
		for i := 0; i < len(ls); i += per {
			x := strings.Join(ls[i:min(i+per, len(ls))], "\n") + "\n"
			blocks = append(blocks, "-"+x, "-:pv\n"+x+":tree a y z b\n")
			if i%(4*per) == 0 {
				blocks = append(blocks, "L"+x)
			}
		}
		c.List(fmt.Sprintf("%d lines (bytes, lexeme sequences, edited schemas), %d per session", len(ls), per), n29, blocks)
		// long lines
		var ll []string
		for _, n := range []int{1000, 4000, 4090, 4095, 4096, 4097, 8191, 8192, 16384, 32768, 60000, 64000, 65500} {
			for _, f := range []string{"%s = int", "a = %s", "; %s", "a = \"%s\"", ":tree %s", "%s", "a = (%s"} {
				x := strings.Replace(f, "%s", strings.Repeat("x", n), 1)
				x = x[:min(len(x), 65530)]
				ll = append(ll, "-q = int\n"+x+"\nr = q\n:tree q r\n")
				y := "a = (" + strings.Repeat("k: int, ", n/8) + ")"
				ll = append(ll, "-q = int\n"+y[:min(len(y), 65530)]+"\nr = q\n:tree q r\n")
			}
			// names kept from a line survive later lines in the same read buffer
			ll = append(ll, "-name = int\nother = name\n; "+strings.Repeat("y", n)+"\nthird = name\nname = tstr\n:tree name other third\n")
		}
		c.List("long lines", n29, ll)
		// lines of n rules between single ones
		var mr []string
		name := func(p string, i int) string { return p + string(rune('a'+i/26%26)) + string(rune('a'+i%26)) }
		for n := 1; n <= c.tier(70, 400); n++ {
			for _, form := range []string{"%n = int", "%n = q", "%n = (k: q)", "%n /= int", "x == = =", "%n = [a: q, b: =]", "%n = \"=\"", "q = %n", "%n = %p"} {
				var b strings.Builder
				for i := 0; i < n; i++ {
					b.WriteString(strings.ReplaceAll(strings.ReplaceAll(form, "%n", name("n", i)), "%p", name("n", max(i-1, 0))) + " ")
				}
				x := b.String()
				mr = append(mr, "-q = int\nr = q\n"+x+"\ns = q\nt = "+name("n", 0)+"\nu = "+name("n", n-1)+"\nq = tstr\n:tree q r s t u "+name("n", n-1)+"\n")
				if n < 20 {
					mr = append(mr, "-"+x+"\n"+x+"\n:pv\nz = q\n"+x+"\n:tree q z "+name("n", 0)+"\n", "L"+x+"\n")
				}
			}
		}
		c.List("lines of many rules", n29, mr)
		// sessions of n lines: what the first ones define stays
		var sl []string
		for _, n := range append(upTo(66), []int{100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000}[:c.tier(15, 21)]...) {
			for _, f := range []string{"%n = int", "%n = q", "z = (", "%n = zzz", ":tree q", "", ":pv", "; c", "$%n = int", "$$%n /= q", "%n.x //= int"} {
				if strings.HasPrefix(f, "$") || strings.Contains(f, "//=") {
					if n%5 != 0 {
						continue
					}
				}
				var b strings.Builder
				for i := 0; i < n; i++ {
					b.WriteString(strings.ReplaceAll(f, "%n", name(string(rune('a'+i/676)), i)) + "\n")
				}
				sl = append(sl, "-q = int\nr = q\n$q = int\n"+b.String()+"s = r\nq = tstr\n$q = tstr\nt = 5 .. $"+name("a", n-1)+"\n$"+name("a", 0)+" = 7\n$$"+name("a", 1)+" = 7\nv = zzzz\n:tree q r s $q $"+name("a", 0)+" "+name("a", 0)+" "+name("a", n-1)+"\n")
			}
		}
		for _, n := range []int{2100, 4100, 8300, 17000}[:c.tier(3, 4)] { // all names looked up again
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(name(string(rune('a'+i/676)), i) + " = int\n")
			}
			for i := 0; i < n; i += 50 {
				b.WriteString(":tree")
				for j := i; j < i+50 && j < n; j++ {
					b.WriteString(" " + name(string(rune('a'+j/676)), j))
				}
				b.WriteString("\nzz" + name("z", i/50) + " = " + name(string(rune('a'+i/676)), i) + "\n")
			}
			sl = append(sl, "-q = int\nr = q\n$q = int\n$$q /= int\nq.x = int\n"+b.String()+"s = r\nq = tstr\n$q = tstr\n$$q = tstr\nq.x = tstr\n:tree q r s $q $$q q.x\n")
		}
		c.List("sessions of many lines", n29, sl)
		// every spelling of a name, defined and shown, next to similar ones
		var sp []string
		sn := append(simNames(false), shortNames(2)...)
		for i := 0; i < len(sn); i += 25 {
			x := "-"
			blk := sn[i:min(i+25, len(sn))]
			for j, n := range blk {
				if j%3 != 0 {
					x += n + " = int\n"
				}
				x += ":tree " + n + "\n:tree " + n + ". ." + n + " " + n + ", " + strings.ToUpper(n) + "  " + strings.ToLower(n) + " " + n + "\n"
			}
			for j, n := range blk {
				x += fmt.Sprintf("zz%d = %s\n", i+j, n)
			}
			sp = append(sp, x+":tree "+strings.Join(blk, " ")+"\n")
		}
		c.List("spellings of names", n29, sp)
		// every kind of value as a definition, extended and defined again
		var kd []string
		var vals []string
		for _, m := range append(append(append(append([]*M{}, allLeaves()...), allAtoms()...), richModels()...), shapeVals()...) {
			vals = append(vals, strings.ReplaceAll(strings.TrimPrefix(printFile(mk("file", "", mk("rule", "=", id("qq"), m)), 0).src(), "qq = "), "\n", " "))
		}
		supp := ""
		for _, r := range support() {
			supp += strings.ReplaceAll(printFile(mk("file", "", r), 0).src(), "\n", " ") + "\n"
		}
		for i, v := range vals {
			w := vals[(i*7+3)%len(vals)]
			for _, as := range []string{"=", "/=", "//="} {
				for _, bs := range []string{"=", "/=", "//="} {
					kd = append(kd, "-"+supp+"nm "+as+" "+v+"\nnm "+bs+" "+w+"\nu1 = nm\n:tree nm u1\nnm = int\nnm = "+v+"\n:tree nm\nnm = int nm = tstr\nu2 = [ nm, nn ]\nnn "+bs+" "+v+"\nu3 = nn\nnn = int\n:tree nn nm u1 u2 u3\n")
				}
			}
			kd = append(kd, "-nm = "+v+"\n"+supp+"nm = "+v+"\nu = nm\n:tree nm u\n", "-:pv\n"+supp+"nm = "+v+" nn = "+w+" nm = "+w+"\n:tree nm nn\n")
		}
		c.List("every kind of value defined, extended and defined again", n29, kd)
		var nb []string
		en := editNames(false)
		for i := 0; i < len(en); i += 15 {
			x := "-"
			for j, p := range en[i:min(i+15, len(en))] {
				k := (i + j) % 2
				x += p[k] + " = int\n" + fmt.Sprintf("zz%d", j) + " = " + p[1-k] + "\n:tree " + p[1-k] + " " + p[k] + "\n" + p[1-k] + " = tstr\n"
			}
			nb = append(nb, x)
		}
		c.List("names and neighbours of their spelling", n29, nb)
		var ex []string
		for _, p := range []string{"", "a = int\n", "a = (\n", ":pv\n", "\"\n"} {
			for _, e := range []string{":exit", " :exit", ":exit now", ":exit\n", "\t:exit \n", ":exit\nb = a\n", "", ":quit\n", "exit\n", ": exit\n"} {
				ex = append(ex, "-"+p+e)
			}
		}
		c.List("ends of sessions", n29, ex)
		// command words at every place of a line
		var cw []string
		for _, w := range []string{":exit", ":pv", ":tree", ":tree q", ":help", ":", ":lex", "exit", "quit", "q", "--lex", "\x04", "\x1a", ":e", ":exi", ":exitt", ":EXIT", ": exit", "::exit", ":pv :exit", ":tree :exit", ":tree q :exit", "\\", "\\n", "\x03", "\x1b"} {
			for _, f := range []string{"%", "a = int ; %", "; %", ";%", "a = \"%\"", "a = int %", "a = %", "a%", "a %", "% a", "%a", "a = [ % ]", "(%)", "a = int;%", "a = b ; %", "\"%", "a = ( ; %", "a /= %", "% ; c", "%% %", "a = ~ %", "a = \"x\" ; \"%\""} {
				x := strings.ReplaceAll(f, "%", w)
				for _, e := range []string{"", " ", "\r"} {
					cw = append(cw, "-q = int\n"+x+e+"\nr = q\nq = tstr\n:tree q r a\n")
				}
				cw = append(cw, "L"+x+"\nr = zzz\n", "-"+x)
			}
		}
		c.List("command words at every place of a line", n29, cw)
	})

	n30l := reg("C30.lex", opC30lex)
	n30p := reg("C30.parse", opC30parse)
	n30a := reg("C30.args", opC30args)
	addCheck("C30", "exploration", "files holding every byte, every lexeme pair and sequence of the stated bounds, every schema of the lists and their one-edit neighbours, through the real lex and parse commands; output and exit status compared with the library and the reference scanner; non-trivial: the command ran", func(c *Ctx) {
		var files []string
		files = append(files, "", "\n", " ", "a", "a = int", "a = int\n", "\r\n\r\n")
		for b := 0; b < 256; b++ {
			files = append(files, string([]byte{byte(b)}), "a = int\n"+string([]byte{byte(b)})+" b = tstr\n")
		}
		lex := append(append([]string{}, synLex...), `"u`, "é", ".foo", "!", "\xff", "0x", "1.", "$$x", "; c\n", "///", "....", "=>", "\n", "世")
		for _, a := range lex {
			for _, b := range lex {
				files = append(files, a+b)
			}
		}
		for k := 0; k < 40; k++ { // big files: all pairs with separators
			var b strings.Builder
			for i, x := range lex {
				b.WriteString(x + []string{" ", "\n", "\t", "  \n"}[(i+k)%4] + lex[(i+k)%len(lex)] + " ")
			}
			files = append(files, b.String(), strings.Repeat(b.String(), 20))
		}
		var sch []string
		sch = append(sch, goodSchemas()...)
		sch = append(sch, rejSchemas...)
		sch = append(sch, hardSchema...)
		sch = append(sch, okSchemas...)
		for i, p := range rich() {
			lay := layoutSep(i % 3)
			s, _ := p.lay(lay)
			sch = append(sch, s)
			ed := edits(p.toks[:min(len(p.toks), c.tier(6, 30))], synMini)
			for j, e := range ed {
				if c.Thorough || j%5 == 0 {
					sch = append(sch, e)
				}
			}
		}
		sch = append(sch, "a = "+strings.Repeat("9", 400)+".5", "a = 1"+strings.Repeat("0", 30), "a = \"\xff\"", "\xff\xfe", "a = \"<>&\u2028\"", "a = int ; <>&\n", strings.Repeat("a = (", 200), "a = "+strings.Repeat("(", 200)+"int"+strings.Repeat(")", 200), strings.Repeat("a = int\n", 100), strings.Repeat("\n", 1000)+"a = zzz")
		// n illegal characters
		ns := []int{}
		for n := 1; n <= c.tier(270, 1100); n++ {
			ns = append(ns, n)
		}
		var big []string // lex only: the diagnostics of parse show the whole line each
		ns = append(ns, 300, 511, 512, 513, 768, 1000, 1024, 1280, 4096, 32768, 65535, 65536, 65537, 131072)
		for _, n := range ns {
			if n > 600 {
				big = append(big, strings.Repeat("! ", n), "a = int\n"+strings.Repeat("\xff", n)+"\n", strings.Repeat("b = % \n", n))
				continue
			}
			files = append(files, strings.Repeat("! ", n))
			if n%64 == 0 || n < 20 || n%100 == 0 {
				files = append(files, "a = int\n"+strings.Repeat("\xff", n)+"\n", strings.Repeat("b = % \n", n))
			}
		}
		// what files begin and end with
		for _, p := range []string{"\ufeff", "\xff\xfe", "\xfe\xff", "#!/usr/bin/cddl\n", "#! x", "\x00", "\x1b[0m", "\xef\xbb", "\u200b", "\u2028", "\u00a0", "\u0085", "\r", "\f", "\v", "\x1a", "---\n", "%", "\\", "'", "`"} {
			for _, b := range []string{"", "a = int", "a = int\nb = a\n", "; c\n", "a = zzz", "a = \"x"} {
				files = append(files, p+b, b+p, p+p+b, b+"\n"+p, p+"\n"+b, " "+p+b, b+p+b)
			}
		}
		var toks []string
		for k := 1; k <= c.tier(2, 3); k++ {
			tot := 1
			for i := 0; i < k; i++ {
				tot *= len(synMini)
			}
			for i := 0; i < tot; i++ {
				s, x := "a =", i
				for j := 0; j < k; j++ {
					s += " " + synMini[x%len(synMini)]
					x /= len(synMini)
				}
				toks = append(toks, s)
			}
		}
		c.List("lex: bytes, lexeme pairs, big files", n30l, append(big, files...))
		c.List("lex: sources around size thresholds", n30l, append(thresholds(c), longTokens(70000)...))
		var long []string
		for _, n := range []int{40, 63, 64, 65, 79, 80, 81, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 16384, 65535, 65536, 65537} {
			x := strings.Repeat("x", n)
			long = append(long, x+" = int", "a = \""+x+"\"", "a = int ;"+x, ";"+x+"\nb = int ; "+x, "a = int"+strings.Repeat("\n", n)+"b = a", "a = int"+strings.Repeat(" ", n)+"b = a", "a = ["+x+": int, "+x+": \""+x+"\"]", "a = "+strings.Repeat("int / ", min(n/6, 4000))+"tstr", "a = ["+strings.Repeat("k: int, ", n/8)+"]", strings.Repeat("a //= int\n", n/8), strings.Repeat(";c\n", n/3)+"a = 1")
			if n < 5000 {
				long = append(long, x+" = zzz", "a = [ "+x+" ]", strings.Repeat("\n", n)+"a = (", strings.Repeat(" ", n)+"a = zz ;"+x, "a = \""+x)
			}
		}
		c.List("parse: sources around size thresholds", n30p, long)
		// whole files around 1 MiB and beyond: content at the end counts
		var mega []string
		for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 2<<20 + 5, 5 << 20}[:c.tier(4, 5)] {
			for _, tail := range []string{"\nz = int\n", "\nz = 5 ; c", "\nz = ( int", "\n!"} {
				mega = append(mega, "a = int ;"+strings.Repeat("c", n-9-len(tail))+tail)
			}
			mega = append(mega, "a = \""+strings.Repeat("t", n-6)+"\"\n", "a = int"+strings.Repeat("\n", n-7)+"b = a", "a = int"+strings.Repeat(" ", n-7)+"b = a")
		}
		c.List("lex: files of a MiB and more", n30l, mega)
		c.List("parse: files of a MiB and more", n30p, mega)
		c.List("lex: schemas and one-edit neighbours", n30l, sch)
		c.List("parse: schemas and one-edit neighbours", n30p, sch)
		c.List("parse: short lexeme sequences", n30p, toks)
		c.List("parse: bytes and lexeme pairs", n30p, files)
		var args []string
		for _, cmd := range []string{"lex", "parse"} {
			for _, a := range []string{"", "x.cddl", "x.cddl\x00x.cddl", "missing", "dir", ".", "x.cddl\x00missing", "y", "y.CDDL", " y", "y ", "é.cddl", "a b.cddl", ".cddl", "%s", "d/e/z.cddl", "d/../x.cddl", "d/../missing", "./x.cddl", ".//x.cddl", "a.json", "lex", "parse", "x.cddl.cddl", "x.cddl.cddl.cddl", "$x", "*", "~", "x", "X.cddl", "x.cddl/", "d", "y\x00y.CDDL", "missing\x00x.cddl", "dir\x00x.cddl"} {
				if a == "" {
					args = append(args, cmd)
				} else {
					args = append(args, cmd+"\x00"+a)
				}
			}
		}
		for _, cmd := range []string{"lex", "parse"} {
			for n := 2; n <= 40; n++ {
				args = append(args, cmd+strings.Repeat("\x00x.cddl", n), cmd+"\x00x.cddl"+strings.Repeat("\x00missing", n-1), cmd+strings.Repeat("\x00missing", n-1)+"\x00x.cddl", cmd+"\x00x.cddl"+strings.Repeat("\x00", n-1))
			}
		}
		c.List("arguments", n30a, args)
	})
}
