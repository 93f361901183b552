package main

// C34: the argument vectors of the command line. C35: configuration values.

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/config"
)

const argsConfig = `{"version":"1","plugins":[],"builds":[{"package":"pk","src":"in","output":"res"}],"options":{}}`

var helpFlag = map[string]bool{"-h": true, "--h": true, "-help": true, "--help": true}

// opC34: the first byte selects the directory (a: empty but for a schema, b: with a configuration, c: with a
// broken schema as well); then the arguments, separated by NUL.
func opC34(in []byte) (bool, *Fail) {
	if len(in) == 0 {
		return false, nil
	}
	w := newWorld()
	defer w.close()
	w.put("x.cddl", "a = int\n")
	switch in[0] {
	case 'b':
		w.put("cddlc.json", argsConfig)
		w.put("in/y.cddl", "a = int\n")
	case 'c':
		w.put("bad.cddl", "a = (\n")
	}
	args := []string{}
	if len(in) > 1 {
		args = strings.Split(string(in[1:]), "\x00")
	}
	before := w.snap()
	r := w.run("", "", args...)
	diff := snapDiff(before, w.snap())
	bad := func(f string, a ...any) (bool, *Fail) {
		return true, failf("cddlc %q in directory %c: %s; %s; changes %v", args, in[0], fmt.Sprintf(f, a...), r, diff)
	}
	if r.crashed() {
		return bad("crashed")
	}
	if r.code != 0 && strings.TrimSpace(r.out+r.err) == "" {
		return bad("failed without a message")
	}
	rest := args
	if len(rest) > 0 && rest[0] == "--" {
		rest = rest[1:]
	}
	isFlag := func(s string) bool { return len(s) > 1 && s[0] == '-' }
	quiet := func(ok, fail bool) (bool, *Fail) { // nothing is run
		if len(diff) > 0 {
			return bad("no command is named, but files changed")
		}
		if ok && r.code != 0 || fail && r.code == 0 {
			return bad("wrong exit status")
		}
		if strings.Contains(r.out, "Build Date") {
			return bad("no command is named, but one is run")
		}
		return true, nil
	}
	if len(rest) == 0 {
		return quiet(true, false)
	}
	cmd := rest[0]
	rest = rest[1:]
	if args[0] == "--" && isFlag(cmd) {
		return quiet(false, false)
	}
	switch {
	case strings.Contains(cmd, "=") && helpFlag[cmd[:strings.Index(cmd, "=")]]: // a value of the help option
		return quiet(false, false)
	case helpFlag[cmd]:
		return quiet(len(rest) == 0, false)
	case isFlag(cmd):
		return quiet(false, true)
	case cmd == "help" || cmd == "h":
		return quiet(len(rest) == 0, false)
	}
	known := map[string]bool{"init": true, "generate": true, "gen": true, "lex": true, "parse": true, "qrepl": true, "doctor": true}
	if !known[cmd] {
		if cmd == "" {
			return quiet(false, false)
		}
		return quiet(false, true)
	}
	if len(rest) > 0 && strings.Contains(rest[0], "=") && helpFlag[rest[0][:strings.Index(rest[0], "=")]] {
		return false, nil
	}
	if len(rest) > 0 && helpFlag[rest[0]] {
		return quiet(len(rest) == 1, false)
	}
	if len(rest) > 0 && isFlag(rest[0]) && rest[0] != "--" && !(cmd == "qrepl" && strings.HasPrefix(rest[0], "--lex")) {
		return quiet(false, true)
	}
	if len(rest) > 0 && (rest[0] == "help" || rest[0] == "h") {
		return false, nil // help of the command or an argument of it
	}
	for _, a := range rest {
		if isFlag(a) {
			return false, nil // behind the arguments: a flag or an argument
		}
	}
	switch cmd {
	case "lex", "parse", "doctor", "qrepl":
		if len(diff) > 0 {
			return bad("files changed")
		}
		if cmd == "doctor" && (r.code != 0 || !strings.Contains(r.out, runtime.GOOS) || !strings.Contains(r.out, runtime.GOARCH)) {
			return bad("does not show the platform")
		}
		if (cmd == "lex" || cmd == "parse") && len(rest) != 1 && r.code == 0 {
			return bad("wrong number of arguments accepted")
		}
	case "init":
		if in[0] == 'b' {
			if len(diff) > 0 || r.code == 0 {
				return bad("there is a configuration already")
			}
		} else if r.code != 0 || fmt.Sprint(diff) != "[added cddlc.json]" {
			return bad("no configuration was made")
		}
	case "generate", "gen":
		want := "[added dist added dist/x.go]"
		switch in[0] {
		case 'b':
			want = "[added res added res/y.go]"
		case 'c':
			if r.code == 0 {
				return bad("a schema is broken")
			}
			return true, nil
		}
		if r.code != 0 || fmt.Sprint(diff) != want {
			return bad("not everything was generated")
		}
		pkg := map[byte]string{'a': "dist", 'b': "pk"}[in[0]]
		f := map[byte]string{'a': "dist/x.go", 'b': "res/y.go"}[in[0]]
		if s, _ := w.read(f); !strings.Contains(s, "package "+pkg) || !strings.Contains(s, "type A ") {
			return bad("the generated file is %q", s)
		}
	}
	return true, nil
}

// plugin paths: what stands there
var plugPaths = []struct {
	name string
	ok   bool
}{
	{"dir", true}, {"file", false}, {"missing", false}, {"", false}, {"todir", true}, {"tofile", false}, {"nowhere", false},
	{"dir/", true}, {"dir/sub", true}, {"dir/none", false}, {"file/", false}, {"file/x", false}, {".", true}, {"dir/..", true}, {"missing/..", false}, {"fifo", false}, {"é dir", true}, {"di", false}, {"dirx", false},
	{"closed", true}, {longDir, true}, {longDir + "x", false}, {"exec", false}, {"dir/sub/../../todir/sub/.", true}, {"dir//sub", true}, {"missing/../dir", false}, {"dir.json", true}, {".hid", true}, {" ", true}, {"loop", false}, {"far", true}, {"socket.go", false},
}

// longDir is a directory whose path has more than 255 bytes.
var longDir = strings.Repeat(strings.Repeat("n", 100)+"/", 5) + "n"

// opC35: one letter per plugin, an index into plugPaths.
func opC35(in []byte) (bool, *Fail) {
	dir := c35dir()
	c := config.NewDefaultConfig()
	want := true
	first := -1
	mode := 0 // what else the configuration holds; a leading digit
	if len(in) > 0 && in[0] >= '0' && in[0] <= '7' {
		mode = int(in[0] - '0')
		in = in[1:]
	}
	if mode&4 != 0 {
		c.Version, c.Builds, c.Options = "", nil, map[string]interface{}{"name": "p0"}
	}
	for i, b := range in {
		if b == '-' { // no plugin at all, as an empty entry of the file leaves it
			c.Plugins = append(c.Plugins, nil)
			if first < 0 {
				first = i
			}
			want = false
			continue
		}
		k := int(b - 'a')
		if k < 0 || k >= len(plugPaths) {
			return false, nil
		}
		p := plugPaths[k]
		path := p.name
		if path != "" {
			path = dir + "/" + path
		}
		pl := &config.Plugin{Name: "p" + strconv.Itoa(i), Local: config.PluginLocal{Path: path}, Remote: config.PluginRemote{URL: "http://x/"}}
		if mode&1 != 0 {
			pl.Name = []string{"", "same"}[mode>>1&1]
		}
		if mode&2 != 0 {
			pl.Remote.URL = ""
		}
		c.Plugins = append(c.Plugins, pl)
		if e := pl.Valid(); (e == nil) != p.ok {
			return true, failf("a plugin at %q is valid: %v", p.name, e)
		}
		if e := pl.Local.Valid(); (e == nil) != p.ok {
			return true, failf("the path %q of a plugin is valid: %v", p.name, e)
		} else if e != nil && strings.TrimSpace(e.Error()) == "" {
			return true, failf("the path %q is refused without a message", p.name)
		}
		if !p.ok && first < 0 {
			first = i
		}
		want = want && p.ok
	}
	e := c.Valid()
	if (e == nil) != want {
		return true, failf("a configuration with plugins %q is valid: %v", in, e)
	}
	if e != nil && strings.TrimSpace(e.Error()) == "" {
		return true, failf("plugins %q are refused without a message", in)
	}
	if e != nil && c.Plugins[first] != nil {
		if w := c.Plugins[first].Valid(); w == nil || w.Error() != e.Error() {
			return true, failf("a configuration with plugins %q fails with %v, its first invalid plugin with %v", in, e, w)
		}
	}
	// the default is made afresh every time
	d := config.NewDefaultConfig()
	if len(d.Plugins) != 0 || len(d.Builds) != 1 || d.Version != "1" || !reflect.DeepEqual(*d.Builds[0], config.BuildConfig{Package: "dist", SourceDir: ".", OutDir: "dist/"}) || d.Valid() != nil {
		return true, failf("after using one default configuration the next is %+v", d)
	}
	d.Builds[0].Package = "changed"
	d.Builds[0].OutDir = "changed"
	d.Version = "changed"
	if x := config.NewDefaultConfig(); x.Builds[0].Package != "dist" || x.Builds[0].OutDir != "dist/" || x.Version != "1" {
		return true, failf("changing one default configuration changes the next")
	}
	x, y := config.NewDefaultConfig(), config.NewDefaultConfig()
	x.Plugins = append(x.Plugins, &config.Plugin{Name: "x"})
	x.Builds = append(x.Builds, &config.BuildConfig{Package: "x"})
	y.Plugins = append(y.Plugins, &config.Plugin{Name: "y"})
	y.Builds = append(y.Builds, &config.BuildConfig{Package: "y"})
	if x.Plugins[0].Name != "x" || y.Plugins[0].Name != "y" || x.Builds[1].Package != "x" || y.Builds[1].Package != "y" {
		return true, failf("two default configurations share what is added to them")
	}
	return len(in) > 0, nil
}

// opC35hist: a history of the place a plugin names: d directory, f file, l link to a directory, t link to a
// file, n link to nothing, r nothing; after each step the plugin is asked.
func opC35hist(in []byte) (bool, *Fail) {
	w := newWorld()
	defer w.close()
	w.put("x/", "")
	w.put("y", "")
	p := w.path("p")
	c := config.NewDefaultConfig()
	c.Plugins = append(c.Plugins, &config.Plugin{Name: "p", Local: config.PluginLocal{Path: p}})
	for i, b := range in {
		os.Remove(p)
		switch b {
		case 'd':
			os.Mkdir(p, 0755)
		case 'f':
			os.WriteFile(p, []byte("x"), 0644)
		case 'l':
			os.Symlink("x", p)
		case 't':
			os.Symlink("y", p)
		case 'n':
			os.Symlink("gone", p)
		}
		want := b == 'd' || b == 'l'
		fresh := config.PluginLocal{Path: p}
		if a, b, e := c.Valid(), c.Plugins[0].Valid(), fresh.Valid(); (a == nil) != want || (b == nil) != want || (e == nil) != want {
			return true, failf("after the changes %q of the place of a plugin, at step %d: configuration %v, plugin %v, path %v", in, i+1, a, b, e)
		}
	}
	return len(in) > 0, nil
}

var c35root string

func c35dir() string { return c35once() }

var c35once = func() func() string {
	return onceString(func() string {
		w := newWorld()
		c35root = w.root
		w.put("dir/sub/", "")
		w.put("é dir/", "")
		w.put("closed/", "")
		os.Chmod(w.path("closed"), 0)
		w.put(longDir+"/", "")
		w.put("exec", "x")
		os.Chmod(w.path("exec"), 0755)
		w.put("dir.json/", "")
		w.put(".hid/", "")
		w.put(" /", "")
		w.put("socket.go", "package x")
		os.Symlink("loop", w.path("loop"))
		os.Symlink("todir/sub", w.path("far"))
		w.put("file", "x")
		os.Symlink("dir", w.path("todir"))
		os.Symlink("file", w.path("tofile"))
		os.Symlink("gone", w.path("nowhere"))
		mkfifo(w.path("fifo"))
		return w.root
	})
}()

func init() {
	n34 := reg("C34.args", opC34)
	addCheck("C34", "exploration", "every vector of up to three arguments (thorough: four) over the commands, their alias, help words, flags, file names and odd words, in three directories; non-trivial: the outcome is specified", func(c *Ctx) {
		ws := []string{"init", "generate", "gen", "lex", "parse", "qrepl", "doctor", "help", "h", "bogus", "-h", "--help", "--bogus", "x.cddl", "", "--", "-"}
		for k := 0; k <= c.tier(3, 4); k++ {
			for _, d := range []string{"a", "b", "c"} {
				l := ws
				if d != "a" && k == 3 && !c.Thorough {
					l = []string{"init", "gen", "generate", "parse", "help", "--help", "--", "x"}
				}
				if k == 4 {
					l = []string{"init", "gen", "generate", "lex", "doctor", "help", "-h", "--bogus", "--", "x.cddl"}
				}
				c.Words(fmt.Sprintf("vectors of %d arguments of %d, directory %s", k, len(l), d), n34, l, k, d, "\x00", "")
			}
		}
		var l []string
		for _, x := range []string{"init", "generate", "gen", "lex", "parse", "qrepl", "doctor", "help"} {
			for i := 0; i <= len(x); i++ { // neighbours of the command words
				for _, b := range []string{"", "x", "e", "-", " ", "I"} {
					l = append(l, "a"+x[:i]+b+x[i:])
					if i < len(x) {
						l = append(l, "a"+x[:i]+b+x[i+1:])
					}
				}
			}
			l = append(l, "a"+strings.ToUpper(x), "a"+strings.Title(x), "a"+x+x, "a"+x+"\x00"+strings.Repeat("y\x00", 40)+"y")
		}
		c.List("neighbours of the command words, many arguments", n34, l)
		l = nil
		abc := strings.Split("abcdefghijklmnopqrstuvwxyz", "")
		for _, a := range abc {
			l = append(l, "a"+a, "a-"+a, "a--"+a, "b"+a, "b-"+a)
			for _, b := range abc {
				l = append(l, "a"+a+b, "a-"+a+b, "b"+a+b)
			}
		}
		for _, x := range []string{"build", "new", "create", "start", "setup", "run", "make", "go", "version", "info", "check", "validate", "verify", "repl", "shell", "fmt", "format", "lexer", "parser", "tokens", "tokenize", "ast", "tree", "codegen", "compile", "test", "install", "update", "clean", "list", "config", "doc", "docs", "diagnose", "completion", "env", "watch", "lint", "all", "default", "dist", "main", "exit", "quit", "q", ".", "..", "/", "x.cddl", "bad.cddl", "cddlc", "cddl", "cddlc.json", "in", "res"} {
			for _, d := range []string{"a", "b"} {
				for _, y := range []string{"", "-", "--"} {
					l = append(l, d+y+x, d+y+x+"=1", d+y+x+"\x00x.cddl", d+y+x+"\x00init", d+y+x+"\x00generate")
				}
				l = append(l, d+x+"\x00--help", d+x+"\x00-h")
			}
		}
		for _, x := range []string{"--generate-bash-completion", "--init-completion", "--init-completion=bash", "--version", "-V", "--verbose", "--config", "--config=x", "--debug", "--quiet", "-hh", "-hv", "-hx", "---help", "--h", "-help", "--helpx", "--help=1", "--help=x", "-h=1", "--lex", "-lex", "--output", "--force", "-f", "--dry-run", "--package=x", "--src=.", "--color", "--no-color"} {
			for _, y := range []string{"", "\x00init", "\x00generate", "\x00x.cddl", "\x00doctor", "\x00lex\x00x.cddl"} {
				l = append(l, "a"+x+y, "b"+x+y)
			}
			for _, y := range []string{"init", "generate", "gen", "lex", "parse", "doctor", "qrepl"} {
				l = append(l, "a"+y+"\x00"+x, "b"+y+"\x00"+x, "a"+y+"\x00"+x+"\x00x.cddl")
			}
		}
		c.List("short words, other words, options", n34, l)
	})
	n35 := reg("C35.plugins", opC35)
	reg35hist := reg("C35.history", opC35hist)
	addCheck("C35", "exploration", "every list of up to three plugins (thorough: four) over the stated paths: directories, files, links, pipes, missing paths and parts of paths; long lists with one invalid plugin at every place; non-trivial: at least one plugin", func(c *Ctx) {
		defer func() {
			if c35root != "" {
				(&world{c35root}).close()
			}
		}()
		var sy []string
		for i := range plugPaths {
			sy = append(sy, string(rune('a'+i)))
		}
		sy = append(sy, "-")
		n35h := reg35hist
		for k := 1; k <= c.tier(4, 5); k++ {
			c.Words(fmt.Sprintf("histories of %d steps of the place of one plugin", k), n35h, strings.Split("dfltnr", ""), k, "", "", "")
		}
		for k := 0; k <= c.tier(3, 4); k++ {
			c.Words(fmt.Sprintf("lists of %d plugins", k), n35, sy, k, "", "", "")
		}
		for m := 1; m < 8; m++ {
			for k := 1; k <= c.tier(2, 3); k++ {
				c.Words(fmt.Sprintf("lists of %d plugins, without names, with the same name, without a remote, in a configuration without anything else (%d)", k, m), n35, sy, k, fmt.Sprint(m), "", "")
			}
		}
		var l []string
		for n := 4; n <= c.tier(40, 130); n++ {
			l = append(l, strings.Repeat("a", n), strings.Repeat("i", n))
			for i := 0; i < n; i++ {
				l = append(l, strings.Repeat("a", i)+"b"+strings.Repeat("e", n-i-1), strings.Repeat("h", i)+"c"+strings.Repeat("b", n-i-1))
			}
		}
		c.List("long lists with invalid plugins at every place", n35, l)
	})
}
