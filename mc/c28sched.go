//go:build sched

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"

	"github.com/HannesKimara/cddlc/cmd/cddlc/commands"
	"github.com/HannesKimara/cddlc/verifsched"
	"github.com/urfave/cli/v2"
)

func init() {
	// c28race DIR N: N init commands at once in the empty directory DIR under every pair of preemptions;
	// every run must leave exactly one success and the file that one init alone writes.
	subs["c28race"] = func(a []string) {
		if os.Chdir(a[0]) != nil {
			os.Exit(3)
		}
		k, _ := strconv.Atoi(a[1])
		var ans c20answer
		run := func(n int, segs []int) ([]int, []error, string) {
			os.Remove("cddlc.json")
			errs := make([]error, n)
			fns := make([]func(), n)
			for t := range fns {
				t := t
				fns[t] = func() {
					errs[t] = commands.InitCmd(cli.NewContext(cli.NewApp(), flag.NewFlagSet("", flag.ContinueOnError), nil))
				}
			}
			steps, _ := verifsched.Run(fns, segs)
			b, _ := os.ReadFile("cddlc.json")
			ans.N++
			return steps, errs, string(b)
		}
		st, errs, want := run(1, nil)
		if errs[0] != nil {
			ans.Fail = fmt.Sprint("init alone fails: ", errs[0])
		}
		n := st[0]
		try := func(segs []int) {
			_, errs, got := run(k, append([]int{}, segs...))
			good := 0
			for _, e := range errs {
				if e == nil {
					good++
				}
			}
			if (good != 1 || got != want) && ans.Fail == "" {
				ans.Fail = fmt.Sprintf("%d init commands at once, preempted after %v scheduling points in turn: %d of them succeed, errors %v, cddlc.json is %q", k, segs, good, errs, got)
			}
		}
		for i := 1; i <= n; i++ {
			for j := 1; j <= n; j++ {
				try([]int{i, j})
				if k > 2 {
					for l := 1; l <= n; l++ {
						try([]int{i, j, l})
					}
				}
			}
			try([]int{i})
		}
		os.Remove("cddlc.json")
		json.NewEncoder(os.Stdout).Encode(ans)
		os.Exit(0)
	}
}
