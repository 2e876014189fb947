// Command check runs one property's workload against the library while its
// monitors observe every execution.
package main

import (
	"fmt"
	"os"
	"sync"
	"time"

	"verif/core"
	"verif/gen"
	"verif/model"
)

// env is what every check works with.
type env struct {
	*core.Ctx
	m *model.M
	g *gen.G
	t *model.Tables

	slowMu sync.Mutex
	slow   map[string]time.Duration

	prefix string
	scale  float64
}

var checks = map[string]func(*env){}

func main() {
	args := os.Args[1:]
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: check ID [replay.json]")
		os.Exit(2)
	}
	f := checks[args[0]]
	if args[0] == "-child" {
		g, rest := children[args[1]], args[2:]
		f = func(e *env) {
			g(e, rest)
			os.Exit(0)
		}
		args = args[:1]
	}
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args[0])
		os.Exit(2)
	}
	x := core.NewCtx(args[0])
	if len(args) > 1 {
		if err := x.Replay(args[1]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	m, err := model.LoadRepo(x.Repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "model:", err)
		os.Exit(3)
	}
	t, err := model.LoadTables(x.Repo, m)
	if err != nil {
		fmt.Fprintln(os.Stderr, "tables:", err)
		os.Exit(3)
	}
	e := &env{Ctx: x, m: m, g: gen.NewG(m), t: t}
	f(e)
	x.Finish()
}
