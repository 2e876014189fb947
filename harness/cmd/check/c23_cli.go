package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() { checks["C23"] = checkCLI }

// runCLI runs the command and returns what it printed and its exit code.
func runCLI(args ...string) (string, string, int) {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_TMP"), "phoneparser"), args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = []string{"PATH=" + os.Getenv("PATH")}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic("harness: " + err.Error())
	}
	return out.String(), errb.String(), cmd.ProcessState.ExitCode()
}

// fields reads the "name: value" lines of a report.
func cliFields(out string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		if k, v, ok := strings.Cut(l, ": "); ok {
			m[strings.TrimSpace(k)] = v
		}
	}
	return m
}

func checkCLI(e *env) {
	e.Rule = "distinct argument lists the command was run with; non-trivial when a number and a region were given"
	e.Run("numbers", e.N(4000), func(c *core.Case) {
		in, region := e.g.Entry(c.R)
		if c.P(6) {
			in = c.Hostile()
		}
		if c.P(12) {
			md := e.g.Meta(c.R)
			in, region = e.g.NSN(c.R, md), md.ID
		}
		if strings.ContainsRune(in, 0) || strings.ContainsRune(region, 0) || len(in) > 100000 {
			return
		}
		c.Note("phoneparser %q %q", in, region)
		out, errOut, rc := runCLI(in, region)
		c.Eval()
		n, pe := e.m.Parse(in, region, false)
		what := fmt.Sprintf("phoneparser %q %q (exit %d) printed %q %q", in, region, rc, tail(out, 400), tail(errOut, 300))
		if pe != model.OK {
			c.Tag("refused")
			if rc == 0 {
				c.Fail("cli-accepts", "%s; the text is no number (%s)", what, pe)
			} else if rc != 1 || strings.Contains(errOut, "goroutine ") {
				c.Fail("cli-crash", "%s; expected exit 1 and the reason", what)
			} else if !strings.Contains(out+errOut, "Error parsing number: ") {
				c.Fail("cli-error", "%s; no error message", what)
			} else if len(cliFields(out)) != 1 {
				c.Fail("cli-error", "%s; a report on a text that is no number", what)
			}
			c.Seen(in, region)
			return
		}
		want := map[string]string{"E164": e.m.Format(n, model.E164), "National Dialing": e.m.Format(n, model.NATIONAL),
			"National": fmt.Sprint(n.NN), "IsValid": fmt.Sprint(e.m.Valid(n))}
		got := cliFields(out)
		if rc != 0 {
			c.Fail("cli-refuses", "%s; the text is a number (%s)", what, show(n))
			return
		}
		for k, v := range want {
			if got[k] != v {
				c.Fail("cli-"+k, "%s; %s should be %q", what, k, v)
				return
			}
		}
		c.Tag("reported")
		c.Tag("valid:" + want["IsValid"])
		c.Seen(in, region)
		c.Sample("report", map[string]any{"args": []string{in, region}, "out": out})
	})
	e.Run("usage", e.N(60), func(c *core.Case) {
		var args []string
		for k := gen.Pick(c.R, []int{0, 1, 3, 4, 7}); k > 0; k-- {
			args = append(args, gen.Pick(c.R, []string{"+16502530000", "US", "-h", "GB", "", "--help", "x"}))
		}
		out, errOut, rc := runCLI(args...)
		c.Eval()
		if rc == 0 || strings.Contains(errOut, "goroutine ") || !strings.Contains(strings.ToLower(out+errOut), "usage") || strings.Contains(out, "E164") {
			c.Fail("cli-usage", "phoneparser %q (exit %d) printed %q %q; expected the usage and a failure", args, rc, out, errOut)
		}
		c.Tag("usage")
		c.Seen(fmt.Sprint("usage", args))
	})
	if (e.TagCount("reported") == 0 || e.TagCount("refused") == 0) && e.Open() {
		fmt.Println("inconclusive: nothing reported or nothing refused")
		os.Exit(3)
	}
}
