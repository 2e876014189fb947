package main

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/nyaruka/phonenumbers/v2"
	"google.golang.org/protobuf/proto"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() { checks["C01"] = checkTotal }

var docErrs = map[model.Err]bool{model.InvalidCountryCode: true, model.NotANumber: true, model.TooShortNSN: true, model.TooShortAfterIDD: true, model.TooLong: true}

// guarded runs one operation and reports a panic or an overlong call.
func (e *env) guarded(c *core.Case, o op, a *args) (res string, ok bool) {
	c.Note("%s(%s)", o.name, a)
	t := time.Now()
	func() {
		defer func() {
			if p := recover(); p != nil {
				c.Fail("panic|"+o.name+"|"+a.String(), "%s panicked: %v\n  arguments: %s\n%s", o.name, p, a, debug.Stack())
			}
		}()
		res = o.run(a)
		ok = true
	}()
	d := time.Since(t)
	if d > 60*time.Second {
		c.Fail("slow|"+o.name+"|"+a.String(), "%s took %v\n  arguments: %s", o.name, d, a)
	}
	e.slowest(o.name, d)
	return
}

func (e *env) slowest(name string, d time.Duration) {
	e.slowMu.Lock()
	if e.slow == nil {
		e.slow = map[string]time.Duration{}
	}
	if d > e.slow[name] {
		e.slow[name] = d
	}
	e.slowMu.Unlock()
}

// C01: every operation answers.
func checkTotal(e *env) {
	e.Rule = "distinct (operation, arguments) calls that were watched for panics, stalls and undocumented errors"
	e.Run("wild", e.N(60000), func(c *core.Case) {
		a := e.args(c, !c.P(4))
		for k := 0; k < 14; k++ {
			o := ops[(c.Index*14+k)%len(ops)]
			res, ok := e.guarded(c, o, a)
			c.Eval()
			c.Seen(o.name, a.String())
			c.Tag("op:" + o.name)
			if ok && strings.HasPrefix(o.name, "Parse") && strings.Contains(res, "!"+errName(-1)) {
				c.Fail("error|"+o.name+"|"+a.String(), "%s gave an undocumented error: %s\n  arguments: %s", o.name, res, a)
			}
		}
	})
	e.Run("parse", e.N(120000), func(c *core.Case) {
		s, reg := e.g.Entry(c.R)
		switch c.Intn(8) {
		case 0:
			s = c.Hostile()
		case 1:
			s = c.Mutate(s)
		case 2:
			s = e.context(c, s)
		}
		if c.P(3) {
			reg = e.g.AnyRegion(c.R)
		}
		c.Note("Parse(%q, %q)", s, reg)
		var n pb
		var outs [4]string
		p1, e1 := phonenumbers.Parse(s, reg)
		outs[0] = parsed(p1, e1)
		p2, e2 := phonenumbers.ParseAndKeepRawInput(s, reg)
		outs[1] = showErr(e2)
		outs[2] = parsed(&n, phonenumbers.ParseToNumber(s, reg, &n))
		outs[3] = showErr(phonenumbers.ParseAndKeepRawInputToNumber(s, reg, &n))
		c.Eval()
		c.Seen(s, reg)
		if (e1 == nil) != (p1 != nil && outs[2] == outs[0]) && e1 == nil || (e1 == nil && p1 == nil) || (e2 == nil && p2 == nil) {
			c.Fail("parse|"+s+"|"+reg, "Parse(%q, %q) gave no number and no error, or differs from ParseToNumber: %s / %s", s, reg, outs[0], outs[2])
		}
		if showErr(e1) != outs[1] || outs[1] != outs[3] || (e1 != nil && outs[2] != outs[0]) {
			c.Fail("parse|"+s+"|"+reg, "the four parse calls disagree on (%q, %q): %q", s, reg, outs)
		}
		if e1 != nil {
			c.Tag("error:" + errName(errClass(e1)))
			if !docErrs[errClass(e1)] {
				c.Fail("error|"+s+"|"+reg, "Parse(%q, %q) gave an undocumented error: %v", s, reg, e1)
			}
		} else {
			c.Tag("parsed")
		}
	})
	e.Run("long", e.N(60), func(c *core.Case) {
		// long inputs: cost must stay far from exponential or quadratic blow-up
		size := 20000 + c.Intn(60000)
		unit := gen.Pick(c.R, []string{"1", "12 ", "+1", "(", "((1)", "1/", "x1", "650 253 0000 ", "+16502530000,", "1-", "tel:", ";ext=1", "a", "٣", "\xff", "1x", "１２", "+1 (", "1~", "[1] ", " ", "1\u3000"})
		s := strings.Repeat(unit, size/len(unit))
		if c.P(2) {
			s += gen.Pick(c.R, []string{"x", "+1 650 253 0000", "\n", "z9", " ext 5"})
		}
		a := e.args(c, false)
		a.s, a.s2, a.text, a.cand = s, s[:len(s)/2], s, s
		a.reg = gen.Pick(c.R, []string{"US", "GB", "DE", "AR", "ZZ"})
		for _, o := range ops {
			if !strings.ContainsAny(o.use, "sT") {
				continue
			}
			if o.name == "AsYouType" {
				a.s = s[:min(len(s), 2500)]
			}
			e.guarded(c, o, a)
			a.s = s
			c.Eval()
			c.Tag("long:" + o.name)
		}
		c.Seen(unit, len(s))
		c.Sample("long", map[string]any{"unit": unit, "bytes": len(s)})
	})
	// the time of one call grows about as its input does: eight times the text costs about eight times as much
	slowest := map[string]float64{}
	e.RunW("growth", e.N(40), 1, func(c *core.Case) {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		unit := ""
		for k := 1 + c.Intn(4); k > 0; k-- {
			unit += gen.Pick(c.R, []string{"1", "12 ", "+1", "(", "((1)", "1/", "x1", "650 253 0000 ", "+16502530000,", "1-", "tel:", ";ext=1", "a", "٣", "\xff", "1x", "１２", "+1 (", "1~", "[1] ", " ", "1\u3000",
				"2012-01-02 08", "2012-01-02 08:00", "08/31/95", "pp. 211-227 (2003)", "/ x", ",,1#", "\n", "abc", ";phone-context=", ";isub=", "0", "(12) ", "$5 ", ")", "ext. 7 "})
		}
		a := e.args(c, false)
		a.reg, a.tries = gen.Pick(c.R, []string{"US", "GB", "DE", "AR", "ZZ"}), math.MaxInt32
		at := func(o op, size int) time.Duration {
			s := strings.Repeat(unit, size/len(unit)+1)
			a.s, a.s2, a.text, a.cand = s, s[:len(s)/2], s, s
			if a.n.RawInput != nil {
				a.n.RawInput = proto.String(s)
			}
			best := time.Hour
			for k := 0; k < 2; k++ {
				before := threadTime()
				e.guarded(c, o, a)
				best = min(best, threadTime()-before)
			}
			return best
		}
		for _, o := range ops {
			if !strings.ContainsAny(o.use, "sTn") || o.name == "AsYouType" {
				continue
			}
			small, big := at(o, 4000), at(o, 32000)
			c.Eval()
			c.Tag("growth:" + o.name)
			for k := 0; k < 3 && big > max(20*small, 300*time.Millisecond); k++ { // once more
				small, big = max(small, at(o, 4000)), min(big, at(o, 32000))
			}
			slowest[o.name] = max(slowest[o.name], big.Seconds())
			if big > max(20*small, 300*time.Millisecond) {
				c.Fail("growth|"+o.name+"|"+unit, "%s takes %v for %q repeated to 4000 bytes and %v for 32000 bytes", o.name, small, unit, big)
			}
		}
		c.Seen("growth", unit)
	})
	e.Extra("seconds_for_32000_bytes", slowest)
	// memory: what one call allocates stays within a generous multiple of its input
	var allocMu sync.Mutex
	most := map[string]float64{}
	sample := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	allocated := func() uint64 { metrics.Read(sample); return sample[0].Value.Uint64() }
	e.RunW("memory", e.N(160), 1, func(c *core.Case) {
		a := e.args(c, c.P(2))
		if c.P(2) {
			unit := gen.Pick(c.R, []string{"1", "12 ", "+1", "(", "1/", "x1", "650 253 0000 ", "1-", ";ext=1", "a", "\xff", "1~", "٣"})
			s := strings.Repeat(unit, (1000+c.Intn(30000))/len(unit))
			a.s, a.text, a.cand, a.code, a.lang, a.reg = s, s, s, s[:min(len(s), 5000)], s[:min(len(s), 5000)], gen.Pick(c.R, []string{"US", "AR", s})
		}
		for _, p := range []*pb{a.n, a.n2} {
			if c.P(2) {
				p.ItalianLeadingZero = proto.Bool(true)
				p.NumberOfLeadingZeros = proto.Int32(gen.Pick(c.R, []int32{17, 18, 1000, 1 << 20, 1 << 28, math.MaxInt32}))
				c.Tag("huge-leading-zero-count")
			}
		}
		for _, o := range ops {
			if o.name == "AsYouType" && len(a.s) > 2500 {
				continue
			}
			before := allocated()
			e.guarded(c, o, a)
			used := allocated() - before
			size := len(a.s) + len(a.s2) + len(a.text) + len(a.cand) + len(a.code) + len(a.lang) + len(a.reg)
			limit := uint64(32<<20) + uint64(size)*8000
			c.Eval()
			c.Seen("memory", o.name, a.String())
			allocMu.Lock()
			most[o.name] = max(most[o.name], float64(used)/float64(limit))
			allocMu.Unlock()
			if used > limit {
				c.Fail("memory|"+o.name+"|"+a.String(), "%s allocated %d bytes for %d bytes of input\n  arguments: %s", o.name, used, size, a)
			}
		}
	})
	e.Extra("largest_share_of_memory_limit", most)
	e.Run("runes", 0x110000/256, func(c *core.Case) {
		// every code point, as a keystroke and inside of strings
		f := phonenumbers.GetAsYouTypeFormatter(e.g.Region(c.R))
		reg := e.g.Region(c.R)
		for i := 0; i < 256; i++ {
			r := rune(c.Index*256 + i)
			c.Note("code point %U", r)
			if i%7 == 0 {
				f.Clear()
			}
			f.InputDigit(r)
			s := "+44 20" + string(r) + "7946 0958"
			_, err := phonenumbers.Parse(s, reg)
			if err != nil && !docErrs[errClass(err)] {
				c.Fail("error|"+s, "Parse(%q, %q) gave an undocumented error: %v", s, reg, err)
			}
			phonenumbers.IsAlphaNumber(s)
			phonenumbers.ConvertAlphaCharactersInNumber(s)
			if i%4 == 0 {
				drain("x"+string(r)+" +44 20 7946"+string(r)+" 0958"+string(r), reg, i/4%4, 10)
			}
			c.Eval()
		}
		f.InputDigit(rune(-1 - c.Index))
		f.InputDigitAndRememberPosition(rune(math.MaxInt32 - c.Index))
		c.Seen("block", c.Index)
		c.Tag("code-point-block")
	})
	m := map[string]string{}
	for k, v := range e.slow {
		m[k] = fmt.Sprintf("%.3fs", v.Seconds())
	}
	e.Extra("slowest_call", m)
}

// context wraps a number in a tel URI with a phone context.
func (e *env) context(c *core.Case, s string) string {
	ctx := gen.Pick(c.R, []string{"+1", "+44", "+" + c.Digits(1+c.Intn(4)), "example.com", "a.b", "1", "", "+", ";", "+1;x", "-a", "a-", "+1-2", c.Context("44"), c.Context("1"), c.Hostile()})
	return gen.Pick(c.R, []string{"tel:", "", "TEL:", "x"}) + s + ";phone-context=" + ctx + gen.Pick(c.R, []string{"", ";isub=1", ";ext=3", ";phone-context=+2"})
}

// threadTime is the processor time this thread has used.
func threadTime() time.Duration {
	var t syscall.Timespec
	if _, _, err := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3 /* CLOCK_THREAD_CPUTIME_ID */, uintptr(unsafe.Pointer(&t)), 0); err != 0 {
		panic("harness: no thread times")
	}
	return time.Duration(t.Nano())
}
