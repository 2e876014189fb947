package main

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/nyaruka/phonenumbers/v2"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() { checks["C24"] = checkRetain }

// live is what is reachable: the heap after a full collection. Two passes empty the pools.
func live() int64 {
	runtime.GC()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// fresh draws arguments that all differ from case to case but stay within the given regions,
// so that the patterns they need are soon all compiled.
func (e *env) fresh(r gen.R, mds []*model.Meta, i int) *args {
	num := func() *model.Num {
		md := mds[r.Intn(len(mds))]
		l := 9
		if len(md.General.Lengths) > 0 {
			l = int(gen.Pick(r, md.General.Lengths))
		}
		if r.Intn(2) == 0 {
			return e.g.Split(md, e.g.NSN(r, md))
		}
		return e.g.Split(md, r.Digits(max(l, 7)))
	}
	n, m := num(), num()
	if r.Intn(2) == 0 {
		n.Ext = fmt.Sprint(i)
	}
	a := &args{cc: 1000 + i, typ: r.Intn(12), fmt: r.Intn(4), len: r.Intn(4), tries: 65535, code: fmt.Sprint(i)}
	a.s, a.s2 = e.m.Format(n, r.Intn(4)), e.m.Format(m, r.Intn(4))
	switch r.Intn(16) { // the parts a text may carry differ as well
	case 0:
		a.s = fmt.Sprintf("tel:%s;phone-context=d%d.example.org", a.s, i)
	case 1:
		a.s = fmt.Sprintf("tel:%s;phone-context=+%d%d", a.s, n.CC, i)
	case 2:
		a.s = fmt.Sprintf("%s;isub=%d;ext=4", a.s, i)
	case 3:
		a.s = fmt.Sprintf("%s ext. %d", a.s, i)
	case 4:
		a.s = fmt.Sprintf("0800 %s", letters(i))
	case 5:
		a.s = fmt.Sprintf("nothing %s at all", letters(i))
	case 6:
		a.s = fmt.Sprintf("00%d%d", n.CC, 1000000+i)
	case 7:
		a.s = fmt.Sprintf("x%d: %s", i, r.ForeignDigits(a.s))
	}
	n.Raw, n.HasRaw, n.Src = a.s, true, 1+r.Intn(4)
	if r.Intn(2) == 0 {
		n.PDCC = fmt.Sprint(i)
	}
	a.n, a.n2 = toPB(n), toPB(m)
	a.cand = e.m.Format(n, 1)
	a.text = fmt.Sprintf("case %d: call %s, or try %s instead", i, a.s, a.s2)
	a.reg = gen.Pick(r, mds).ID
	a.lang = gen.Pick(r, []string{"en", "de"})
	if r.Intn(2) == 0 {
		a.lang = fmt.Sprintf("x%d", i)
	}
	if r.Intn(3) == 0 {
		a.reg = fmt.Sprintf("%c%d", 'A'+rune(i%26), i)
	}
	for k := r.Intn(3); k > 0; k-- {
		a.formats = append(a.formats, gen.Pick(r, userFormats))
	}
	return a
}

// letters spells i.
func letters(i int) string {
	b := []byte("AAAAAA")
	for k := range b {
		b[k] += byte(i % 26)
		i /= 26
	}
	return string(b)
}

// C24: nothing is kept per call.
func checkRetain(e *env) {
	e.Rule = "distinct calls between two measurements of the reachable heap; per operation, the bytes that stayed reachable per call"
	var mu sync.Mutex
	formatters := map[string]*phonenumbers.AsYouTypeFormatter{}
	all := append(append([]op{}, ops...), op{"abandoned search", "T", func(a *args) string {
		for m := range phonenumbers.FindNumbersWithLeniency(a.text, a.reg, phonenumbers.Leniency(a.len), a.tries) {
			return m.String()
		}
		return ""
	}}, op{"match list", "T", func(a *args) string {
		var ms []*phonenumbers.PhoneNumberMatch
		for m := range phonenumbers.FindNumbers(a.text, a.reg) {
			ms = append(ms, m)
		}
		return fmt.Sprint(len(ms))
	}}, op{"one formatter, cleared", "T", func(a *args) string {
		mu.Lock()
		defer mu.Unlock()
		k := a.reg
		if len(k) > 2 {
			k = "ZZ"
		}
		if formatters[k] == nil {
			formatters[k] = phonenumbers.GetAsYouTypeFormatter(k)
		}
		f, out := formatters[k], ""
		for _, d := range a.s + a.s2[:len(a.s2)/2] {
			out = f.InputDigit(d)
		}
		f.Clear()
		return out
	}})
	kept := map[string]float64{}
	var every []*model.Meta
	for _, reg := range e.g.Regions {
		if md := e.m.RegionMeta(reg); md != nil {
			every = append(every, md)
		}
	}
	// the patterns of every territory are compiled once and kept: have that done
	e.Run("compile", e.N(9000), func(c *core.Case) {
		a := e.fresh(c.R, every, c.Index)
		for _, o := range all {
			o.run(a)
		}
	})
	e.RunW("retain", len(all), 1, func(c *core.Case) {
		o := all[c.Index]
		c.Note("%s", o.name)
		var mds []*model.Meta
		for len(mds) < 3 {
			md := e.m.RegionMeta(e.g.Regions[c.Intn(len(e.g.Regions))])
			if md != nil {
				mds = append(mds, md)
			}
		}
		for k := 0; len(mds) < 4 && k < 1000; k++ { // one where carrier codes are written
			md := e.m.RegionMeta(e.g.Regions[c.Intn(len(e.g.Regions))])
			for _, f := range md.Formats {
				if f.CCRule != "" {
					mds = append(mds, md)
					break
				}
			}
		}
		calls := e.N(12000)
		from := 0
		batch := func(n int) {
			var wg sync.WaitGroup
			w := runtime.GOMAXPROCS(0)
			for k := 0; k < w; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := from + k; i < from+n; i += w {
						o.run(e.fresh(gen.New(e.Seed, "C24/"+o.name, i), mds, i))
					}
				}()
			}
			wg.Wait()
			from += n
		}
		goroutines := runtime.NumGoroutine()
		batch(calls / 2)
		h0 := live()
		batch(calls)
		h1 := live()
		limit := int64(calls) * 4
		grown := h1 - h0
		if grown > limit { // growth that stops is a bounded cache
			c.Tag("confirmed-with-further-calls")
			more := func() int64 {
				h := live()
				batch(calls)
				batch(calls)
				batch(calls)
				return live() - h
			}
			// a table that doubles now and then grows in steps, so each round has only to grow
			if a := more(); a > 2*limit {
				if b := more(); b > 2*limit {
					if d := more(); d > 2*limit {
						c.Fail("retain|"+o.name, "%d calls of %s with different arguments left %d bytes reachable, and three times %d further ones another %d, %d and %d", calls, o.name, grown, 3*calls, a, b, d)
					}
				}
			}
		}
		for k := 0; ; k++ {
			left := runtime.NumGoroutine() - goroutines
			if left <= 0 {
				break
			}
			if k == 100 {
				c.Fail("goroutines|"+o.name, "%d calls of %s left %d goroutines running", from, o.name, left)
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		c.Sample("operation", map[string]any{"operation": o.name, "calls": calls, "heap_before": h0, "heap_after": h1})
		kept[o.name] = float64(grown) / float64(calls)
		for i := 0; i < from; i++ {
			c.Eval()
		}
		c.Seen(o.name)
		e.Tag("calls-between-measurements", int64(calls))
		e.Tag("goroutines-back-to-start", 1)
	})
	e.Extra("bytes_kept_per_call", kept)
}
