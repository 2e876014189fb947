package main

import (
	"encoding/json"
	"fmt"
	"iter"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/timezone"
	"google.golang.org/protobuf/proto"

	"verif/core"
	"verif/gen"
)

func init() { checks["C14"] = checkPure }

// orderChild runs jobs in a given order, sequentially, and writes result hashes.
func orderChild(e *env, arg []string) {
	stream, out := arg[0], arg[3]
	n, _ := strconv.Atoi(arg[1])
	k, _ := strconv.Atoi(arg[2])
	js := e.jobs(stream, n, "")
	ord := make([]int, len(js))
	for i := range ord {
		ord[i] = i
	}
	switch {
	case k == 1:
		for i := range ord {
			ord[i] = len(js) - 1 - i
		}
	case k > 1:
		ord = gen.New(e.Seed, stream+"/order", k).Perm(len(js))
	}
	res := make([]string, len(js))
	for _, i := range ord {
		res[i] = js[i].o.name + " " + runJob(js[i]) + "\n  arguments: " + js[i].a.String()
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func showFormats(fs []*phonenumbers.NumberFormat) string {
	var b strings.Builder
	for _, f := range fs {
		x, _ := proto.MarshalOptions{Deterministic: true}.Marshal(f)
		fmt.Fprintf(&b, "%x;", x)
	}
	return b.String()
}

// scribble changes a number the library gave out: the values its fields refer
// to, where they lie, or the fields.
func (e *env) scribble(c *core.Case, p *pb) {
	if c.P(2) {
		e.wildNumber(c, p)
		return
	}
	if p.CountryCode != nil {
		*p.CountryCode = -7
	}
	if p.NationalNumber != nil {
		*p.NationalNumber = 13
	}
	if p.Extension != nil {
		*p.Extension = "scribble"
	}
	if p.ItalianLeadingZero != nil {
		*p.ItalianLeadingZero = !*p.ItalianLeadingZero
	}
	if p.NumberOfLeadingZeros != nil {
		*p.NumberOfLeadingZeros = 9
	}
	if p.RawInput != nil {
		*p.RawInput = "scribble"
	}
	if p.CountryCodeSource != nil {
		*p.CountryCodeSource = 3
	}
	if p.PreferredDomesticCarrierCode != nil {
		*p.PreferredDomesticCarrierCode = "scribble"
	}
	c.Tag("changed-in-place")
}

// C14: answers depend on the arguments alone, and belong to the caller.
func checkPure(e *env) {
	e.Rule = "distinct (operation, arguments) calls answered at several points of different histories, compared with each other and checked for changed arguments"
	e.Run("repeat", e.N(30000), func(c *core.Case) {
		a := e.args(c, c.P(3))
		before, fb := a.String(), showFormats(a.formats)
		k0 := c.Intn(len(ops))
		first := make([]string, 12)
		for k := range first {
			o := ops[(k0+k)%len(ops)]
			c.Note("%s(%s)", o.name, a)
			first[k] = o.run(a)
			c.Eval()
			c.Seen(o.name, before)
			if s := a.String(); s != before || showFormats(a.formats) != fb {
				c.Fail("argument|"+o.name+"|"+before, "%s changed its arguments\n  before %s\n  after  %s", o.name, before, s)
				return
			}
		}
		// other calls in between, among them hostile ones
		b := e.args(c, true)
		for k := 0; k < 6; k++ {
			o := ops[c.Intn(len(ops))]
			c.Note("%s(%s)", o.name, b)
			o.run(b)
		}
		for k := len(first) - 1; k >= 0; k-- {
			o := ops[(k0+k)%len(ops)]
			c.Note("%s(%s)", o.name, a)
			if s := o.run(a); s != first[k] {
				c.Fail("repeat|"+o.name+"|"+before, "%s answered %q first and %q later\n  arguments: %s", o.name, first[k], s, before)
			}
		}
		// equal arguments in other memory
		a2 := *a
		a2.n, a2.n2 = proto.Clone(a.n).(*pb), proto.Clone(a.n2).(*pb)
		a2.s, a2.text, a2.cand, a2.reg = strings.Clone(a.s), strings.Clone(a.text), strings.Clone(a.cand), strings.Clone(a.reg)
		k := c.Intn(len(first))
		if o := ops[(k0+k)%len(ops)]; o.run(&a2) != first[k] {
			c.Fail("repeat|"+o.name+"|"+before, "%s answers differently for equal arguments: %s", o.name, before)
		}
		c.Tag("history")
	})
	e.Run("reuse", e.N(100000), func(c *core.Case) {
		// one number object through a history of parses
		p := &pb{}
		if c.P(3) {
			p = toPB(e.g.Num(c.R))
		}
		var hist []string
		for k := 2 + c.Intn(3); k > 0; k-- {
			s, reg := e.g.Entry(c.R)
			keep := c.P(2)
			hist = append(hist, fmt.Sprintf("(%q, %q, keep=%v)", s, reg, keep))
			c.Note("reuse %s", hist)
			var err, we error
			var want *pb
			if keep {
				err = phonenumbers.ParseAndKeepRawInputToNumber(s, reg, p)
				want, we = phonenumbers.ParseAndKeepRawInput(s, reg)
			} else {
				err = phonenumbers.ParseToNumber(s, reg, p)
				want, we = phonenumbers.Parse(s, reg)
			}
			c.Eval()
			if errClass(err) != errClass(we) || (err == nil && rawPB(p) != rawPB(want)) {
				c.Fail("reuse|"+hist[len(hist)-1], "parsing into a used number gave %s, into a fresh one %s\n  history: %s", parsed(p, err), parsed(want, we), hist)
				return
			}
			if err == nil {
				c.Tag("parsed-into-used-number")
			}
		}
		c.Seen(strings.Join(hist, ""))
	})
	e.Run("own", e.N(40000), func(c *core.Case) {
		// results are the caller's: changing them changes no later answer
		a := e.args(c, false)
		parse := phonenumbers.Parse
		if c.P(2) {
			parse = phonenumbers.ParseAndKeepRawInput
		}
		p, err := parse(a.s, a.reg)
		if err == nil {
			w := rawPB(p)
			e.scribble(c, p)
			q, err := parse(a.s, a.reg)
			if err != nil || rawPB(q) != w {
				c.Fail("own|Parse|"+a.s, "Parse(%q, %q) answers %s after its earlier result %s was changed", a.s, a.reg, parsed(q, err), w)
			}
			c.Tag("changed:Parse")
		}
		t := phonenumbers.PhoneNumberType(a.typ)
		for k, f := range []func() *pb{
			func() *pb { return phonenumbers.GetExampleNumber(a.reg) },
			func() *pb { return phonenumbers.GetExampleNumberForTypeInRegion(a.reg, t) },
			func() *pb { return phonenumbers.GetExampleNumberForNonGeoEntity(a.cc) },
			func() *pb { return phonenumbers.GetInvalidExampleNumber(a.reg) },
		} {
			if x := f(); x != nil {
				w := rawPB(x)
				e.scribble(c, x)
				if y := f(); rawPB(y) != w {
					c.Fail(fmt.Sprintf("own|example%d|%s", k, a), "example number (%d) is %s after the earlier result %s was changed; %s", k, rawPB(y), w, a)
				}
				c.Tag("changed:example")
			}
		}
		var ms []*phonenumbers.PhoneNumberMatch
		for m := range phonenumbers.FindNumbersWithLeniency(a.text, a.reg, phonenumbers.Leniency(a.len), 65535) {
			ms = append(ms, m)
		}
		w := drain(a.text, a.reg, a.len, 65535)
		for _, m := range ms {
			e.scribble(c, m.Number())
			c.Tag("changed:match")
		}
		if s := drain(a.text, a.reg, a.len, 65535); s != w {
			c.Fail("own|find|"+a.text, "finding in %q (%s) differs after earlier matches were changed:\n  %s\n  %s", a.text, a.reg, w, s)
		}
		c.Eval()
		c.Seen("own", a.String())
	})
	e.Run("alter", e.N(40000), func(c *core.Case) {
		// an argument the caller has changed since is a new argument
		a := e.args(c, c.P(4))
		for round := 0; round < 3; round++ {
			k0, m := c.Intn(len(ops)), 4
			for k := 0; k < m; k++ {
				o := ops[(k0+k)%len(ops)]
				c.Note("%s(%s)", o.name, a)
				o.run(a)
			}
			before := a.String()
			b := e.args(c, false)
			what := c.Intn(4)
			switch what {
			case 0:
				e.scribble(c, a.n)
			case 1:
				proto.Reset(a.n)
				proto.Merge(a.n, b.n)
			case 2: // one digit more, or another
				if a.n.NationalNumber != nil {
					*a.n.NationalNumber ^= 1
				}
				if a.n2.CountryCode != nil {
					*a.n2.CountryCode ^= 1
				}
			case 3:
				proto.Reset(a.n2)
				proto.Merge(a.n2, a.n)
				a.n, a.n2 = a.n2, a.n
			}
			own := make([]*phonenumbers.NumberFormat, len(a.formats))
			for i := range own {
				own[i] = proto.Clone(a.formats[i]).(*phonenumbers.NumberFormat)
			}
			a.formats = own
			if len(own) > 0 {
				phonenumbers.FormatByPattern(a.n, phonenumbers.NATIONAL, a.formats)
				if g := gen.Pick(c.R, userFormats); c.P(2) {
					proto.Reset(own[0])
					proto.Merge(own[0], g)
				} else {
					own[0].Format = proto.String("$1/" + own[0].GetFormat())
				}
			}
			for k := 0; k < m; k++ {
				o := ops[(k0+k)%len(ops)]
				f := *a
				f.n, f.n2 = proto.Clone(a.n).(*pb), proto.Clone(a.n2).(*pb)
				f.formats = nil
				for _, x := range a.formats {
					f.formats = append(f.formats, proto.Clone(x).(*phonenumbers.NumberFormat))
				}
				x, y := o.run(a), o.run(&f)
				c.Eval()
				if x != y {
					c.Fail("alter|"+o.name+"|"+a.String(), "%s answers %q for arguments the caller has changed since the last call and %q for equal ones in other memory\n  arguments: %s\n  before:    %s", o.name, x, y, a, before)
				}
			}
			c.Tag("altered")
		}
		c.Seen("alter", a.String())
	})
	e.Run("shared-results", 1, func(c *core.Case) {
		// sets and lists: change one answer, ask again
		for k, f := range map[string]func() (string, func()){
			"GetSupportedRegions": func() (string, func()) {
				m := phonenumbers.GetSupportedRegions()
				return sortedStrs(m), func() { delete(m, "US"); m["XX"] = true; m["DE"] = false }
			},
			"GetSupportedCallingCodes": func() (string, func()) {
				m := phonenumbers.GetSupportedCallingCodes()
				return sortedInts(m), func() { delete(m, 1); m[999] = true; m[49] = false }
			},
			"GetSupportedGlobalNetworkCallingCodes": func() (string, func()) {
				m := phonenumbers.GetSupportedGlobalNetworkCallingCodes()
				return sortedInts(m), func() { delete(m, 800); m[1] = true }
			},
		} {
			s, change := f()
			change()
			if t, _ := f(); t != s {
				c.Fail("own|"+k, "%s answers differently after its earlier result was changed", k)
			}
			c.Eval()
			c.Seen(k)
			c.Tag("changed:" + k)
		}
		for cc := -1; cc < 1100; cc++ {
			a := phonenumbers.GetRegionCodesForCountryCode(cc)
			s := strings.Join(a, ",")
			for i := range a {
				a[i] = "XX"
			}
			_ = append(a[:0:len(a)], "YY")
			if t := strings.Join(phonenumbers.GetRegionCodesForCountryCode(cc), ","); t != s {
				c.Fail(fmt.Sprintf("own|GetRegionCodesForCountryCode|%d", cc), "GetRegionCodesForCountryCode(%d) answers %s after its earlier result %s was changed", cc, t, s)
			}
			m := phonenumbers.GetSupportedTypesForNonGeoEntity(cc)
			s = sortedTypes(m)
			clear(m)
			if t := sortedTypes(phonenumbers.GetSupportedTypesForNonGeoEntity(cc)); t != s {
				c.Fail(fmt.Sprintf("own|GetSupportedTypesForNonGeoEntity|%d", cc), "GetSupportedTypesForNonGeoEntity(%d) answers %s after its earlier result %s was changed", cc, t, s)
			}
			c.Eval()
			c.Seen("code", cc)
		}
		for _, r := range append(append([]string{}, e.g.Regions...), gen.OddRegions...) {
			m := phonenumbers.GetSupportedTypesForRegion(r)
			s := sortedTypes(m)
			clear(m)
			if t := sortedTypes(phonenumbers.GetSupportedTypesForRegion(r)); t != s {
				c.Fail("own|GetSupportedTypesForRegion|"+r, "GetSupportedTypesForRegion(%q) answers %s after its earlier result %s was changed", r, t, s)
			}
			c.Eval()
			c.Seen("region", r)
		}
	})
	var zones []string
	for k := range e.t.TZ {
		zones = append(zones, k)
	}
	e.RunW("zones", 4000, 1, func(c *core.Case) {
		p := toPB(e.complete(c, zones[c.Intn(len(zones))]))
		for _, f := range []func(*pb) ([]string, error){timezone.GetTimeZonesForNumber, timezone.GetTimeZonesForGeographicalNumber} {
			z, _ := f(p)
			s := strings.Join(z, ",")
			for i := range z {
				z[i] = "X"
			}
			y, _ := f(p)
			if t := strings.Join(y, ","); t != s {
				c.Fail("own|zones|"+rawPB(p), "time zones of %s are %s after the earlier result %s was changed", rawPB(p), t, s)
			}
		}
		c.Eval()
		c.Tag("changed:zones")
	})
	e.Run("iterate", e.N(20000), func(c *core.Case) {
		text, reg := e.prose(c)
		seq := phonenumbers.FindNumbersWithLeniency(text, reg, phonenumbers.Leniency(c.Intn(4)), math.MaxInt32)
		list := func() []string {
			var out []string
			for m := range seq {
				out = append(out, m.String()+rawPB(m.Number()))
			}
			return out
		}
		w := list()
		for m := range seq { // abandoned half way
			_ = m
			if c.P(2) {
				break
			}
		}
		n1, stop1 := iter.Pull(seq)
		n2, stop2 := iter.Pull(seq)
		var a, b []string
		for more := 2; more > 0; { // two iterations interleaved
			x, o := &a, n1
			if c.P(2) {
				x, o = &b, n2
			}
			if m, ok := o(); ok {
				*x = append(*x, m.String()+rawPB(m.Number()))
			} else if more--; more > 0 {
				for {
					if x == &a {
						x, o = &b, n2
					} else {
						x, o = &a, n1
					}
					for m, ok := o(); ok; m, ok = o() {
						*x = append(*x, m.String()+rawPB(m.Number()))
					}
					more = 0
					break
				}
			}
		}
		stop1()
		stop2()
		c.Eval()
		c.Seen("iterate", text, reg)
		if fmt.Sprint(a) != fmt.Sprint(w) || fmt.Sprint(b) != fmt.Sprint(w) || fmt.Sprint(list()) != fmt.Sprint(w) {
			c.Fail("iterate|"+text, "iterating the matches of %q (%s) again gives something else: %q / %q / %q", text, reg, w, a, b)
		}
		if len(w) > 1 {
			c.Tag("iterated-several-matches")
		}
	})
	e.Run("typists", e.N(30000), func(c *core.Case) {
		// formatters do not influence each other, nor does a formatter's past after Clear
		s1, r1 := e.keystrokes(c)
		s2, r2 := e.keystrokes(c)
		if c.P(2) {
			r2 = r1
		}
		alone := func(s, r string) (out []string) {
			f := phonenumbers.GetAsYouTypeFormatter(r)
			for _, k := range s {
				out = append(out, f.InputDigit(k))
			}
			return
		}
		w1, w2 := alone(s1, r1), alone(s2, r2)
		f1, f2 := phonenumbers.GetAsYouTypeFormatter(r1), phonenumbers.GetAsYouTypeFormatter(r2)
		k1, k2 := []rune(s1), []rune(s2)
		i, j := 0, 0
		bad := false
		for i < len(k1) || j < len(k2) {
			if j >= len(k2) || (i < len(k1) && c.P(2)) {
				bad = bad || f1.InputDigit(k1[i]) != w1[i]
				i++
			} else {
				bad = bad || f2.InputDigit(k2[j]) != w2[j]
				j++
			}
		}
		f1.Clear()
		for i, k := range k1 {
			bad = bad || f1.InputDigit(k) != w1[i]
		}
		c.Eval()
		c.Seen("typists", s1, r1, s2, r2)
		if bad {
			c.Fail("typists|"+s1+"|"+r1+"|"+s2+"|"+r2, "formatters for %q (%s) and %q (%s) answer differently when interleaved or after Clear", s1, r1, s2, r2)
		}
	})
	e.orders()
}

// orders compares fresh processes that run the same calls in different orders.
func (e *env) orders() {
	dir, err := os.MkdirTemp("", "c14-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	rounds := 2
	if e.Thorough() {
		rounds = 12
	}
	e.RunW("orders", rounds, 2, func(c *core.Case) {
		stream := fmt.Sprintf("C14/orders/%d", c.Index)
		const kinds = 4
		res := make([][]string, kinds)
		var wg sync.WaitGroup
		for k := 0; k < kinds; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				file := filepath.Join(dir, fmt.Sprintf("o-%d-%d", c.Index, k))
				out, err := e.child(dir, 600*time.Second, nil, "order", stream, "400", strconv.Itoa(k), file)
				if err != nil {
					c.Fail("orders|crash", "process running the calls in order %d died: %v\n%s", k, err, tail(out, 5000))
					return
				}
				b, err := os.ReadFile(file)
				if err == nil {
					err = json.Unmarshal(b, &res[k])
				}
				if err != nil {
					fmt.Fprintln(os.Stderr, "child report:", err)
					os.Exit(3)
				}
			}()
		}
		wg.Wait()
		for k := 1; k < kinds; k++ {
			for i := range res[0] {
				if i < len(res[k]) && res[k][i] != res[0][i] {
					c.Fail(fmt.Sprintf("orders|%d|%d", c.Index, i), "the answer depends on the calls before:\n  in order 0: %s\n  in order %d: %s", res[0][i], k, res[k][i])
					break
				}
			}
			e.Eval(len(res[k]))
		}
		for i := range res[0] {
			c.Seen("order", res[0][i])
		}
		e.Tag("calls-in-fresh-processes", int64(kinds*len(res[0])))
		c.Tag("process-orders")
	})
}
