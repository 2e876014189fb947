package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"unicode/utf8"

	"github.com/nyaruka/phonenumbers/v2"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() {
	checks["C09"] = checkFinder
	checks["C10"] = checkLeniency
}

var lenNames = []string{"POSSIBLE", "VALID", "STRICT_GROUPING", "EXACT_GROUPING"}

var words = []string{"call ", "Tel.: ", "at ", "\n", "on 12/06/2011 ", "2011-05-14 ", "2012-01-02 08:00 ", "2012-01-02 08 x12:30 ", "2012/05/14  19", "20120102 08", ":30", ":59 ", ":7", "(", ")", "[", "] ", "$", "%", "£", "abc", "é", "x", " x", "/ x3", "fax ", ", ", "; ", " or ", " - ", "-", " / ", "/", "1 ", "12345 ", "Pages 211-227 (2003)", "ISBN 0-306-40615-2 ", "\u3000", "...", ". ", "\xff", "中文", "①", "+", "#", "*", "tel:", ";ext=12", "(0)", " 2 ", "http://x/", "\u2013", "\u2014", "\u00a0", "\U0001df00", "\U00010780", "\U0001e2ff", "\U0001ecb0", "\U0001f600", "\U00010400", "\u1e9e", "\u20ac", "\uff04", "\u0301", "\u0489", "\u02b0", "\u0410", "\U0001d400"}

func (e *env) prose(c *core.Case) (string, string) {
	var b strings.Builder
	reg := e.g.Region(c.R)
	k := 1 + c.Intn(4)
	for i := 0; i < k; i++ {
		for j := c.Intn(3); j > 0; j-- {
			b.WriteString(gen.Pick(c.R, words))
		}
		var md *model.Meta
		if c.P(3) {
			md = e.g.Meta(c.R)
		} else {
			md = e.m.RegionMeta(reg)
		}
		nsn := e.g.NSN(c.R, md)
		switch c.Intn(6) {
		case 0:
			b.WriteString(e.g.Render(c.R, md, nsn))
		case 1:
			n := e.g.Split(md, nsn)
			b.WriteString(e.m.Format(n, 1))
		case 2:
			n := e.g.Split(md, nsn)
			b.WriteString(e.m.Format(n, 2))
		case 3:
			b.WriteString(c.Punctuate("+" + itoa(int(md.CC)) + nsn))
		case 4: // national format regrouped
			s := e.m.Format(e.g.Split(md, nsn), 2)
			b.WriteString(regroup(c.R, s))
		default:
			s := e.m.Format(e.g.Split(md, nsn), 1)
			b.WriteString(regroup(c.R, s))
		}
		for j := c.Intn(3); j > 0; j-- {
			b.WriteString(gen.Pick(c.R, words))
		}
	}
	if c.P(12) {
		reg = gen.Pick(c.R, gen.OddRegions)
	}
	s := b.String()
	if c.P(15) {
		s = c.Mutate(s)
	}
	return s, reg
}

// dated is text with something like a date, a timestamp or a citation in it, with or without a
// number next to it.
func (e *env) dated(c *core.Case, reg string) string {
	pick := func(xs ...string) string { return gen.Pick(c.R, xs) }
	two := func(n int) string { // 00 .. n-1
		v := c.Intn(n)
		return string(rune('0'+v/10)) + string(rune('0'+v%10))
	}
	num := func() string {
		md := e.m.RegionMeta(reg)
		if md == nil || c.P(6) {
			md = e.g.Meta(c.R)
		}
		return e.m.Format(e.g.Split(md, e.g.NSN(c.R, md)), 1+c.Intn(2))
	}
	var b strings.Builder
	if c.P(3) {
		b.WriteString(pick(words...))
	}
	if c.P(6) {
		b.WriteString(num() + pick("", " ", ", ", "/", " x"))
	}
	for k := 1 + c.Intn(2); k > 0; k-- {
		switch c.Intn(4) {
		case 0, 1: // timestamps
			sep := pick("", "-", "-", "/", ".", " ")
			sep2 := sep
			if c.P(4) {
				sep2 = pick("", "-", "/", "--", " ")
			}
			year := pick("1", "2", "2", "1", "0", "3", "9") + c.Digits(3)
			b.WriteString(year + sep + two(26) + sep2 + two(45))
			b.WriteString(pick(" ", " ", " ", "  ", "   ", "", "T", "-", "\u00a0") + two(34))
			b.WriteString(pick(":", ":", ":", ":", "", " ", ".", ": ") + two(70) + pick("", "", ":"+two(70), "7"))
		case 2: // dates
			b.WriteString(pick("", "", "1") + itoa(c.Intn(36)) + pick("/", "/", "/", "-", ".", "//") + pick(itoa(c.Intn(36)), two(36)))
			b.WriteString(pick("/", "/", "/", "-", ".", " /") + pick("", pick("1", "2", "1", "2", "0", "3")+c.Digits(1)) + c.Digits(pickInt(c, 2, 2, 2, 1, 3)))
			b.WriteString(pick("", "", " ", "-", "/") + pick("", c.Digits(1+c.Intn(8))))
		default: // citations
			b.WriteString(c.Digits(1+c.Intn(7)) + pick("-", "-", "-", "--", "---", "\u2013", " - ", "") + c.Digits(1+c.Intn(7)))
			b.WriteString(pick("", " ", " ", "  ", "   ", "    ", "     ", "      ", "\t", "\u00a0"))
			b.WriteString(pick("(", "(", "(", "[", "") + c.Digits(c.Intn(6)) + pick(")", ")", "]", ""))
		}
		b.WriteString(pick("", "", " ", ", ", "; ", "\n"))
	}
	if c.P(5) {
		b.WriteString(num())
	}
	return b.String()
}

func pickInt(c *core.Case, xs ...int) int { return gen.Pick(c.R, xs) }

// regroup moves or changes separators.
func regroup(r gen.R, s string) string {
	var b strings.Builder
	for _, ch := range s {
		if ch == ' ' || ch == '-' {
			switch r.Intn(5) {
			case 0:
				continue
			case 1:
				b.WriteString(gen.Pick(r, []string{"/", ".", "-", "  ", " - ", "\u2013", "x", " (", ") "}))
				continue
			}
		}
		b.WriteRune(ch)
		if r.P(18) {
			b.WriteString(gen.Pick(r, []string{" ", "-", "/"}))
		}
	}
	return b.String()
}

func collect(text, reg string, l, tries int) []*phonenumbers.PhoneNumberMatch {
	var out []*phonenumbers.PhoneNumberMatch
	for m := range phonenumbers.FindNumbersWithLeniency(text, reg, phonenumbers.Leniency(l), tries) {
		out = append(out, m)
	}
	return out
}

func showFound(fs []model.Found) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "[%d %q %s] ", f.Start, f.Raw, show(f.Num))
	}
	return b.String()
}

// C09: the finder reports exactly the numbers its rules admit.
func checkFinder(e *env) {
	e.Rule = "distinct (text, region, leniency, maxTries) whose complete match sequence was compared and checked for soundness"
	e.Run("prose", e.N(120000), func(c *core.Case) {
		text, reg := e.prose(c)
		l := c.Intn(4)
		tries := gen.Pick(c.R, []int{math.MaxInt32, 65535, 65535, 10, 5, 2, 1, 0, -1})
		e.findOne(c, text, reg, l, tries)
	})
	// what looks like a date, a time or a citation, and what nearly does, in regions where the
	// digits may well be a number
	e.Run("dates", e.N(80000), func(c *core.Case) {
		reg := e.g.Region(c.R)
		l := 0
		if c.P(3) {
			l = c.Intn(4)
		}
		e.findOne(c, e.dated(c, reg), reg, l, 65535)
	})
	e.Run("hostile", e.N(30000), func(c *core.Case) {
		e.findOne(c, c.Hostile(), e.g.AnyRegion(c.R), c.Intn(4), 65535)
	})
	// long texts: where a match is does not depend on how much text is around it, and the
	// number of candidates tried is limited to exactly what was asked for
	e.Run("long", e.N(8), func(c *core.Case) {
		var b strings.Builder
		reg := ""
		filler := func(size int) {
			unit := gen.Pick(c.R, []string{"lorem ipsum dolor ", "\n", "é — ", "中文。", "1/1/11 ", "x", "0 ", "+ ", "(((", "12 a "})
			b.WriteString(strings.Repeat(unit, size/len(unit)))
			b.WriteString(gen.Pick(c.R, []string{" ", "\n", ", "}))
		}
		for k := 2 + c.Intn(3); k > 0; k-- {
			filler(gen.Pick(c.R, []int{100, 20000, 33000, 66000, 70000, 140000, 300000}))
			t, r := e.prose(c)
			b.WriteString(t)
			reg = r
		}
		e.findOne(c, b.String(), reg, c.Intn(2), gen.Pick(c.R, []int{math.MaxInt32, math.MaxInt32, 65535, 1000}))
		c.Tag("long-text")
	})
	e.Run("limit", e.N(2), func(c *core.Case) {
		md := e.g.Meta(c.R)
		num := e.m.Format(e.g.Split(md, e.g.NSN(c.R, md)), 1)
		limit := gen.Pick(c.R, []int{65535, 65535, 32768, 256, 1000, 3})
		n := limit - 2 + c.Intn(4)
		text := strings.Repeat(gen.Pick(c.R, []string{"1/1/11;", "0;", "99;"}), n) + " " + num
		l, tries := 1, limit
		if c.Index%3 == 0 {
			tries = math.MaxInt32 // compares FindNumbers, which has no limit, as well
		}
		e.findOne(c, text, "ZZ", l, tries)
		c.Tag("limit")
	})
	// how much is allocated is how much was done: a search that is given up, or that may try
	// only a few candidates, does a small part of the work of a complete one
	e.RunW("work", e.N(8), 1, func(c *core.Case) {
		md := e.g.Meta(c.R)
		var nums, junk strings.Builder
		for i := 0; i < 300; i++ {
			nums.WriteString(gen.Pick(c.R, []string{"call ", "; ", "or\n", "— "}))
			nums.WriteString(e.m.Format(e.g.Split(md, e.g.NSN(c.R, md)), 1))
			junk.WriteString("; " + gen.Pick(c.R, []string{"+999 ", "12.34.56.", "1/2/2011 ", "123 456 ", "no 00000 "}) + c.Digits(1+c.Intn(6)))
		}
		l := c.Intn(2)
		c.Note("work in %q", nums.String())
		work := func(f func()) uint64 {
			least := uint64(math.MaxUint64)
			for k := 0; k < 3; k++ {
				before := mallocs()
				f()
				least = min(least, mallocs()-before)
			}
			return least
		}
		full, first, n := uint64(0), uint64(0), 0
		full = work(func() { n = len(collect(nums.String(), "ZZ", l, math.MaxInt32)) })
		if n >= 100 {
			first = work(func() {
				for range phonenumbers.FindNumbersWithLeniency(nums.String(), "ZZ", phonenumbers.Leniency(l), math.MaxInt32) {
					break
				}
			})
			c.Tag("work-early-stop")
			c.Eval()
			c.Seen("stop", nums.String())
			if first > full/5 {
				c.Fail("work stop", "stopping at the first of %d matches allocates %d objects, going through all of them %d", n, first, full)
			}
		}
		full = work(func() { n = len(collect(junk.String(), "ZZ", 1, math.MaxInt32)) })
		first = work(func() { collect(junk.String(), "ZZ", 1, 3) })
		c.Eval()
		if n == 0 {
			c.Tag("work-few-tries")
			c.Seen("tries", junk.String())
			if first > full/5+100 {
				c.Fail("work tries", "trying 3 candidates of a text allocates %d objects, trying all of them %d", first, full)
			}
		}
		c.Sample("work", map[string]any{"matches": n, "all": full, "three_tries": first})
	})
}

// mallocs is the number of objects allocated so far.
func mallocs() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.Mallocs
}

func (e *env) findOne(c *core.Case, text, reg string, l, tries int) {
	c.Note("Find(%q, %q, %s, %d)", text, reg, lenNames[l], tries)
	got := collect(text, reg, l, tries)
	want := e.m.Find(text, reg, l, tries)
	c.Eval()
	if len(want) > 0 {
		c.Seen(text, reg, l, tries)
	}
	key := "find|" + text + "|" + reg + "|" + itoa(l) + "|" + itoa(tries)
	var gs []model.Found
	last := 0
	for _, m := range got {
		gs = append(gs, model.Found{Start: m.Start(), Raw: m.RawString(), Num: fromPB(m.Number())})
		// soundness, independent of the model of the search
		if m.Start() < last || m.End() > len(text) || m.Start() >= m.End() || text[m.Start():m.End()] != m.RawString() {
			c.Fail(key, "Find(%q): match [%d,%d) %q is not a later substring of the text", text, m.Start(), m.End(), m.RawString())
			return
		}
		if utf8.ValidString(text) && !utf8.ValidString(m.RawString()) {
			c.Fail(key, "Find(%q): match %q cuts a character", text, m.RawString())
		}
		last = m.End()
		if w := "PhoneNumberMatch [" + itoa(m.Start()) + "," + itoa(m.End()) + ") " + m.RawString(); m.String() != w {
			c.Fail(key, "match.String() = %q, want %q", m.String(), w)
		}
		p, err := phonenumbers.Parse(m.RawString(), reg)
		if err != nil || !same(fromPB(p), fromPB(m.Number())) {
			c.Fail(key, "Find(%q, %q): match %q carries %s but parses to %s (%v)", text, reg, m.RawString(), showPB(m.Number()), showPB(p), err)
		}
		if !phonenumbers.IsPossibleNumber(m.Number()) || l > 0 && !phonenumbers.IsValidNumber(m.Number()) {
			c.Fail(key, "Find(%q, %q, %s): match %q is not %s", text, reg, lenNames[l], m.RawString(), lenNames[l])
		}
		c.Tag("match:" + lenNames[l])
	}
	if showFound(gs) != showFound(want) {
		c.Fail(key, "Find(%q, %q, %s, %d)\n   got %s\n  want %s", text, reg, lenNames[l], tries, showFound(gs), showFound(want))
	}
	if len(want) == 0 {
		c.Tag("no-match")
	}
	// stopping early yields a prefix of the same sequence
	if len(want) > 1 {
		k := 1 + c.Intn(len(want)-1)
		i := 0
		for m := range phonenumbers.FindNumbersWithLeniency(text, reg, phonenumbers.Leniency(l), tries) {
			if m.Start() != want[i].Start || m.RawString() != want[i].Raw {
				c.Fail(key, "Find(%q): early-stopped iteration differs at %d", text, i)
			}
			if i++; i == k {
				break
			}
		}
		c.Tag("early-stop")
	}
	if l == 1 && tries == math.MaxInt32 {
		var ds []model.Found
		for m := range phonenumbers.FindNumbers(text, reg) {
			ds = append(ds, model.Found{Start: m.Start(), Raw: m.RawString(), Num: fromPB(m.Number())})
		}
		if showFound(ds) != showFound(want) { // no limit on the candidates tried
			c.Fail(key, "FindNumbers(%q, %q)\n   got %s\n  want %s", text, reg, showFound(ds), showFound(want))
		}
	}
	if c.Index < 60 && len(want) > 0 {
		c.Sample("text", map[string]any{"text": text, "region": reg, "leniency": lenNames[l], "matches": showFound(want)})
	}
}

// C10: leniency levels.
func checkLeniency(e *env) {
	e.Rule = "distinct (number, candidate text) pairs on which all four leniency verdicts were compared and checked to be nested"
	e.Run("verify", e.N(250000), func(c *core.Case) {
		md := e.g.Meta(c.R)
		nsn := e.g.NSN(c.R, md)
		reg := md.ID
		if c.P(10) {
			reg = e.g.AnyRegion(c.R)
		}
		var s string
		switch c.Intn(8) {
		case 0:
			s = e.g.Render(c.R, md, nsn)
		case 1, 2:
			s = regroup(c.R, e.m.Format(e.g.Split(md, nsn), 1))
		case 3:
			if a := e.m.Alt[int(md.CC)]; a != nil && len(a.Formats) > 0 { // an alternate grouping
				f := gen.Pick(c.R, a.Formats)
				s = e.m.FormatByPattern(e.g.Split(md, nsn), 1+c.Intn(2), []*model.Fmt{f})
				if c.P(3) {
					s = regroup(c.R, s)
				}
				break
			}
			fallthrough
		case 4, 5:
			s = regroup(c.R, e.m.Format(e.g.Split(md, nsn), 2))
		case 6:
			s = c.Punctuate(nsn)
		default:
			s = e.m.Format(e.g.Split(md, nsn), 1+c.Intn(3))
		}
		if c.P(8) {
			s += c.Ext()
		}
		if c.P(8) { // x characters and slashes where they may or may not belong
			for k := 1 + c.Intn(2); k > 0; k-- {
				i := c.Intn(len(s) + 1)
				s = s[:i] + gen.Pick(c.R, []string{"x", "X", "xx", "xX", "xxx", "/", " xx ", " x", "/ ", "0xx", md.NatPrefix + "xx " + c.Digits(2) + " "}) + s[i:]
			}
			c.Tag("x-or-slash-inserted")
		}
		n, err := e.m.Parse(s, reg, true)
		if err != model.OK {
			c.Tag("unparsable")
			return
		}
		cand := s
		if c.P(12) { // another text for the same number
			i := c.Intn(len(cand) + 1)
			cand = cand[:i] + gen.Pick(c.R, []string{"x", "X", "xx", "xX", "/", "//", " xx", "-", " ", c.Digits(1)}) + cand[i:]
			if c.P(3) {
				cand = cand[c.Intn(len(cand)):]
			}
			c.Tag("candidate-edited")
		}
		if c.P(12) { // a number that was not parsed from the text
			n.Src = gen.Pick(c.R, []int{0, 1, 5, 10, 20})
			if c.P(3) {
				n.Raw, n.HasRaw = "", false
			} else if c.P(2) {
				n.Raw, n.HasRaw = nsn, true
			}
			if c.P(4) {
				n.Ext = c.Digits(1 + c.Intn(4))
			}
			c.Tag("number-edited")
		}
		if c.P(12) { // candidate text unrelated to the number
			cand = gen.Pick(c.R, []string{"", "x", "xx", nsn, s + s, c.Mutate(s), c.Hostile(), "/", "//"})
			c.Tag("odd-candidate")
		}
		p := toPB(n)
		c.Eval()
		c.Seen(show(n), cand)
		prev := true
		for l := 0; l < 4; l++ {
			c.Note("%s.Verify(%s, %q)", lenNames[l], show(n), cand)
			got, want := phonenumbers.Leniency(l).Verify(p, cand), e.m.Verify(l, n, cand)
			if got != want {
				c.Fail("verify|"+show(n)+"|"+cand+"|"+lenNames[l], "%s.Verify(%s, %q) = %v, want %v", lenNames[l], show(n), cand, got, want)
			}
			if got {
				c.Tag("accepted:" + lenNames[l])
				if !prev && cand == s {
					c.Fail("nested|"+show(n)+"|"+cand, "%s accepts %q (%s) but a more lenient level does not", lenNames[l], cand, show(n))
				}
			} else {
				c.Tag("rejected:" + lenNames[l])
			}
			if l < 2 { // both grouping levels are compared with VALID
				prev = got
			}
		}
		if c.Index < 40 {
			c.Sample("candidate", map[string]any{"number": show(n), "text": cand, "valid_level": fmt.Sprint(prev)})
		}
	})
}
