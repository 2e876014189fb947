package main

import (
	"strings"

	"github.com/nyaruka/phonenumbers/v2"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() { checks["C11"] = checkTyping }

func (e *env) keystrokes(c *core.Case) (string, string) {
	reg := e.g.Region(c.R)
	md := e.m.RegionMeta(reg)
	if c.P(5) {
		md = e.g.Meta(c.R)
	}
	nsn := e.g.NSN(c.R, md)
	var s string
	switch c.Intn(12) {
	case 0, 1, 2:
		s = "+" + itoa(int(md.CC)) + nsn
	case 3, 4:
		s = md.NatPrefix + nsn
	case 5:
		s = nsn
	case 6:
		h := e.m.RegionMeta(reg)
		s = c.FromPattern(h.IntlPrefix) + itoa(int(md.CC)) + nsn
	case 7:
		s = itoa(int(md.CC)) + nsn
	case 8:
		s = c.FromPattern(md.NPParsing) + nsn
	case 9:
		s = e.m.Format(e.g.Split(md, nsn), c.Intn(3))
	case 10:
		s = c.Punctuate(nsn)
	default:
		s, _ = e.g.Entry(c.R)
	}
	switch c.Intn(14) {
	case 0:
		s = c.ForeignDigits(s)
	case 1:
		s = c.Mutate(s)
	case 2:
		s += c.Digits(1 + c.Intn(12))
	case 3:
		s = "0" + s
	}
	if c.P(10) {
		reg = gen.Pick(c.R, gen.OddRegions)
	}
	return s, reg
}

// C11: as-you-type formatting.
func checkTyping(e *env) {
	e.Rule = "distinct (region, keystroke sequence) histories; every keystroke's output and remembered position was compared"
	e.Run("typing", e.N(150000), func(c *core.Case) {
		var f *phonenumbers.AsYouTypeFormatter
		var t *model.Typist
		region := ""
		rounds := 1
		if c.P(4) {
			rounds = 2 + c.Intn(2)
		}
		var log strings.Builder
		for r := 0; r < rounds; r++ {
			s, reg := e.keystrokes(c)
			if f == nil {
				region = reg
				f = phonenumbers.GetAsYouTypeFormatter(reg)
				t = e.m.NewTypist(reg)
			} else {
				f.Clear()
				t.Clear()
				log.WriteString("<clear>")
				c.Tag("clear")
				if c.P(4) && f.GetRememberedPosition() != t.Remembered() {
					c.Fail("aytf-pos|"+region+"|"+log.String(), "after Clear remembered position %d, want %d", f.GetRememberedPosition(), t.Remembered())
				}
			}
			mark := -1
			if c.P(3) {
				mark = c.Intn(len(s) + 1)
			}
			k := 0
			formatted := false
			for i, ch := range s {
				rem := i == mark
				log.WriteRune(ch)
				if rem {
					log.WriteString("<mark>")
				}
				c.Note("typing %q in %q", log.String(), region)
				var got string
				if rem {
					got = f.InputDigitAndRememberPosition(ch)
				} else {
					got = f.InputDigit(ch)
				}
				want := t.Type(ch, rem)
				c.Eval()
				wide := strings.HasPrefix(typedOf(log.String()), "\uFF0B") // a full-width plus may be shown as typed
				if wide {
					c.Tag("full-width-plus")
				}
				if got != want && !(wide && got == typedOf(log.String())) {
					c.Fail("aytf|"+region+"|"+log.String(), "typing %q in region %q shows %q, want %q", log.String(), region, got, want)
					return
				}
				if mark >= 0 && i >= mark && !wide {
					if g, w := f.GetRememberedPosition(), t.Remembered(); g != w {
						c.Fail("aytf-pos|"+region+"|"+log.String(), "typing %q in region %q: remembered position %d in %q, want %d", log.String(), region, g, got, w)
						return
					}
					c.Tag("position-checked")
				}
				// what is shown never loses what was typed
				if typed, shown := model.DigitsOnly(log2(log.String())), model.DigitsOnly(got); !strings.HasSuffix(shown, typed) && !e.subseq(typed, shown) {
					c.Fail("aytf-digits|"+region+"|"+log.String(), "typing %q in region %q shows %q, which drops typed digits", log.String(), region, got)
					return
				}
				if got != typedOf(log.String()) {
					formatted = true
				}
				if k++; k > 80 {
					break
				}
			}
			if formatted {
				c.Tag("formatted")
			} else {
				c.Tag("left-as-typed")
			}
		}
		c.Seen(region, log.String())
		if c.Index < 30 {
			c.Sample("typed", map[string]any{"region": region, "keys": log.String()})
		}
	})
}

func typedOf(log string) string {
	if i := strings.LastIndex(log, "<clear>"); i >= 0 {
		log = log[i+7:]
	}
	return strings.ReplaceAll(log, "<mark>", "")
}

func log2(log string) string { return typedOf(log) }

func (e *env) subseq(a, b string) bool {
	i := 0
	for j := 0; i < len(a) && j < len(b); j++ {
		if a[i] == b[j] {
			i++
		}
	}
	return i == len(a)
}
