package main

import (
	"regexp"

	"github.com/nyaruka/phonenumbers/v2"

	"verif/core"
	"verif/model"
)

func init() { checks["C03"] = checkRoundTrip }

func bare(n *model.Num) *model.Num {
	return &model.Num{CC: n.CC, NN: n.NN, ILZ: n.ILZ, NLZ: n.NLZ, HasNLZ: n.HasNLZ, Ext: n.Ext}
}

var e164Shape = regexp.MustCompile(`\A\+[1-9][0-9]{2,20}\z`)

// C03: what is formatted internationally parses back to the same number.
func checkRoundTrip(e *env) {
	e.Rule = "distinct numbers formatted internationally and parsed back under a random default region; numbers whose own digits start with a strippable national prefix are counted as ambiguous and not judged"
	round := func(c *core.Case, p *pb) {
		n := fromPB(p)
		if _, ok := e.m.Codes[int(n.CC)]; !ok {
			return
		}
		if e.m.Stripped(int(n.CC), n.NSN()) != n.NSN() {
			c.Tag("ambiguous")
			return
		}
		c.Seen(show(n))
		for _, f := range []int{model.E164, model.INTERNATIONAL, model.RFC3966} {
			if f == model.INTERNATIONAL && len(n.Ext) > 9 || len(n.Ext) > 20 {
				c.Tag("extension-too-long-for-label")
				continue
			}
			c.Note("Format(%s, %s)", show(n), styleNames[f])
			t := phonenumbers.Format(p, phonenumbers.PhoneNumberFormat(f))
			dr := e.g.AnyRegion(c.R)
			c.Note("Parse(%q, %q)", t, dr)
			q, err := phonenumbers.Parse(t, dr)
			w := bare(n)
			if f == model.E164 {
				w.Ext = ""
				if !e164Shape.MatchString(t) {
					c.Fail("shape|"+show(n), "E164 text of %s is %q", show(n), t)
				}
			}
			c.Eval()
			if err != nil || !same(fromPB(q), w) {
				c.Fail("round|"+show(n)+"|"+styleNames[f], "%s is written %q (%s), which parses in region %q to %s (%v)", show(n), t, styleNames[f], dr, showPB(q), err)
				continue
			}
			if m := phonenumbers.IsNumberMatchWithOneNumber(p, t); f != model.E164 && m != phonenumbers.EXACT_MATCH {
				c.Fail("match|"+show(n)+"|"+styleNames[f], "%s does not match its own text %q: %d", show(n), t, m)
			}
			// and formatting again gives the same text
			if u := phonenumbers.Format(q, phonenumbers.PhoneNumberFormat(f)); u != t {
				c.Fail("stable|"+show(n)+"|"+styleNames[f], "%q parses to a number written %q", t, u)
			}
			c.Tag("round-trip:" + styleNames[f])
			if n.Ext != "" && f != model.E164 {
				c.Tag("round-trip-with-extension")
			}
			if n.ILZ {
				c.Tag("round-trip-with-leading-zero")
			}
			if c.Index < 60 {
				c.Sample(styleNames[f], map[string]any{"number": show(n), "text": t, "parsed_in": dr})
			}
		}
	}
	e.Run("parsed", e.N(250000), func(c *core.Case) {
		s, reg := e.g.Entry(c.R)
		if p, err := phonenumbers.Parse(s, reg); err == nil {
			round(c, p)
		}
	})
	e.Run("built", e.N(150000), func(c *core.Case) {
		md := e.g.Meta(c.R)
		nsn := e.g.NSN(c.R, md)
		if len(nsn) < 2 || len(nsn) > 17 || onlyDigits(nsn) != nsn {
			return
		}
		n := e.g.Split(md, nsn)
		if n.NN == 0 {
			return
		}
		if c.P(4) {
			n.Ext = c.Digits(1 + c.Intn(9))
		}
		round(c, toPB(n))
	})
}
