package main

import (
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/timezone"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() {
	checks["C15"] = checkCarrier
	checks["C16"] = checkGeo
	checks["C17"] = checkZones
}

var oddLangs = []string{"", "xx", "EN", "en-US", "zh_Hant", "../en", "en/../en", "\x00", "e n", "english", "zh-Hant", "pt_BR", "data", ".",
	"aa", "und", "zxx", "x-foo", "qaa", "mul", "tlh", "ha", "sr-Latn", "es-419", "de-CH", "yue", "iw", "i-klingon", "en_", "root"}

// oddLang is a language tag that may have no data of its own.
func oddLang(r gen.R) string {
	if r.P(3) {
		b := make([]byte, 2+r.Intn(2))
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return string(b)
	}
	return gen.Pick(r, oddLangs)
}

func (e *env) langs(dir string) []string {
	fs, err := os.ReadDir(filepath.Join(e.Repo, dir))
	if err != nil {
		panic(err)
	}
	var out []string
	for _, f := range fs {
		if l, ok := strings.CutSuffix(f.Name(), ".txt.gz"); ok {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return out
}

func keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// prefixed builds a number around an entry of a prefix table.
func (e *env) prefixed(c *core.Case, prefixes []string) *model.Num {
	p := gen.Pick(c.R, prefixes)
	switch c.Intn(8) {
	case 0: // neighbour of an entry
		b := []byte(p)
		b[len(b)-1] = byte('0' + c.Intn(10))
		p = string(b)
	case 1:
		p = p[:len(p)-1]
	}
	for i := 1; i <= 3 && i <= len(p); i++ {
		cc := 0
		for _, d := range p[:i] {
			cc = cc*10 + int(d-'0')
		}
		if _, ok := e.m.Codes[cc]; !ok {
			continue
		}
		rest := p[i:]
		md := e.m.RegionMeta(e.m.MainRegion(cc))
		if md == nil {
			md = &model.Meta{CC: int32(cc)}
		}
		// complete to a plausible length
		n := 4 + c.Intn(9)
		if md.General != nil && len(md.General.Lengths) > 0 && !c.P(4) {
			n = int(gen.Pick(c.R, md.General.Lengths))
		}
		if n > len(rest) {
			rest += c.Digits(n - len(rest))
		}
		if rest == "" {
			rest = "1"
		}
		return e.g.Split(&model.Meta{CC: int32(cc)}, rest)
	}
	return e.g.Num(c.R)
}

func (e *env) lookupNumber(c *core.Case, prefixes []string) *model.Num {
	var n *model.Num
	if c.P(4) || len(prefixes) == 0 {
		n = e.g.Num(c.R)
	} else {
		n = e.prefixed(c, prefixes)
	}
	if n.NN == 0 { // such numbers may format to their raw input
		n.NN = 1
	}
	if n.CC <= 0 { // a number needs a calling code: zero would fall away
		n.CC = int32(gen.Pick(c.R, []int{999, 210, 1999}))
	}
	return n
}

// C15: carrier names.
func checkCarrier(e *env) {
	e.Rule = "distinct (number, language) pairs whose carrier answers were compared; every entry of every language table is visited by its own stream"
	langs := e.langs("carrier/data")
	var tabs [][]string
	for _, l := range langs {
		tabs = append(tabs, keys(e.t.CarrierTable(l)))
	}
	one := func(c *core.Case, n *model.Num, lang string) {
		p := toPB(n)
		c.Note("carrier of %s in %q", show(n), lang)
		c.Eval()
		c.Seen(show(n), lang)
		cmp := func(what, got string, err error, want string) {
			if err != nil || got != want {
				c.Fail(what+"|"+show(n)+"|"+lang, "carrier.%s(%s, %q) = %q, %v; want %q", what, show(n), lang, got, err, want)
			}
		}
		g, err := carrier.GetNameForValidNumber(p, lang)
		w := e.t.CarrierValid(n, lang)
		cmp("GetNameForValidNumber", g, err, w)
		if w != "" {
			c.Tag("named")
		}
		g, err = carrier.GetNameForNumber(p, lang)
		w2 := e.t.Carrier(n, lang)
		cmp("GetNameForNumber", g, err, w2)
		if w != w2 {
			c.Tag("hidden-by-type")
		}
		g, err = carrier.GetSafeDisplayName(p, lang)
		w3 := e.t.CarrierSafe(n, lang)
		cmp("GetSafeDisplayName", g, err, w3)
		if w2 != w3 {
			c.Tag("hidden-by-portability")
		}
		if c.Index < 30 && w != "" {
			c.Sample("carrier", map[string]any{"number": show(n), "lang": lang, "name": w, "safe": w3})
		}
	}
	for i, l := range langs {
		e.Run("entries-"+l, len(tabs[i]), func(c *core.Case) {
			d := tabs[i][c.Index]
			one(c, e.complete(c, d), l)
		})
	}
	e.Run("numbers", e.N(150000), func(c *core.Case) {
		k := c.Intn(len(langs))
		lang := langs[k]
		if c.P(10) {
			lang = oddLang(c.R)
		}
		one(c, e.lookupNumber(c, tabs[k]), lang)
	})
}

// complete turns a table prefix into a number by appending digits.
func (e *env) complete(c *core.Case, d string) *model.Num {
	for i := 1; i <= 3 && i <= len(d); i++ {
		cc := 0
		for _, x := range d[:i] {
			cc = cc*10 + int(x-'0')
		}
		if _, ok := e.m.Codes[cc]; ok {
			rest := d[i:] + c.Digits(1+c.Intn(6))
			return e.g.Split(&model.Meta{CC: int32(cc)}, rest)
		}
	}
	return e.g.Num(c.R)
}

// C16: descriptions.
func checkGeo(e *env) {
	e.Rule = "distinct (number, language, user region) triples whose descriptions were compared; every entry of every language table is visited by its own stream"
	langs := e.langs("geocoding/data")
	var tabs [][]string
	for _, l := range langs {
		tabs = append(tabs, keys(e.t.GeoTable(l)))
	}
	one := func(c *core.Case, n *model.Num, lang string) {
		p := toPB(n)
		user := e.g.RegionFor(c.R, n)
		if c.P(2) {
			user = e.m.RegionOf(n)
		}
		c.Note("description of %s in %q for %q", show(n), lang, user)
		c.Eval()
		c.Seen(show(n), lang, user)
		cmp := func(what, got string, err error, want string) {
			if err != nil || got != want {
				c.Fail(what+"|"+show(n)+"|"+lang+"|"+user, "geocoding.%s(%s, %q, %q) = %q, %v; want %q", what, show(n), lang, user, got, err, want)
			}
		}
		g, err := geocoding.GetDescriptionForValidNumber(p, lang)
		w := e.t.GeoValid(n, lang)
		cmp("GetDescriptionForValidNumber", g, err, w)
		g, err = geocoding.GetDescriptionForNumber(p, lang)
		w2 := e.t.Geo(n, lang)
		cmp("GetDescriptionForNumber", g, err, w2)
		g, err = geocoding.GetDescriptionForValidNumberForUserRegion(p, lang, user)
		cmp("GetDescriptionForValidNumberForUserRegion", g, err, e.t.GeoValidUser(n, lang, user))
		g, err = geocoding.GetDescriptionForNumberForUserRegion(p, lang, user)
		cmp("GetDescriptionForNumberForUserRegion", g, err, e.t.GeoUser(n, lang, user))
		switch {
		case w2 == "":
			c.Tag("no-description")
		case w2 == w:
			c.Tag("described")
		default:
			c.Tag("country-only")
		}
		if c.Index < 30 && w != "" {
			c.Sample("place", map[string]any{"number": show(n), "lang": lang, "description": w})
		}
	}
	for i, l := range langs {
		n := len(tabs[i])
		if !e.Thorough() {
			n = min(n, 12000)
		}
		e.Run("entries-"+l, n, func(c *core.Case) {
			k := c.Index
			if n < len(tabs[i]) {
				k = c.Intn(len(tabs[i]))
			}
			one(c, e.complete(c, tabs[i][k]), l)
		})
	}
	e.Run("numbers", e.N(80000), func(c *core.Case) {
		k := c.Intn(len(langs))
		lang := langs[k]
		if c.P(8) {
			lang = oddLang(c.R)
		}
		n := e.lookupNumber(c, tabs[k])
		if c.P(10) { // mobile numbers that carry the token before the area code
			n = e.g.Split(&model.Meta{CC: 54}, "9"+gen.Pick(c.R, []string{"11", "221", "351", "2966", "3541", "15"})+c.Digits(6+c.Intn(3)))
			c.Tag("mobile-token")
		}
		one(c, n, lang)
	})
}

// C17: time zones.
func checkZones(e *env) {
	e.Rule = "distinct numbers whose time zones were compared; every entry of the table is visited by its own stream"
	tab := keys(e.t.TZ)
	one := func(c *core.Case, n *model.Num) {
		p := toPB(n)
		c.Note("time zones of %s", show(n))
		c.Eval()
		c.Seen(show(n))
		g, err := timezone.GetTimeZonesForNumber(p)
		w := e.t.Zones(n)
		if err != nil || !slices.Equal(g, w) || len(g) == 0 {
			c.Fail("zones|"+show(n), "GetTimeZonesForNumber(%s) = %v, %v; want %v", show(n), g, err, w)
		}
		g, err = timezone.GetTimeZonesForGeographicalNumber(p)
		w2 := e.t.ZonesGeo(n)
		if err != nil || !slices.Equal(g, w2) || len(g) == 0 {
			c.Fail("zonesgeo|"+show(n), "GetTimeZonesForGeographicalNumber(%s) = %v, %v; want %v", show(n), g, err, w2)
		}
		switch {
		case len(w) == 1 && w[0] == model.UnknownZone:
			c.Tag("unknown-zone")
		case len(w) == 1:
			c.Tag("one-zone")
		default:
			c.Tag("several-zones")
		}
		if c.Index < 20 {
			c.Sample("zones", map[string]any{"number": show(n), "zones": w, "as_geographical": w2})
		}
	}
	e.Run("entries", 8*len(tab), func(c *core.Case) { one(c, e.complete(c, tab[c.Index%len(tab)])) })
	e.Run("numbers", e.N(200000), func(c *core.Case) { one(c, e.lookupNumber(c, tab)) })
}
