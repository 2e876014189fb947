package model

import (
	"strings"
	"unicode"
)

// Typist is the specification of the as-you-type formatter.
type Typist struct {
	m         *M
	def, cur  *Meta
	region    string
	typed     []rune // everything typed
	digits    string // typed digits (and leading plus) in ASCII
	prefix    string
	ndd       string
	nat       string
	can       bool
	manual    bool
	complete  bool
	wantCC    bool
	space     bool
	pattern   string
	tmpl      []rune
	filled    int
	formats   []*Fmt
	remTyped  int
	remDigits int
	out       string
}

const hole = '\u2008'

var noMeta = &Meta{ID: "<ignored>", IntlPrefix: "NA"}

// NewTypist starts a formatter for a region.
func (m *M) NewTypist(region string) *Typist {
	t := &Typist{m: m, region: region}
	t.def = t.metaOf(region)
	t.Clear()
	return t
}

func (t *Typist) metaOf(region string) *Meta {
	cc := 0
	if md := t.m.region(region); md != nil {
		cc = int(md.CC)
	}
	if md := t.m.region(t.m.MainRegion(cc)); md != nil {
		return md
	}
	return noMeta
}

// Clear resets everything typed so far.
func (t *Typist) Clear() {
	*t = Typist{m: t.m, region: t.region, def: t.def, cur: t.def, can: true}
}

// Able reports whether the formatter is still formatting.
func (t *Typist) Able() bool { return t.can }

// Type one character.
func (t *Typist) Type(c rune, remember bool) string {
	t.out = t.step(c, remember)
	return t.out
}

func (t *Typist) raw() string { return string(t.typed) }

func (t *Typist) step(c rune, remember bool) string {
	t.typed = append(t.typed, c)
	if remember {
		t.remTyped = len(t.typed)
	}
	d, isDigit := Digit(c)
	if isDigit || len(t.typed) == 1 && isPlus(c) {
		if isDigit {
			t.digits += string(d)
			t.nat += string(d)
		} else {
			d = '+'
			t.digits += "+"
		}
		if remember {
			t.remDigits = len(t.digits)
		}
	} else {
		t.can, t.manual = false, true
	}
	if !t.can {
		if t.manual {
			return t.raw()
		}
		if t.takeIDD() {
			if t.takeCC() {
				return t.restart()
			}
		} else if t.longerNDD() {
			t.prefix += " "
			return t.restart()
		}
		return t.raw()
	}
	switch n := len(t.digits); {
	case n <= 2:
		return t.raw()
	case n == 3:
		if !t.takeIDD() {
			t.ndd = t.takeNDD()
			return t.pick()
		}
		t.wantCC = true
	}
	if t.wantCC {
		if t.takeCC() {
			t.wantCC = false
		}
		return t.prefix + t.nat
	}
	if len(t.formats) == 0 {
		return t.pick()
	}
	partial := t.fill(rune(d))
	if s := t.finished(); s != "" {
		return s
	}
	t.narrow()
	if t.newTemplate() {
		return t.refill()
	}
	if t.can {
		return t.join(partial)
	}
	return t.raw()
}

func (t *Typist) restart() string {
	t.can, t.wantCC = true, false
	t.formats, t.tmpl, t.filled, t.pattern = nil, nil, 0, ""
	return t.pick()
}

func (t *Typist) longerNDD() bool {
	if t.ndd != "" {
		t.nat = t.ndd + t.nat
		t.prefix = t.prefix[:strings.LastIndex(t.prefix, t.ndd)]
	}
	p := t.takeNDD()
	if p == t.ndd {
		return false
	}
	if t.ndd != "" { // what is put back next time is what was taken last
		t.ndd = p
	}
	return true
}

func (t *Typist) takeNDD() string {
	k := 0
	if t.cur.CC == 1 && len(t.nat) >= 2 && t.nat[0] == '1' && t.nat[1] != '0' && t.nat[1] != '1' {
		k = 1
		t.prefix += "1 "
		t.complete = true
	} else if p := t.cur.NPParsing; p != "" {
		if g := at0(p, t.nat); g != nil && g[1] > 0 {
			k = g[1]
			t.complete = true
			t.prefix += t.nat[:k]
		}
	}
	s := t.nat[:k]
	t.nat = t.nat[k:]
	return s
}

func (t *Typist) takeIDD() bool {
	g := at0(`\+|`+t.cur.IntlPrefix, t.digits)
	if g == nil {
		return false
	}
	t.complete = true
	t.nat, t.prefix = t.digits[g[1]:], t.digits[:g[1]]
	if t.digits[0] != '+' {
		t.prefix += " "
	}
	return true
}

func (t *Typist) takeCC() bool {
	cc, rest := t.m.takeCC(t.nat)
	if cc == 0 {
		return false
	}
	t.nat = rest
	if r := t.m.MainRegion(cc); r == "001" {
		t.cur = t.m.NonGeo[cc]
	} else if r != t.region {
		t.cur = t.metaOf(r)
	}
	t.prefix += itoa(cc) + " "
	t.ndd = ""
	return true
}

func (t *Typist) pick() string {
	if len(t.nat) < 3 {
		return t.join(t.nat)
	}
	fs := t.cur.Formats
	if t.complete && t.ndd == "" && len(t.cur.IntlFormats) > 0 {
		fs = t.cur.IntlFormats
	}
	for _, f := range fs {
		if !f.NPOptional {
			only := firstGroupOnly(f.NPRule)
			if t.ndd != "" && only && f.CCRule == "" {
				continue
			}
			if t.ndd == "" && !t.complete && !only {
				continue
			}
		}
		if whole(`[`+punct+`]*\$1[`+punct+`]*(?:\$[0-9][`+punct+`]*)*`, f.Format) {
			t.formats = append(t.formats, f)
		}
	}
	t.narrow()
	if s := t.finished(); s != "" {
		return s
	}
	if t.newTemplate() {
		return t.refill()
	}
	return t.raw()
}

func (t *Typist) narrow() {
	var keep []*Fmt
	for _, f := range t.formats {
		if k := len(f.Leading); k == 0 || at0(f.Leading[min(len(t.nat)-3, k-1)], t.nat) != nil {
			keep = append(keep, f)
		}
	}
	t.formats = keep
}

func spaced(f *Fmt) bool { return strings.ContainsAny(f.NPRule, "- ") }

// finished: the digits typed are exactly one complete format.
func (t *Typist) finished() string {
	for _, f := range t.formats {
		if whole(f.Pattern, t.nat) {
			t.space = spaced(f)
			full := t.join(replaceAll(`\A(?:`+f.Pattern+`)\z`, t.nat, f.Format))
			if Diallable(full) == t.digits {
				return full
			}
		}
	}
	return ""
}

func (t *Typist) newTemplate() bool {
	for len(t.formats) > 0 {
		f := t.formats[0]
		if t.pattern == f.Pattern {
			return false
		}
		t.tmpl = nil
		nines := rx(f.Pattern).FindString("999999999999999")
		if len(nines) >= len(t.nat) {
			s := replaceAll(f.Pattern, nines, f.Format)
			if s != "" {
				t.tmpl = []rune(strings.ReplaceAll(s, "9", string(hole)))
				t.pattern = f.Pattern
				t.space = spaced(f)
				t.filled = 0
				return true
			}
		}
		t.formats = t.formats[1:]
	}
	t.can = false
	return false
}

func (t *Typist) refill() string {
	if t.nat == "" {
		return t.prefix
	}
	s := ""
	for _, c := range t.nat {
		s = t.fill(c)
	}
	if t.can {
		return t.join(s)
	}
	return t.raw()
}

func (t *Typist) fill(c rune) string {
	for i := t.filled; i < len(t.tmpl); i++ {
		if t.tmpl[i] == hole {
			t.tmpl[i] = c
			t.filled = i
			return string(t.tmpl[:i+1])
		}
	}
	if len(t.formats) == 1 {
		t.can = false
	}
	t.pattern = ""
	return t.raw()
}

func (t *Typist) join(s string) string {
	if t.space && t.prefix != "" && !strings.HasSuffix(t.prefix, " ") {
		return t.prefix + " " + s
	}
	return t.prefix + s
}

// Remembered position.
func (t *Typist) Remembered() int {
	if !t.can {
		return t.remTyped
	}
	a, o := []rune(t.digits), []rune(t.out)
	i, j := 0, 0
	for i < t.remDigits && j < len(o) {
		if a[i] == o[j] {
			i++
		}
		j++
	}
	return j
}

var _ = unicode.Nd
