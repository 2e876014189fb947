// Package gen produces workloads from the metadata and from hostile alphabets.
package gen

import (
	"math/rand"
	"regexp/syntax"
	"strings"
	"sync"

	"verif/model"
)

// R is the random source of one case.
type R struct{ *rand.Rand }

// New returns the random source of case i of a stream.
func New(seed int64, stream string, i int) R {
	h := uint64(14695981039346656037)
	for _, b := range []byte(stream) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	h ^= uint64(seed) * 0x9E3779B97F4A7C15
	h += uint64(i) * 0xD1B54A32D192ED03
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return R{rand.New(rand.NewSource(int64(h)))}
}

// Pick an element.
func Pick[T any](r R, xs []T) T { return xs[r.Intn(len(xs))] }

// P is true with probability 1/n.
func (r R) P(n int) bool { return r.Intn(n) == 0 }

// ---- strings from patterns --------------------------------------------------

var parsed sync.Map

func parse(p string) *syntax.Regexp {
	if v, ok := parsed.Load(p); ok {
		return v.(*syntax.Regexp)
	}
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		re, _ = syntax.Parse("", syntax.Perl)
	}
	parsed.Store(p, re)
	return re
}

// FromPattern returns a random string matched by p.
func (r R) FromPattern(p string) string {
	var b strings.Builder
	r.emit(parse(p), &b, 0)
	return b.String()
}

func (r R) emit(re *syntax.Regexp, b *strings.Builder, depth int) {
	rep := func(lo, hi int) {
		n := lo
		if hi < 0 {
			n += r.Intn(4)
		} else if hi > lo {
			n += r.Intn(hi - lo + 1)
		}
		for i := 0; i < n; i++ {
			r.emit(re.Sub[0], b, depth+1)
		}
	}
	switch re.Op {
	case syntax.OpLiteral:
		for _, c := range re.Rune {
			b.WriteRune(c)
		}
	case syntax.OpCharClass:
		n := 0
		for i := 0; i+1 < len(re.Rune); i += 2 {
			n += int(re.Rune[i+1]-re.Rune[i]) + 1
		}
		if n == 0 {
			return
		}
		k := r.Intn(n)
		for i := 0; i+1 < len(re.Rune); i += 2 {
			w := int(re.Rune[i+1]-re.Rune[i]) + 1
			if k < w {
				b.WriteRune(re.Rune[i] + rune(k))
				return
			}
			k -= w
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteByte(byte('0' + r.Intn(10)))
	case syntax.OpCapture:
		r.emit(re.Sub[0], b, depth+1)
	case syntax.OpConcat:
		for _, s := range re.Sub {
			r.emit(s, b, depth+1)
		}
	case syntax.OpAlternate:
		r.emit(re.Sub[r.Intn(len(re.Sub))], b, depth+1)
	case syntax.OpQuest:
		rep(0, 1)
	case syntax.OpStar:
		rep(0, -1)
	case syntax.OpPlus:
		rep(1, -1)
	case syntax.OpRepeat:
		rep(re.Min, re.Max)
	}
}

// Digits returns n random digits.
func (r R) Digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

// ---- workload generator bound to a model ------------------------------------

// G generates numbers for the tables of a model.
type G struct {
	M       *model.M
	Regions []string
	Codes   []int
	NonGeo  []int
	shorts  []string
}

// NewG builds a generator.
func NewG(m *model.M) *G {
	g := &G{M: m, Regions: m.SupportedRegions(), Codes: m.SupportedCodes(), NonGeo: m.NonGeoCodes()}
	for _, r := range g.Regions {
		if m.Short[r] != nil {
			g.shorts = append(g.shorts, r)
		}
	}
	return g
}

// OddRegions are region arguments that are not supported regions.
var OddRegions = []string{"", "ZZ", "001", "XX", "us", "U", "USA", "\x00", "zz", "Z\xff", "ÅX"}

// Region picks a supported region.
func (g *G) Region(r R) string { return Pick(r, g.Regions) }

// AnyRegion picks a region argument, mostly supported.
func (g *G) AnyRegion(r R) string {
	if r.P(8) {
		return Pick(r, OddRegions)
	}
	return g.Region(r)
}

// Meta picks one territory entry (geographic or not).
func (g *G) Meta(r R) *model.Meta {
	if len(g.NonGeo) > 0 && r.P(14) {
		if md := g.M.NonGeo[Pick(r, g.NonGeo)]; md != nil {
			return md
		}
	}
	return g.M.Region[g.Region(r)]
}

var descOrder = []int{1, 2, 3, 4, 5, 6, 7, 8, 21, 24, 25, 28}

// NSN generates a national significant number for a territory: usually valid for
// some type, sometimes a near miss.
func (g *G) NSN(r R, md *model.Meta) string {
	var ds []*model.Desc
	slots := md.DescSlots()
	for _, k := range descOrder {
		if d := *slots[k]; d != nil && d.Pattern != "" && d.Pattern != "NA" {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return r.Digits(4 + r.Intn(10))
	}
	d := Pick(r, ds)
	var s string
	switch r.Intn(12) {
	case 0: // formatting rule driven
		fs := md.Formats
		if len(md.IntlFormats) > 0 && r.P(2) {
			fs = md.IntlFormats
		}
		if len(fs) > 0 {
			f := Pick(r, fs)
			s = r.FromPattern(f.Pattern)
			if k := len(f.Leading); k > 0 {
				l := r.FromPattern(f.Leading[k-1])
				if len(l) <= len(s) {
					s = l + s[len(l):]
				}
			}
			break
		}
		fallthrough
	case 1:
		if d.Example != "" {
			s = d.Example
			break
		}
		fallthrough
	default:
		s = r.FromPattern(d.Pattern)
		// most patterns fix the length themselves; fit the others
		for i := 0; i < 3 && len(d.Lengths) > 0 && d.Lengths[0] > 0 && !fits(d.Lengths, len(s)); i++ {
			s = r.FromPattern(d.Pattern)
		}
	}
	return g.nearMiss(r, md, s)
}

func fits(ls []int32, n int) bool {
	for _, l := range ls {
		if int(l) == n {
			return true
		}
	}
	return false
}

func (g *G) nearMiss(r R, md *model.Meta, s string) string {
	switch r.Intn(16) {
	case 0:
		if len(s) > 1 {
			s = s[:len(s)-1]
		}
	case 1:
		s += r.Digits(1)
	case 2:
		if len(s) > 0 {
			b := []byte(s)
			b[r.Intn(len(b))] = byte('0' + r.Intn(10))
			s = string(b)
		}
	case 3:
		if md.General != nil && len(md.General.Lengths) > 0 {
			n := int(Pick(r, md.General.Lengths)) + r.Intn(3) - 1
			if n > 0 && n < 20 {
				if n <= len(s) {
					s = s[:n]
				} else {
					s += r.Digits(n - len(s))
				}
			}
		}
	case 4:
		if md.General != nil && len(md.General.Local) > 0 {
			n := int(Pick(r, md.General.Local))
			if n > 0 && n < len(s) {
				s = s[len(s)-n:]
			}
		}
	case 5:
		s = r.Digits(1 + r.Intn(18))
	case 6:
		s = strings.Repeat("0", 1+r.Intn(3)) + s
	}
	return s
}

// Short picks a region with short numbers and a short number string for it.
func (g *G) Short(r R) (string, string) {
	reg := Pick(r, g.shorts)
	md := g.M.Short[reg]
	var ds []*model.Desc
	slots := md.DescSlots()
	for _, k := range []int{1, 4, 5, 27, 29, 30, 31, 33} {
		if d := *slots[k]; d != nil && d.Pattern != "" && d.Pattern != "NA" {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return reg, r.Digits(3)
	}
	s := r.FromPattern(Pick(r, ds).Pattern)
	return reg, g.nearMiss(r, md, s)
}

// ---- renderings -------------------------------------------------------------

var digitAlphabets = []rune{0x0660, 0x06F0, 0xFF10, 0x0966, 0x0E50, 0x1D7CE, 0x1D7D8, 0x1E950, 0x104A0, 0x07C0}

// ForeignDigits rewrites some digits with another decimal alphabet.
func (r R) ForeignDigits(s string) string {
	z := Pick(r, digitAlphabets)
	all := r.P(2)
	var b strings.Builder
	for _, c := range s {
		if c >= '0' && c <= '9' && (all || r.P(3)) {
			c = z + (c - '0')
		}
		b.WriteRune(c)
	}
	return b.String()
}

var seps = []string{"-", " ", ".", "/", "(", ")", "[", "]", "~", "x", "\u2010", "\u2015", "\u2212", "\u30FC", "\uFF0D", "\uFF0E", "\uFF0F", "\u00A0", "\u00AD", "\u200B", "\u2060", "\u3000", "\uFF08", "\uFF09", "\uFF3B", "\uFF3D", "\u2053", "\u223C", "\uFF5E", "*", "--", " - "}

// Punctuate sprinkles separators into s.
func (r R) Punctuate(s string) string {
	var b strings.Builder
	common := r.P(2)
	for i, c := range s {
		if i > 0 && r.P(4) {
			if common {
				b.WriteString(Pick(r, seps[:4]))
			} else {
				b.WriteString(Pick(r, seps))
			}
		}
		b.WriteRune(c)
	}
	return b.String()
}

var extLabels = []string{";ext=", " ext. ", " ext ", "ext", " extn ", " extension ", " extensión ", " extensio\u0301n ", "x", " x", "X", " #", "#", "~", "\uFF5E", " int ", "INT", "\uFF49\uFF4E\uFF54", "\uFF45\uFF58\uFF54\uFF4E", "\uFF58", "\uFF03", " доб ", " ДОБ. ", " anexo ", ",", ",,", ", ", ";", " ; ", ",,,", "- ", " - ", "\u00A0ext:", " xt\uFF0E ", "\text ", ",ext,", " exten "}

// Ext renders an extension.
func (r R) Ext() string {
	n := 1 + r.Intn(7)
	if r.P(5) {
		n = 1 + r.Intn(22)
	}
	s := Pick(r, extLabels) + r.Digits(n)
	if r.P(6) {
		s += "#"
	}
	return s
}

// Vanity replaces digits by keypad letters.
func (r R) Vanity(s string) string {
	keys := []string{"0", "1", "ABCabc", "DEFdef", "GHIghi", "JKLjkl", "MNOmno", "PQRSpqrs", "TUVtuv", "WXYZwxyz"}
	b := []byte(s)
	from := 3
	if r.P(4) {
		from = 0
	}
	for i := from; i < len(b); i++ {
		if b[i] >= '2' && b[i] <= '9' && !r.P(3) {
			b[i] = Pick(r, []byte(keys[b[i]-'0']))
		}
	}
	return string(b)
}

var junkBefore = []string{"", "", "Tel: ", "tel:", "(", "[", " ", "abc", "\uFF08", "#", "*", "\n", "call me on ", "é", "\xff", "phone=", "+", "++", "\uFF0B", "+ "}
var junkAfter = []string{"", "", ".", " ", ")", "...", ";isub=12345", "/x1234", "\\ x5", "/ x2", ";a=b", "\n", "\xff", "é", "#", "*", "abc", ";isub=", " or 12345", ";phone-context=", "-", ","}
var contexts = []string{"+1", "+44", "+39", "+800", "+0", "example.com", "www.a-b.co.uk.", "+64-3", "+(1)", "a", "1.com", "a.1", "-a.com", "+", "+a", "", "+٤٤", "ａ.com", "+1;x=y", "example.com;tel:", "+1 2", "++44", "+1-", "+-1"}

// Context is a phone-context: usually one in a list or the calling code, otherwise a domain
// or a global number built at random, which may or may not be well formed.
func (r R) Context(cc string) string {
	var b strings.Builder
	switch r.Intn(8) {
	case 0, 1: // domain
		for k := 1 + r.Intn(3); k > 0; k-- {
			for n := 1 + r.Intn(5); n > 0; n-- {
				b.WriteString(Pick(r, []string{"a", "b", "Z", "x", "q", "7", "0", "-", "--", "m-n"}))
			}
			if r.P(20) {
				b.WriteString(Pick(r, []string{"_", " ", "é", "٤", ".", "+", "k", "ｂ"}))
			}
			if k > 1 || r.P(4) {
				b.WriteString(".")
			}
		}
		return b.String()
	case 2, 3: // global number
		b.WriteString(Pick(r, []string{"+", "+", "+", "+", "+", "\uff0b", "", "++"}))
		for n := 1 + r.Intn(4); n > 0; n-- {
			b.WriteString(Pick(r, []string{cc, cc, r.Digits(1), r.Digits(3), "-", ".", "(", ")", "-."}))
			if r.P(30) {
				b.WriteString(Pick(r, []string{" ", "/", "~", "٣", "５", "[", "a", "\u2010", "\u00a0"}))
			}
		}
		return b.String()
	}
	return Pick(r, append(contexts, "+"+cc, "+"+cc, "+"+cc))
}

// Render writes an international or national representation of (md, nsn).
func (g *G) Render(r R, md *model.Meta, nsn string) string {
	cc := itoa(int(md.CC))
	body := nsn
	switch r.Intn(14) {
	case 0:
		body = r.Vanity(nsn)
	case 1, 2, 3:
		body = r.Punctuate(nsn)
	case 4, 5: // as the library would group it
		if n, e := g.M.Parse("+"+cc+nsn, "ZZ", false); e == model.OK {
			body = g.M.Format(n, 1)
			if i := strings.IndexByte(body, ' '); i > 0 {
				body = body[i+1:]
			}
			if r.P(3) {
				nat := g.M.Format(n, 2)
				if r.P(3) {
					return g.decorate(r, nat)
				}
				return g.withExt(r, nat)
			}
		}
	}
	var s string
	switch r.Intn(13) {
	case 0, 1, 2:
		s = "+" + cc + Pick(r, []string{"", " ", "-", " (0)", ".", "("}) + body
	case 3:
		s = "\uFF0B" + cc + body
	case 4: // national prefix as in the metadata
		s = r.FromPattern(md.NPParsing) + body
	case 5:
		s = md.NatPrefix + Pick(r, []string{"", " ", "-"}) + body
	case 6: // international prefix of the same or some other region
		from := md
		if r.P(2) {
			from = g.Meta(r)
		}
		s = r.FromPattern(from.IntlPrefix) + Pick(r, []string{"", " ", "-"}) + cc + body
	case 7: // calling code without a plus
		s = cc + Pick(r, []string{"", " ", md.NatPrefix}) + body
	case 8:
		s = "tel:" + body + ";phone-context=" + r.Context(cc)
	case 9:
		s = "tel:+" + cc + "-" + body
	case 10:
		s = "++" + cc + body
	case 11:
		s = "+" + r.Digits(1+r.Intn(3)) + body
	default:
		s = body
	}
	if r.P(3) {
		return s
	}
	return g.decorate(r, g.withExt(r, s))
}

func (g *G) withExt(r R, s string) string {
	if r.P(3) {
		s += r.Ext()
	}
	return s
}

func (g *G) decorate(r R, s string) string {
	if r.P(4) {
		s = Pick(r, junkBefore) + s
	}
	if r.P(4) {
		s += Pick(r, junkAfter)
	}
	if r.P(6) {
		s = r.ForeignDigits(s)
	}
	if r.P(25) {
		s = r.mutate(s)
	}
	return s
}

// Entry is a random number string together with a region argument.
func (g *G) Entry(r R) (string, string) {
	if r.P(20) {
		return r.Hostile(), g.AnyRegion(r)
	}
	if r.P(25) {
		reg, s := g.Short(r)
		return s, reg
	}
	md := g.Meta(r)
	s := g.Render(r, md, g.NSN(r, md))
	reg := md.ID
	switch r.Intn(10) {
	case 0:
		reg = Pick(r, OddRegions)
	case 1:
		reg = g.Region(r)
	case 2:
		if rs := g.M.Codes[int(md.CC)]; len(rs) > 0 {
			reg = Pick(r, rs)
		}
	}
	return s, reg
}

var hostileRunes = []rune("0123456789012345678901234567890123456789+++--  ()[]..//~~xX#*;=,:eExXtTnNaAbBcCtel:extphoneisub\t\n\r$%\\'\"&\u00A0\u00AD\u200B\u2060\u3000\uFF08\uFF09\uFF0B\uFF0B\uFF0D\uFF0E\uFF0F\uFF10\uFF11\uFF19\uFF3B\uFF3D\uFF5E\uFF58\uFF03\u0660\u0669\u06F3\u0966\u2008\u2010\u2015\u2053\u2212\u223C\u30FC\u0301\u00F3éЖ中\U0001D7CE\U0001D7FF\U0001F600\u0000\uFFFD\u017F\u212A\u0131²½Ⅷ")

// Hostile is a random string over an alphabet chosen to upset parsers.
func (r R) Hostile() string {
	n := r.Intn(30)
	switch r.Intn(12) {
	case 0:
		n = r.Intn(300)
	case 1:
		n = 245 + r.Intn(10)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(40) {
		case 0:
			b.WriteByte(byte(r.Intn(256)))
		case 1:
			b.WriteString(Pick(r, extLabels))
		case 2:
			b.WriteString(Pick(r, []string{";phone-context=", "tel:", ";isub=", ";ext=", "+1", "+44", "/x", "\\x", "xx", "0011", "(0)"}))
		case 3:
			b.WriteRune(rune(r.Intn(0x11000)))
		default:
			b.WriteRune(Pick(r, hostileRunes))
		}
	}
	return b.String()
}

func (r R) mutate(s string) string {
	b := []byte(s)
	for k := 0; k < 1+r.Intn(3); k++ {
		if len(b) == 0 {
			return "+"
		}
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = append(b[:i], append([]byte(string(Pick(r, hostileRunes))), b[i:]...)...)
		case 3:
			b = append(b, b[i:]...)
		}
	}
	return string(b)
}

// Mutate is exported mutate.
func (r R) Mutate(s string) string { return r.mutate(s) }

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	var b []byte
	for ; n > 0; n /= 10 {
		b = append([]byte{byte('0' + n%10)}, b...)
	}
	if neg {
		return "-" + string(b)
	}
	return string(b)
}

// Num builds a number object: usually one a parser produces, sometimes one a
// caller assembled by hand.
func (g *G) Num(r R) *model.Num {
	md := g.Meta(r)
	switch r.Intn(20) {
	case 0: // whatever an input string gives
		s, reg := g.Entry(r)
		if n, e := g.M.Parse(s, reg, r.P(2)); e == model.OK {
			return n
		}
	case 1, 2: // typed nationally, raw input kept
		s := g.Render(r, md, g.NSN(r, md))
		if n, e := g.M.Parse(s, md.ID, true); e == model.OK {
			return n
		}
	case 3: // assembled by hand
		n := g.split(md, g.NSN(r, md))
		if r.P(3) {
			n.CC = int32(r.Intn(1000))
		}
		if r.P(4) {
			n.NN = r.Uint64() >> uint(r.Intn(64))
		}
		if r.P(3) {
			n.ILZ = r.P(2)
			n.HasNLZ = r.P(2)
			n.NLZ = int32(r.Intn(6))
			if !n.HasNLZ {
				n.NLZ = 1
			}
		}
		if r.P(4) {
			n.Ext = r.Digits(1 + r.Intn(8))
		}
		return n
	case 4: // same digits under another calling code
		n := g.split(md, g.NSN(r, md))
		n.CC = int32(Pick(r, g.Codes))
		return n
	}
	n := g.split(md, g.NSN(r, md))
	if r.P(8) {
		n.Ext = r.Digits(1 + r.Intn(7))
	}
	if r.P(25) {
		n.PDCC = Pick(r, []string{"15", "0", "12", "21", "123", "19", "31"})
	}
	return n
}

// split is the number object with the given national significant number.
func (g *G) split(md *model.Meta, nsn string) *model.Num {
	n := &model.Num{CC: md.CC, NLZ: 1}
	z := 0
	for z < len(nsn)-1 && nsn[z] == '0' {
		z++
	}
	if z > 0 {
		n.ILZ = true
		if z > 1 {
			n.NLZ, n.HasNLZ = int32(z), true
		}
	}
	for i := z; i < len(nsn) && i < z+19; i++ {
		if nsn[i] >= '0' && nsn[i] <= '9' {
			n.NN = n.NN*10 + uint64(nsn[i]-'0')
		}
	}
	return n
}

// Split is exported split.
func (g *G) Split(md *model.Meta, nsn string) *model.Num { return g.split(md, nsn) }

// RegionFor picks a region argument to go with a number.
func (g *G) RegionFor(r R, n *model.Num) string {
	rs := g.M.Codes[int(n.CC)]
	switch {
	case len(rs) > 0 && r.P(2):
		return Pick(r, rs)
	case r.P(3):
		return Pick(r, OddRegions)
	}
	return g.Region(r)
}
