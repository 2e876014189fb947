package model

import (
	"strings"
	"unicode"
)

// Formats in the order of the public enum.
const (
	E164 = iota
	INTERNATIONAL
	NATIONAL
	RFC3966
)

// choose the first formatting rule whose leading digits and pattern fit.
func choose(fs []*Fmt, nsn string) *Fmt {
	for _, f := range fs {
		if k := len(f.Leading); k > 0 && at0(f.Leading[k-1], nsn) == nil {
			continue
		}
		if whole(f.Pattern, nsn) {
			return f
		}
	}
	return nil
}

// withFirst puts rule in place of the first group reference of format, where $1
// inside the rule stands for that reference.
func withFirst(format, rule string) string {
	g := rx(`\$[0-9]`).FindStringIndex(format)
	if g == nil {
		return format
	}
	return format[:g[0]] + strings.ReplaceAll(rule, "$1", format[g[0]:g[1]]) + format[g[1]:]
}

// applyFmt renders nsn with rule f.
func applyFmt(nsn string, f *Fmt, style int, carrier string) string {
	t := f.Format
	if style == NATIONAL {
		if carrier != "" && f.CCRule != "" {
			t = withFirst(t, strings.Replace(f.CCRule, "$CC", carrier, 1))
		} else if f.NPRule != "" {
			t = withFirst(t, f.NPRule)
		}
	}
	s := replaceAll(f.Pattern, nsn, t)
	if style == RFC3966 {
		s = strings.Join(rx(`[^`+punct+`]+`).FindAllString(s, -1), "-")
	}
	return s
}

func formatsFor(md *Meta, style int) []*Fmt {
	if style != NATIONAL && len(md.IntlFormats) > 0 {
		return md.IntlFormats
	}
	return md.Formats
}

func formatNSN(nsn string, md *Meta, style int, carrier string) string {
	f := choose(formatsFor(md, style), nsn)
	if f == nil {
		return nsn
	}
	return applyFmt(nsn, f, style, carrier)
}

func extSuffix(n *Num, md *Meta, style int) string {
	switch {
	case n.Ext == "":
		return ""
	case style == RFC3966:
		return ";ext=" + n.Ext
	case md.PrefExtn != "":
		return md.PrefExtn + n.Ext
	}
	return " ext. " + n.Ext
}

func withCC(cc int, style int, s string) string {
	switch style {
	case E164:
		return "+" + itoa(cc) + s
	case INTERNATIONAL:
		return "+" + itoa(cc) + " " + s
	case RFC3966:
		return "tel:+" + itoa(cc) + "-" + s
	}
	return s
}

// Format in one of the four standard styles.
func (m *M) Format(n *Num, style int) string {
	if n.NN == 0 && n.Raw != "" {
		return n.Raw
	}
	nsn, cc := n.NSN(), int(n.CC)
	if style == E164 {
		return withCC(cc, E164, nsn)
	}
	if _, ok := m.Codes[cc]; !ok {
		return nsn
	}
	md := m.mainMeta(cc)
	return withCC(cc, style, formatNSN(nsn, md, style, "")+extSuffix(n, md, style))
}

// FormatByPattern with client rules.
func (m *M) FormatByPattern(n *Num, style int, rules []*Fmt) string {
	nsn, cc := n.NSN(), int(n.CC)
	if _, ok := m.Codes[cc]; !ok {
		return nsn
	}
	md := m.mainMeta(cc)
	out := nsn
	if f := choose(rules, nsn); f != nil {
		c := *f
		if c.NPRule != "" {
			if md.NatPrefix != "" {
				c.NPRule = strings.ReplaceAll(strings.ReplaceAll(c.NPRule, "$NP", md.NatPrefix), "$FG", "$1")
			} else {
				c.NPRule = ""
			}
		}
		out = applyFmt(nsn, &c, style, "")
	}
	return withCC(cc, style, out+extSuffix(n, md, style))
}

// FormatCarrier: national format with a carrier code.
func (m *M) FormatCarrier(n *Num, carrier string) string {
	nsn, cc := n.NSN(), int(n.CC)
	if _, ok := m.Codes[cc]; !ok {
		return nsn
	}
	md := m.mainMeta(cc)
	return formatNSN(nsn, md, NATIONAL, carrier) + extSuffix(n, md, NATIONAL)
}

// FormatPreferredCarrier uses the number's own carrier code if it has one.
func (m *M) FormatPreferredCarrier(n *Num, fallback string) string {
	if n.PDCC != "" {
		fallback = n.PDCC
	}
	return m.FormatCarrier(n, fallback)
}

// FormatMobileDialing from a region.
func (m *M) FormatMobileDialing(n *Num, from string, pretty bool) string {
	cc := int(n.CC)
	if _, ok := m.Codes[cc]; !ok {
		return n.Raw
	}
	c := *n
	c.Ext = ""
	reg := m.MainRegion(cc)
	t := m.Type(&c)
	out := ""
	if from == reg {
		fm := t == FixedLine || t == Mobile || t == FixedOrMobile
		style := NATIONAL
		switch {
		case reg == "BR" && fm:
			style = -1
			if c.PDCC != "" {
				out = m.FormatPreferredCarrier(&c, "")
			}
		case cc == 1:
			if m.IntlDiallable(&c) && m.lengthVerdict(c.NSN(), m.region(from), Unknown) != TooShortLen {
				style = INTERNATIONAL
			}
		case (reg == "001" || fm && (reg == "MX" || reg == "CL" || reg == "UZ")) && m.IntlDiallable(&c):
			style = INTERNATIONAL
		}
		if style >= 0 {
			out = m.Format(&c, style)
		}
	} else if t != Unknown && m.IntlDiallable(&c) {
		if pretty {
			return m.Format(&c, INTERNATIONAL)
		}
		return m.Format(&c, E164)
	}
	if !pretty {
		out = Diallable(out)
	}
	return out
}

func uniqueIDD(p string) bool { return whole("[0-9]+(?:[~\u2053\u223C\uFF5E][0-9]+)?", p) }

// FormatOutOfCountry for calling from a region.
func (m *M) FormatOutOfCountry(n *Num, from string) string {
	if !m.ValidRegion(from) {
		return m.Format(n, INTERNATIONAL)
	}
	nsn, cc := n.NSN(), int(n.CC)
	if _, ok := m.Codes[cc]; !ok {
		return nsn
	}
	fm := m.region(from)
	if cc == 1 {
		if m.Nanpa(from) {
			return "1 " + m.Format(n, NATIONAL)
		}
	} else if cc == int(fm.CC) {
		return m.Format(n, NATIONAL)
	}
	idd := fm.PrefIntlPrefix
	if idd == "" && uniqueIDD(fm.IntlPrefix) {
		idd = fm.IntlPrefix
	}
	md := m.mainMeta(cc)
	s := formatNSN(nsn, md, INTERNATIONAL, "") + extSuffix(n, md, INTERNATIONAL)
	if idd != "" {
		return idd + " " + itoa(cc) + " " + s
	}
	return withCC(cc, INTERNATIONAL, s)
}

// Nanpa: the region shares calling code 1.
func (m *M) Nanpa(r string) bool {
	for _, x := range m.Codes[1] {
		if x == r {
			return true
		}
	}
	return false
}

// NDD prefix of a region.
func (m *M) NDD(r string, strip bool) string {
	md := m.region(r)
	if md == nil {
		return ""
	}
	if strip {
		return strings.ReplaceAll(md.NatPrefix, "~", "")
	}
	return md.NatPrefix
}

// FormatOriginal: in the format it was entered in.
func (m *M) FormatOriginal(n *Num, from string) string {
	cc := int(n.CC)
	reg := m.MainRegion(cc)
	md := m.metaFor(cc, reg)
	nsn := n.NSN()
	if n.Raw != "" && (md == nil || choose(md.Formats, nsn) == nil) {
		return n.Raw
	}
	if n.Src == SrcNone {
		return m.Format(n, NATIONAL)
	}
	var out string
	switch n.Src {
	case SrcPlus:
		out = m.Format(n, INTERNATIONAL)
	case SrcIDD:
		out = m.FormatOutOfCountry(n, from)
	case SrcNoPlus:
		out = m.Format(n, INTERNATIONAL)[1:]
	default:
		out = m.Format(n, NATIONAL)
		ndd := m.NDD(reg, true)
		if ndd != "" && !m.rawHasNDD(n.Raw, ndd, reg) {
			if f := choose(md.Formats, nsn); f != nil {
				if i := strings.Index(f.NPRule, "$1"); i > 0 && DigitsOnly(f.NPRule[:i]) != "" {
					c := *f
					c.NPRule = ""
					out = m.FormatByPattern(n, NATIONAL, []*Fmt{&c})
				}
			}
		}
	}
	if out != "" && n.Raw != "" && Diallable(out) != Diallable(n.Raw) {
		return n.Raw
	}
	return out
}

func (m *M) rawHasNDD(raw, ndd, reg string) bool {
	d := DigitsOnly(raw)
	if !strings.HasPrefix(d, ndd) {
		return false
	}
	p, e := m.Parse(d[len(ndd):], reg, false)
	return e == OK && m.Valid(p)
}

// FormatKeepAlpha: out-of-country, keeping letters of the raw input.
func (m *M) FormatKeepAlpha(n *Num, from string) string {
	if n.Raw == "" {
		return m.FormatOutOfCountry(n, from)
	}
	cc := int(n.CC)
	if _, ok := m.Codes[cc]; !ok {
		return n.Raw
	}
	raw := groupingSyms(n.Raw)
	nsn := n.NSN()
	if len(nsn) > 3 {
		if i := strings.Index(raw, nsn[:3]); i >= 0 {
			raw = raw[i:]
		}
	}
	fm := m.region(from)
	if cc == 1 {
		if m.Nanpa(from) {
			return "1 " + raw
		}
	} else if fm != nil && cc == int(fm.CC) {
		f := choose(fm.Formats, nsn)
		if f == nil {
			return raw
		}
		c := *f
		c.Pattern, c.Format = `(\d+)(.*)`, "$1$2"
		return applyFmt(raw, &c, NATIONAL, "")
	}
	idd := ""
	if fm != nil {
		idd = fm.PrefIntlPrefix
		if uniqueIDD(fm.IntlPrefix) {
			idd = fm.IntlPrefix
		}
	}
	body, _ := cutExt(raw)
	s := body + extSuffix(n, m.mainMeta(cc), INTERNATIONAL)
	if idd != "" {
		return idd + " " + itoa(cc) + " " + s
	}
	return withCC(cc, INTERNATIONAL, s)
}

// ---- leniency ---------------------------------------------------------------

// firstGroupOnly: the national prefix rule adds no prefix.
func firstGroupOnly(rule string) bool { return rule == "" || whole(`\(?\$1\)?`, rule) }

// prefixOKIfRequired: the national prefix was written if the format requires it.
func (m *M) prefixOKIfRequired(n *Num) bool {
	if n.Src != SrcDefault {
		return true
	}
	md := m.region(m.MainRegion(int(n.CC)))
	if md == nil {
		return true
	}
	f := choose(md.Formats, n.NSN())
	if f == nil || f.NPRule == "" || f.NPOptional || firstGroupOnly(f.NPRule) {
		return true
	}
	_, _, found := stripNational(DigitsOnly(n.Raw), md)
	return found
}

// xOK: every x in the candidate is a carrier placeholder or an extension sign.
func (m *M) xOK(n *Num, cand string) bool {
	isX := func(i int) bool { return cand[i] == 'x' || cand[i] == 'X' }
	for i := 0; i < len(cand)-1; i++ {
		if !isX(i) {
			continue
		}
		if isX(i + 1) {
			i++
			if m.MatchNumStr(n, cand[i:]) != MNSN {
				return false
			}
		} else if DigitsOnly(cand[i:]) != n.Ext {
			return false
		}
	}
	return true
}

// slashesBad: more than one slash in the national number.
func slashesBad(n *Num, cand string) bool {
	parts := strings.Split(cand, "/")
	if len(parts) <= 2 {
		return false
	}
	if (n.Src == SrcPlus || n.Src == SrcNoPlus) && DigitsOnly(parts[0]) == itoa(int(n.CC)) {
		return len(parts) > 3
	}
	return true
}

func (m *M) groupingOK(n *Num, cand string, exact bool) bool {
	c := digitsKept(cand)
	check := func(gs []string) bool {
		if exact {
			return groupsExact(n, c, gs)
		}
		return m.groupsTogether(n, c, gs)
	}
	r := m.Format(n, RFC3966)
	if i := strings.IndexByte(r, ';'); i >= 0 {
		r = r[:i]
	}
	r = r[strings.IndexByte(r, '-')+1:]
	if check(strings.Split(r, "-")) {
		return true
	}
	if alt := m.Alt[int(n.CC)]; alt != nil {
		nsn := n.NSN()
		for _, f := range alt.Formats {
			if len(f.Leading) > 0 && at0(f.Leading[0], nsn) == nil {
				continue
			}
			if check(strings.Split(applyFmt(nsn, f, RFC3966, ""), "-")) {
				return true
			}
		}
	}
	return false
}

func (m *M) groupsTogether(n *Num, c string, gs []string) bool {
	rest := c
	if n.Src != SrcDefault {
		cc := itoa(int(n.CC))
		i := strings.Index(c, cc) + len(cc)
		if i > len(c) {
			return false
		}
		rest = c[i:]
	}
	for k, g := range gs {
		i := strings.Index(rest, g)
		if i < 0 {
			return false
		}
		whole := rest[i:]
		rest = rest[i+len(g):]
		if k == 0 && rest != "" {
			next := []rune(rest)[0]
			if m.NDD(m.MainRegion(int(n.CC)), true) != "" && unicode.IsDigit(next) {
				return strings.HasPrefix(whole, n.NSN())
			}
		}
	}
	return strings.Contains(rest, n.Ext)
}

func groupsExact(n *Num, c string, gs []string) bool {
	// blocks of ASCII digits; a leading non-digit yields an empty first block
	var blocks []string
	cur := ""
	prevDigit := true
	for i := 0; i < len(c); i++ {
		if c[i] >= '0' && c[i] <= '9' {
			cur += string(c[i])
			prevDigit = true
		} else {
			if prevDigit {
				blocks = append(blocks, cur)
				cur = ""
			}
			prevDigit = false
		}
	}
	if cur != "" {
		blocks = append(blocks, cur)
	}
	for len(blocks) > 0 && blocks[len(blocks)-1] == "" {
		blocks = blocks[:len(blocks)-1]
	}
	if len(blocks) <= 1 {
		return true
	}
	k := len(blocks) - 1
	if n.Ext != "" {
		k--
	}
	if strings.Contains(blocks[k], n.NSN()) {
		return true
	}
	for j := len(gs) - 1; j > 0 && k >= 0; j-- {
		if blocks[k] != gs[j] {
			return false
		}
		k--
	}
	return k >= 0 && strings.HasSuffix(blocks[k], gs[0])
}

// Leniencies in the order of the public enum.
const (
	LPossible = iota
	LValid
	LStrict
	LExact
)

// Verify a parsed number against a leniency.
func (m *M) Verify(l int, n *Num, cand string) bool {
	switch l {
	case LPossible:
		r := m.PossibleReason(n)
		return r == Possible || r == PossibleLocal
	case LValid:
		return m.Valid(n) && m.xOK(n, cand) && m.prefixOKIfRequired(n)
	case LStrict, LExact:
		return m.Valid(n) && m.xOK(n, cand) && !slashesBad(n, cand) && m.prefixOKIfRequired(n) && m.groupingOK(n, cand, l == LExact)
	}
	return false
}
