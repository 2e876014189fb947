package model

import (
	"strconv"
	"strings"
)

// Err is the class of a parse failure.
type Err int

const (
	OK Err = iota
	InvalidCountryCode
	NotANumber
	TooShortNSN
	TooShortAfterIDD
	TooLong
)

func (e Err) String() string {
	return [...]string{"ok", "ErrInvalidCountryCode", "ErrNotANumber", "ErrTooShortNSN", "ErrTooShortAfterIDD", "ErrNumTooLong"}[e]
}

// Country code sources.
const (
	SrcNone    = 0
	SrcPlus    = 1
	SrcIDD     = 5
	SrcNoPlus  = 10
	SrcDefault = 20
)

// Num is a parsed number. Zero/empty optional fields mean "absent".
type Num struct {
	CC     int32
	NN     uint64
	ILZ    bool
	NLZ    int32 // effective number of leading zeros field (default 1)
	HasNLZ bool
	Ext    string
	Raw    string
	HasRaw bool
	Src    int // SrcNone when absent
	PDCC   string
}

// NSN is the national significant number.
func (n *Num) NSN() string {
	s := strconv.FormatUint(n.NN, 10)
	if n.ILZ {
		z := int32(1)
		if n.HasNLZ {
			z = n.NLZ
		}
		if z > 17 {
			z = 17
		}
		if z > 0 {
			s = strings.Repeat("0", int(z)) + s
		}
	}
	return s
}

// ValidRegion: a region the library supports.
func (m *M) ValidRegion(r string) bool { return m.regions[r] }

func (m *M) region(r string) *Meta {
	if !m.regions[r] {
		return nil
	}
	return m.Region[r]
}

// MainRegion of a calling code ("ZZ" when unknown).
func (m *M) MainRegion(cc int) string {
	if rs := m.Codes[cc]; len(rs) > 0 {
		return rs[0]
	}
	return "ZZ"
}

func (m *M) metaFor(cc int, region string) *Meta {
	if region == "001" {
		if _, ok := m.Codes[cc]; !ok {
			return nil
		}
		return m.NonGeo[cc]
	}
	return m.region(region)
}

func (m *M) mainMeta(cc int) *Meta { return m.metaFor(cc, m.MainRegion(cc)) }

// takeCC splits a calling code off the digits.
func (m *M) takeCC(d string) (int, string) {
	if d == "" || d[0] == '0' {
		return 0, d
	}
	for i := 1; i <= 3 && i <= len(d); i++ {
		c, _ := strconv.Atoi(d[:i])
		if _, ok := m.Codes[c]; ok {
			return c, d[i:]
		}
	}
	return 0, d
}

// stripNational removes a national prefix (and carrier code) according to md.
func stripNational(d string, md *Meta) (rest, carrier string, found bool) {
	p := md.NPParsing
	if d == "" || p == "" {
		return d, "", false
	}
	g := at0(p, d)
	if g == nil {
		return d, "", false
	}
	viable := whole(md.General.pattern(), d)
	groups := len(g)/2 - 1
	last := g[2*groups]
	if md.NPTransform == "" || last < 0 {
		rest = d[g[1]:]
		if viable && !whole(md.General.pattern(), rest) {
			return d, "", false
		}
		if groups > 0 && g[2] >= 0 {
			carrier = d[g[2]:g[3]]
		}
		return rest, carrier, true
	}
	rest = expand(md.NPTransform, d, g) + d[g[1]:]
	if viable && !whole(md.General.pattern(), rest) {
		return d, "", false
	}
	if groups > 1 && g[2] >= 0 {
		carrier = d[g[2]:g[3]]
	}
	return rest, carrier, true
}

func (d *Desc) pattern() string {
	if d == nil {
		return ""
	}
	return d.Pattern
}

// nationalCandidate prepares the text for parsing (RFC 3966 handling).
func nationalCandidate(s string) (string, Err) {
	const pc = ";phone-context="
	var out string
	i := strings.Index(s, pc)
	if i >= 0 {
		ctx := s[i+len(pc):]
		if j := strings.IndexByte(ctx, ';'); j >= 0 {
			ctx = ctx[:j]
		}
		if !validContext(ctx) {
			return "", NotANumber
		}
		if i > 0 {
			if ctx[0] == '+' {
				out = ctx
			}
			body := s[:i]
			if t := strings.Index(body+pc, "tel:"); t >= 0 && t < i {
				// "tel:" may overlap the separator only if it starts before it; the
				// separator starts with ';' so it never does.
				body = body[t+4:]
			}
			out += body
		} else {
			out = Candidate(s)
		}
	} else {
		out = Candidate(s)
	}
	if j := strings.Index(out, ";isub="); j > 0 {
		out = out[:j]
	}
	return out, OK
}

func validContext(c string) bool {
	if c == "" {
		return false
	}
	if whole(`\+(?:\p{Nd}|[\-.()])*\p{Nd}(?:\p{Nd}|[\-.()])*`, c) {
		return true
	}
	an := `[` + alphas + `\p{Nd}]`
	return whole(`(?:`+an+`+(?:-*`+an+`)*\.)*[`+alphas+`]+(?:-*`+an+`)*\.?`, c)
}

// extractCC determines the calling code of a number string.
func (m *M) extractCC(s string, md *Meta) (cc int, rest string, src int, e Err) {
	if s == "" {
		return 0, "", -1, OK
	}
	var full string
	if t, ok := leadingPlus(s); ok {
		full, src = norm(t), SrcPlus
	} else {
		full, src = norm(s), SrcDefault
		idd := "NonMatch"
		if md != nil {
			idd = md.IntlPrefix
		}
		if g := at0(idd, full); g != nil {
			after := full[g[1]:]
			if !strings.HasPrefix(after, "0") {
				full, src = after, SrcIDD
			}
		}
	}
	if src != SrcDefault {
		if len(full) <= 2 {
			return 0, "", src, TooShortAfterIDD
		}
		c, r := m.takeCC(full)
		if c == 0 {
			return 0, "", src, InvalidCountryCode
		}
		return c, r, src, OK
	}
	if md != nil {
		ccs := itoa(int(md.CC))
		if strings.HasPrefix(full, ccs) {
			pot, _, _ := stripNational(full[len(ccs):], md)
			gp := md.General.pattern()
			if (!whole(gp, full) && whole(gp, pot)) || m.lengthVerdict(full, md, Unknown) == TooLongLen {
				return int(md.CC), pot, SrcNoPlus, OK
			}
		}
	}
	return 0, "", SrcDefault, OK
}

// Parse is the specification of Parse / ParseAndKeepRawInput.
func (m *M) Parse(s, region string, keep bool) (*Num, Err) { return m.parse(s, region, keep, true) }

func (m *M) parse(s, region string, keep, check bool) (*Num, Err) {
	if s == "" {
		return nil, NotANumber
	}
	if len(s) > 250 {
		return nil, TooLong
	}
	body, e := nationalCandidate(s)
	if e != OK {
		return nil, e
	}
	if !Viable(body) {
		return nil, NotANumber
	}
	if check && !m.ValidRegion(region) && !strings.ContainsFunc(body, isPlus) {
		return nil, InvalidCountryCode
	}
	n := &Num{}
	if keep {
		n.Raw, n.HasRaw = s, true
	}
	body, n.Ext = cutExt(body)
	md := m.region(region)
	cc, rest, src, e := m.extractCC(body, md)
	if e == InvalidCountryCode {
		i := strings.IndexFunc(body, isPlus)
		if i < 0 {
			return nil, e
		}
		t := strings.TrimLeftFunc(body[i:], isPlus)
		cc, rest, src, e = m.extractCC(t, md)
		if e == OK && cc == 0 {
			e = InvalidCountryCode
		}
	}
	if e != OK {
		return nil, e
	}
	if keep && src > 0 {
		n.Src = src
	}
	if cc != 0 {
		n.CC = int32(cc)
		if r := m.MainRegion(cc); r != region {
			md = m.metaFor(cc, r)
		}
	} else {
		rest = norm(body)
		if region != "" {
			if md != nil {
				n.CC = md.CC
			}
		} else {
			n.Src = SrcNone
		}
	}
	if len(rest) < 2 {
		return nil, TooShortNSN
	}
	if md != nil {
		pot, carrier, _ := stripNational(rest, md)
		switch m.lengthVerdict(pot, md, Unknown) {
		case TooShortLen, PossibleLocal, InvalidLen:
		default:
			rest = pot
			if keep {
				n.PDCC = carrier
			}
		}
	}
	if len(rest) < 2 {
		return nil, TooShortNSN
	}
	if len(rest) > 17 {
		return nil, TooLong
	}
	if rest[0] == '0' {
		n.ILZ = true
		z := len(rest) - len(strings.TrimLeft(rest, "0"))
		if z == len(rest) {
			z--
		}
		if z > 1 {
			n.NLZ, n.HasNLZ = int32(z), true
		}
	}
	n.NN, _ = strconv.ParseUint(rest, 10, 64)
	return n, OK
}

// Stripped is the national significant number left when nsn is read again as a
// nationally dialled number of the calling code.
func (m *M) Stripped(cc int, nsn string) string {
	md := m.mainMeta(cc)
	if md == nil {
		return nsn
	}
	r, _, _ := stripNational(nsn, md)
	return r
}
