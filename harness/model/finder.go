package model

import (
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Found is one match of the text finder.
type Found struct {
	Start int
	Raw   string
	Num   *Num
}

const openP, closeP = "(\\[\uFF08\uFF3B", ")\\]\uFF09\uFF3D"

var (
	fPub      = regexp.MustCompile(`[0-9]{1,5}-+[0-9]{1,5}[\t\n\f\r ]{0,4}\([0-9]{1,4}`)
	fDate     = regexp.MustCompile(`(?:[0-3]?[0-9]/[01]?[0-9]|[01]?[0-9]/[0-3]?[0-9])/(?:[12][0-9])?[0-9]{2}`)
	fStamp    = regexp.MustCompile(`[12][0-9]{3}[-/]?[01][0-9][-/]?[0-3][0-9] +[0-2][0-9]\z`)
	fStampEnd = regexp.MustCompile(`\A:[0-5][0-9]`)
	nonP      = "[^" + openP + closeP + "]"
	fBrackets = regexp.MustCompile(`\A[` + openP + `]?(?:` + nonP + `+[` + closeP + `])?` + nonP + `+(?:[` + openP + `]` + nonP + `+[` + closeP + `]){0,3}` + nonP + `*\z`)
	fCand     = regexp.MustCompile(`(?i)(?:[` + openP + "+\uFF0B" + `][` + punct + `]{0,4}){0,2}\p{Nd}{1,20}(?:[` + punct + `]{0,4}\p{Nd}{1,20}){0,20}(?:` + exMatching + `)?`)
	fInner    = []*regexp.Regexp{
		regexp.MustCompile(`/+(.*)`),
		regexp.MustCompile(`(\([^(]*)`),
		regexp.MustCompile(`(?:\p{Z}-|-\p{Z})\p{Z}*(.+)`),
		regexp.MustCompile("[\u2012-\u2015\uFF0D]\\p{Z}*(.+)"),
		regexp.MustCompile(`\.+\p{Z}*([^.]+)`),
		regexp.MustCompile(`\p{Z}+(\P{Z}+)`),
	}
)

func latin(c rune) bool {
	if !unicode.IsLetter(c) && !unicode.Is(unicode.Mn, c) {
		return false
	}
	return unicode.Is(unicode.Latin, c) || c >= 0x300 && c <= 0x36F
}

func badNeighbour(c rune) bool { return c == '%' || unicode.Is(unicode.Sc, c) || latin(c) }

// Find lists every match of the finder.
func (m *M) Find(text, region string, l, tries int) []Found {
	if tries < 0 {
		tries = 0
	}
	var out []Found
	try := func(cand string, off int) *Found {
		if !fBrackets.MatchString(cand) || fPub.MatchString(cand) {
			return nil
		}
		if l >= LValid {
			first, _ := utf8.DecodeRuneInString(cand)
			lead := cand != "" && strings.ContainsRune("([\uFF08\uFF3B+\uFF0B", first)
			if off > 0 && !lead {
				if c, _ := utf8.DecodeLastRuneInString(text[:off]); badNeighbour(c) {
					return nil
				}
			}
			if e := off + len(cand); e < len(text) {
				if c, _ := utf8.DecodeRuneInString(text[e:]); badNeighbour(c) {
					return nil
				}
			}
		}
		n, e := m.Parse(cand, region, true)
		if e != OK || !m.Verify(l, n, cand) {
			return nil
		}
		c := *n
		c.Raw, c.HasRaw, c.Src, c.PDCC = "", false, SrcNone, ""
		return &Found{off, cand, &c}
	}
	extract := func(cand string, off int) *Found {
		if fDate.MatchString(cand) {
			return nil
		}
		if fStamp.MatchString(cand) && fStampEnd.MatchString(text[off+len(cand):]) {
			return nil
		}
		if f := try(cand, off); f != nil {
			return f
		}
		for _, p := range fInner {
			for k, g := range p.FindAllStringSubmatchIndex(cand, -1) {
				if tries <= 0 {
					break
				}
				if k == 0 {
					if f := try(trimEnd(cand[:g[0]]), off); f != nil {
						return f
					}
					tries--
				}
				if f := try(trimEnd(cand[g[2]:g[3]]), off+g[2]); f != nil {
					return f
				}
				tries--
			}
		}
		return nil
	}
	pos := 0
	for tries > 0 {
		g := fCand.FindStringIndex(text[pos:])
		if g == nil {
			break
		}
		start := pos + g[0]
		cand := text[start : pos+g[1]]
		if s := rx(`[\\/] *x`).FindStringIndex(cand); s != nil {
			cand = cand[:s[0]]
		}
		if f := extract(cand, start); f != nil {
			out = append(out, *f)
			pos = f.Start + len(f.Raw)
			continue
		}
		pos = start + len(cand)
		tries--
	}
	return out
}
