package model

import (
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

// ---- regular expression helpers ---------------------------------------------

var rxCache sync.Map

func rx(p string) *regexp.Regexp {
	if v, ok := rxCache.Load(p); ok {
		return v.(*regexp.Regexp)
	}
	r := regexp.MustCompile(p)
	rxCache.Store(p, r)
	return r
}

// whole reports whether all of s is matched by p.
func whole(p, s string) bool { return rx(`\A(?:` + p + `)\z`).MatchString(s) }

// at0 reports a match of p at the start of s, with group offsets.
func at0(p, s string) []int { return rx(`\A(?:` + p + `)`).FindStringSubmatchIndex(s) }

// expand substitutes $<digit> references of tmpl by groups of the match.
func expand(tmpl, s string, g []int) string {
	var b strings.Builder
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '$' && i+1 < len(tmpl) && tmpl[i+1] >= '0' && tmpl[i+1] <= '9' {
			k := int(tmpl[i+1] - '0')
			i++
			if 2*k+1 < len(g) && g[2*k] >= 0 {
				b.WriteString(s[g[2*k]:g[2*k+1]])
			}
			continue
		}
		b.WriteByte(tmpl[i])
	}
	return b.String()
}

// replaceAll replaces every match of p in s by the expansion of tmpl.
func replaceAll(p, s, tmpl string) string {
	var b strings.Builder
	last := 0
	for _, g := range rx(p).FindAllStringSubmatchIndex(s, -1) {
		b.WriteString(s[last:g[0]])
		b.WriteString(expand(tmpl, s, g))
		last = g[1]
	}
	b.WriteString(s[last:])
	return b.String()
}

// ---- characters -------------------------------------------------------------

// digitZeros lists the first code point of every run of decimal digits.
var digitVal = func() map[rune]byte {
	out := map[rune]byte{}
	run := 0
	for c := rune(0); c <= unicode.MaxRune; c++ {
		if unicode.Is(unicode.Nd, c) {
			out[c] = byte('0' + run%10)
			run++
		} else {
			run = 0
		}
	}
	return out
}()

// Digit is the decimal value (as an ASCII digit) of c.
func Digit(c rune) (byte, bool) { v, ok := digitVal[c]; return v, ok }

// punct is the set of punctuation allowed inside numbers.
const punct = "-x\u2010-\u2015\u2212\u30FC\uFF0D-\uFF0F \u00A0\u00AD\u200B\u2060\u3000()\uFF08\uFF09\uFF3B\uFF3D.\\[\\]/~\u2053\u223C\uFF5E"

const alphas = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// DigitsOnly keeps decimal digits, mapped to ASCII.
func DigitsOnly(s string) string {
	var b []byte
	for _, c := range s {
		if v, ok := Digit(c); ok {
			b = append(b, v)
		}
	}
	return string(b)
}

// digitsKept maps decimal digits to ASCII and keeps everything else.
func digitsKept(s string) string {
	var b strings.Builder
	for _, c := range s {
		if v, ok := Digit(c); ok {
			b.WriteByte(v)
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// Diallable keeps ASCII digits and + * #.
func Diallable(s string) string {
	var b []byte
	for _, c := range s {
		if c >= '0' && c <= '9' || c == '+' || c == '*' || c == '#' {
			b = append(b, byte(c))
		}
	}
	return string(b)
}

// keypad is ITU E.161.
func keypad(c rune) (byte, bool) {
	if c >= '0' && c <= '9' {
		return byte(c), true
	}
	c = unicode.ToUpper(c)
	for d, ls := range []string{2: "ABC", 3: "DEF", 4: "GHI", 5: "JKL", 6: "MNO", 7: "PQRS", 8: "TUV", 9: "WXYZ"} {
		if strings.ContainsRune(ls, c) {
			return byte('0' + d), true
		}
	}
	return 0, false
}

// Alpha converts letters to keypad digits, keeping everything else.
func Alpha(s string) string {
	var b strings.Builder
	for _, c := range s {
		if v, ok := keypad(c); ok {
			b.WriteByte(v)
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// isVanity: at least three ASCII letters and no line break (the documented rule
// is a "." regular expression, which does not cross lines).
func isVanity(s string) bool {
	n := 0
	for _, c := range s {
		if c == '\n' {
			return false
		}
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			n++
		}
	}
	return n >= 3
}

// norm normalises a number string to ASCII digits.
func norm(s string) string {
	if isVanity(s) {
		var b []byte
		for _, c := range s {
			if v, ok := keypad(c); ok {
				b = append(b, v)
			}
		}
		return string(b)
	}
	return DigitsOnly(s)
}

// groupingSyms keeps digits, letters (upper-cased) and grouping symbols.
func groupingSyms(s string) string {
	var b strings.Builder
	for _, c := range s {
		u := unicode.ToUpper(c)
		switch {
		case u >= '0' && u <= '9', u >= 'A' && u <= 'Z', u == '+', u == '*', u == '-', u == '/', u == ' ', u == '.':
			b.WriteRune(u)
		case u >= 0x2010 && u <= 0x2015, u == 0x2212, u == 0xFF0D:
			b.WriteByte('-')
		case u == 0xFF0F:
			b.WriteByte('/')
		case u == 0x3000, u == 0x2060:
			b.WriteByte(' ')
		case u == 0xFF0E:
			b.WriteByte('.')
		}
	}
	return b.String()
}

func isPlus(c rune) bool { return c == '+' || c == 0xFF0B }

// leadingPlus strips one or more plus signs.
func leadingPlus(s string) (string, bool) {
	t := strings.TrimLeftFunc(s, isPlus)
	return t, len(t) != len(s)
}

// ---- extensions -------------------------------------------------------------

const (
	exExplicit  = "(?:e?xt(?:ensi(?:o\u0301?|\u00F3))?n?|\uFF45?\uFF58\uFF54\uFF4E?|\u0434\u043E\u0431|anexo)"
	exAmbiguous = "(?:[x\uFF58#\uFF03~\uFF5E]|int|\uFF49\uFF4E\uFF54)"
	exAfter     = "[:\\.\uFF0E]?[ \u00A0\\t,-]*"
	exMatching  = `;ext=(\p{Nd}{1,20})|[ ` + "\u00A0" + `\t,]*` + exExplicit + exAfter + `(\p{Nd}{1,20})#?|[ ` + "\u00A0" + `\t,]*` + exAmbiguous + exAfter + `(\p{Nd}{1,9})#?|[- ]+(\p{Nd}{1,6})#`
	exParsing   = exMatching + `|[ ` + "\u00A0" + `\t]*(?:,{2}|;)` + exAfter + `(\p{Nd}{1,15})#?|[ ` + "\u00A0" + `\t]*,+` + exAfter + `(\p{Nd}{1,9})#?`
)

var (
	exAtEnd  = regexp.MustCompile(`(?i)(?:` + exParsing + `)\z`)
	viableRx = regexp.MustCompile(`(?i)\A(?:\p{Nd}{2}|[+` + "\uFF0B" + `]*(?:[` + punct + `*]*\p{Nd}){3,}[` + punct + `*` + alphas + `\p{Nd}]*(?:` + exParsing + `)?)\z`)
)

// Note on the alternation: the two-digit form takes no extension.

// Viable reports whether s looks like a number at all.
func Viable(s string) bool { return len(s) >= 2 && viableRx.MatchString(s) }

// cutExt splits a trailing extension off s.
func cutExt(s string) (rest, ext string) {
	g := exAtEnd.FindStringSubmatchIndex(s)
	if g == nil || !Viable(s[:g[0]]) {
		return s, ""
	}
	for i := 2; i+1 < len(g); i += 2 {
		if g[i] >= 0 && g[i+1] > g[i] {
			return s[:g[0]], s[g[i]:g[i+1]]
		}
	}
	return s, ""
}

// Candidate cuts the possible number out of free text.
func Candidate(s string) string {
	i := strings.IndexFunc(s, func(c rune) bool { _, ok := Digit(c); return ok || isPlus(c) })
	if i < 0 {
		return ""
	}
	s = trimEnd(s[i:])
	if g := rx(`[\\/] *x`).FindStringIndex(s); g != nil {
		s = s[:g[0]]
	}
	return s
}

// trimEnd removes the trailing run of characters that are not letters, numbers or '#'.
// Invalid UTF-8 counts as such a character.
func trimEnd(s string) string {
	return strings.TrimRightFunc(s, func(c rune) bool {
		return !(unicode.IsLetter(c) || unicode.IsNumber(c) || c == '#')
	})
}

// IsAlphaNumber: a viable number written with letters.
func IsAlphaNumber(s string) bool {
	if !Viable(s) {
		return false
	}
	r, _ := cutExt(s)
	return isVanity(r)
}

func itoa(n int) string { return strconv.Itoa(n) }
