package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() { checks["C21"] = checkBuild }

const upstreamURL = "https://github.com/google/libphonenumber.git"

// upstream is one state of the sources the build step compiles.
type upstream struct {
	terr  map[string][]*model.SrcTerr                  // main, short, alt
	tz    [][2]string                                  // prefix, zones joined by &
	names map[string]map[string]map[string][][2]string // carrier|geocoding -> language -> file -> entries
	edit  func(files map[string]string)                // damages the written files
}

var upstreamFiles = map[string]string{"main": "resources/PhoneNumberMetadata.xml", "short": "resources/ShortNumberMetadata.xml", "alt": "resources/PhoneNumberAlternateFormats.xml", "tz": "resources/timezones/map_data.txt"}

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// blank puts white space and comments' worth of layout into a pattern.
func blank(r gen.R, s string) string {
	if s == "" || r.P(2) {
		return s
	}
	var b strings.Builder
	b.WriteString("\n        ")
	for i := 0; i < len(s); i++ {
		b.WriteByte(s[i])
		if r.P(6) {
			b.WriteString(gen.Pick(r, []string{" ", "\n          ", "\t", "  "}))
		}
	}
	b.WriteString("\n      ")
	return b.String()
}

func lengthList(r gen.R, ls []int32) string {
	var out []string
	for i := 0; i < len(ls); {
		j := i
		for j+1 < len(ls) && ls[j+1] == ls[j]+1 {
			j++
		}
		if j-i >= 2 && !r.P(4) {
			if j-i >= 3 && r.P(4) {
				j--
			}
			out = append(out, fmt.Sprintf("[%d-%d]", ls[i], ls[j]))
			i = j + 1
			continue
		}
		out = append(out, fmt.Sprint(ls[i]))
		i++
	}
	if r.P(6) {
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return strings.Join(out, ",")
}

func attrs(r gen.R, kv ...string) string {
	var out []string
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != "" {
			out = append(out, fmt.Sprintf(`%s="%s"`, kv[i], esc(kv[i+1])))
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	s := ""
	for _, a := range out {
		s += gen.Pick(r, []string{" ", " ", "\n        "}) + a
	}
	return s
}

func yes(b bool) string {
	if b {
		return "true"
	}
	return ""
}

func writeXML(r gen.R, ts []*model.SrcTerr, kind string) string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- generated -->\n<phoneNumberMetadata>\n  <territories>\n")
	for _, t := range ts {
		np := t.NPParsing
		if np != "" && r.P(3) {
			np = blank(r, np)
		}
		fmt.Fprintf(&b, "    <!-- %s -->\n    <territory%s>\n", t.ID, attrs(r, "id", t.ID, "countryCode", fmt.Sprint(t.CC), "internationalPrefix", t.IntlPrefix,
			"preferredInternationalPrefix", t.PrefIntlPrefix, "nationalPrefix", t.NatPrefix, "preferredExtnPrefix", t.PrefExtn, "nationalPrefixForParsing", np,
			"nationalPrefixTransformRule", t.NPTransform, "mainCountryForCode", yes(t.MainCountry), "mobileNumberPortableRegion", yes(t.Portable),
			"leadingDigits", t.LeadingDigits, "nationalPrefixFormattingRule", t.NPRule, "carrierCodeFormattingRule", t.CCRule, "nationalPrefixOptionalWhenFormatting", yes(t.NPOptional)))
		if r.P(5) {
			b.WriteString("      <references>\n        <sourceUrl>http://www.itu.int/oth/T0202000001/en</sourceUrl>\n      </references>\n")
		}
		if len(t.Formats) > 0 {
			b.WriteString("      <availableFormats>\n")
			for _, f := range t.Formats {
				opt := ""
				if f.NPOptional != nil {
					opt = fmt.Sprint(*f.NPOptional)
				}
				fmt.Fprintf(&b, "        <numberFormat%s>\n", attrs(r, "pattern", f.Pattern, "nationalPrefixFormattingRule", f.NPRule, "carrierCodeFormattingRule", f.CCRule, "nationalPrefixOptionalWhenFormatting", opt))
				for _, l := range f.Leading {
					if r.P(8) {
						b.WriteString("          <!-- some places -->\n")
					}
					fmt.Fprintf(&b, "          <leadingDigits>%s</leadingDigits>\n", esc(blank(r, l)))
				}
				fmt.Fprintf(&b, "          <format>%s</format>\n", esc(f.Format))
				for _, i := range f.Intl {
					fmt.Fprintf(&b, "          <intlFormat>%s</intlFormat>\n", esc(i))
				}
				b.WriteString("        </numberFormat>\n")
			}
			b.WriteString("      </availableFormats>\n")
		}
		var tags []string
		for tag := range t.Descs {
			tags = append(tags, tag)
		}
		sort.Strings(tags)
		if r.P(3) {
			r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
		}
		for _, tag := range tags {
			d := t.Descs[tag]
			var parts []string
			if d.Pattern != "" {
				parts = append(parts, fmt.Sprintf("        <nationalNumberPattern>%s</nationalNumberPattern>\n", esc(blank(r, d.Pattern))))
			}
			if !d.NoLengths {
				parts = append(parts, fmt.Sprintf("        <possibleLengths%s/>\n", attrs(r, "national", lengthList(r, d.National), "localOnly", lengthList(r, d.Local))))
			}
			if d.Example != "" {
				parts = append(parts, fmt.Sprintf("        <exampleNumber>%s</exampleNumber>\n", d.Example))
			}
			r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
			fmt.Fprintf(&b, "      <%s>\n%s      </%s>\n", tag, strings.Join(parts, ""), tag)
		}
		b.WriteString("    </territory>\n\n")
	}
	b.WriteString("  </territories>\n</phoneNumberMetadata>\n")
	return b.String()
}

// files writes the sources out.
func (u *upstream) files(r gen.R) map[string]string {
	fs := map[string]string{"README.md": "upstream\n", "resources/carrier/README": "not a language\n", "resources/geocoding/LICENSE": "neither\n"}
	for kind, ts := range u.terr {
		fs[upstreamFiles[kind]] = writeXML(r, ts, kind)
	}
	lines := func(es [][2]string) string {
		var b strings.Builder
		b.WriteString("# Copyright\n#1234|not data\n\n")
		for _, e := range es {
			if r.P(20) {
				b.WriteString(gen.Pick(r, []string{"\n", "# 12|comment\n", "   \n", "#\n"}))
			}
			b.WriteString(e[0] + "|" + e[1] + "\n")
		}
		s := b.String()
		if r.P(3) {
			s = strings.TrimSuffix(s, "\n")
		}
		return s
	}
	fs[upstreamFiles["tz"]] = lines(u.tz)
	for what, langs := range u.names {
		for lang, files := range langs {
			for f, es := range files {
				fs["resources/"+what+"/"+lang+"/"+f] = lines(es)
			}
			fs["resources/"+what+"/"+lang+"/notes.md"] = "99|not read\n"
		}
	}
	if u.edit != nil {
		u.edit(fs)
	}
	return fs
}

func drop(m map[string]string, k string) { delete(m, k) }

// expect is what a completed build must have produced, by output file.
func (u *upstream) expect() map[string]string {
	out := map[string]string{}
	show := func(kind string) string {
		s := ""
		for _, t := range u.terr[kind] {
			s += t.Compile(kind).Show() + "\n"
		}
		return s
	}
	out["metadata/data/metadata.xml.gz"] = show("main")
	out["data/shortnumber_metadata.xml.gz"] = show("short")
	out["data/alternateformats_metadata.xml.gz"] = show("alt")
	codes := map[string][]string{}
	for _, main := range []bool{true, false} {
		for _, t := range u.terr["main"] {
			if t.MainCountry == main {
				k := fmt.Sprint(t.CC)
				codes[k] = append(codes[k], t.ID)
			}
		}
	}
	out["metadata/data/countrycode_to_region.xml.gz"] = showMap(codes)
	tz := map[string][]string{}
	for _, e := range u.tz {
		tz[e[0]] = strings.Split(e[1], "&")
	}
	out["timezone/data/prefix_to_timezone.xml.gz"] = showMap(tz)
	for what, langs := range u.names {
		for lang, files := range langs {
			m := map[string]string{}
			for _, es := range files {
				for _, e := range es {
					if strings.TrimSpace(e[1]) != "" {
						m[e[0]] = e[1]
					}
				}
			}
			out[what+"/data/"+lang+".txt.gz"] = showMap(m)
		}
	}
	return out
}

func showMap[V any](m map[string]V) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q\n", k, any(m[k]))
	}
	return b.String()
}

// readOutput decodes an output file with the model's decoders.
func readOutput(dir, name string) (string, error) {
	b, err := model.Gunzip(filepath.Join(dir, name))
	if err != nil {
		return "", err
	}
	switch {
	case strings.HasSuffix(name, "metadata.xml.gz"):
		ms, err := model.DecodeCollection(b)
		s := ""
		for _, m := range ms {
			s += m.Show() + "\n"
		}
		return s, err
	case strings.HasSuffix(name, ".xml.gz"):
		m, err := model.DecodeArrayMap(b)
		return showMap(m), err
	}
	m, err := model.DecodePrefixMap(b)
	return showMap(m), err
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "<end>", "<end>"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d: built %s, the sources say %s", i+1, p, q)
		}
	}
	return ""
}

// scratchBuild is a directory with an upstream repository and a place to build in.
type scratchBuild struct {
	prepare func(dir string) // before the build step runs in dir
	dir     string
	env     []string
	c       *core.Case
}

func newScratchBuild(c *core.Case) *scratchBuild {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "build")
	if err != nil {
		panic(err)
	}
	s := &scratchBuild{dir: dir, c: c}
	s.env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=" + dir + "/gitconfig", "GIT_TERMINAL_PROMPT=0", "LANG=C"}
	os.WriteFile(dir+"/gitconfig", []byte("[user]\n\tname = u\n\temail = u@example.org\n[url \"file://"+dir+"/up\"]\n\tinsteadOf = "+upstreamURL+"\n\tinsteadOf = "+strings.TrimSuffix(upstreamURL, ".git")+"\n[init]\n\tdefaultBranch = master\n[safe]\n\tdirectory = *\n[advice]\n\tdetachedHead = false\n[gc]\n\tauto = 0\n"), 0o644)
	os.Mkdir(dir+"/up", 0o755)
	s.git("init", "-q")
	return s
}

func (s *scratchBuild) git(a ...string) {
	cmd := exec.Command("git", append([]string{"-C", s.dir + "/up"}, a...)...)
	cmd.Env = s.env
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("harness: git %v: %v %s", a, err, out))
	}
}

// commit makes the sources a commit with tags.
func (s *scratchBuild) commit(files map[string]string, tags ...string) {
	s.git("rm", "-rq", "--ignore-unmatch", ".")
	for n, t := range files {
		p := filepath.Join(s.dir, "up", n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(t), 0o644)
	}
	s.git("add", "-A")
	s.git("commit", "-qm", "x", "--allow-empty")
	for i, t := range tags {
		if i%2 == 0 {
			s.git("tag", t)
		} else {
			s.git("tag", "-a", "-m", t, t)
		}
	}
}

const oldVersion = "// Code generated by cmd/buildmetadata. DO NOT EDIT.\n\npackage metadata\n\nconst Version = \"v0.0.1\"\n"

// build runs the build step in a fresh working directory.
func (s *scratchBuild) build(name string, args ...string) (dir, output string, rc int) {
	dir = filepath.Join(s.dir, name)
	for _, d := range []string{"data", "metadata/data", "timezone/data", "carrier/data", "geocoding/data", "_build/resources"} {
		os.MkdirAll(filepath.Join(dir, d), 0o755)
	}
	os.WriteFile(dir+"/_build/resources/PhoneNumberMetadata.xml", []byte("left over from an earlier build"), 0o644)
	os.WriteFile(dir+"/metadata/version.go", []byte(oldVersion), 0o644)
	for _, what := range []string{"carrier", "geocoding"} { // languages of an earlier release
		for _, lang := range []string{"qq", "zz_Hans"} {
			os.WriteFile(dir+"/"+what+"/data/"+lang+".txt.gz", []byte("x"), 0o644)
		}
	}
	if s.prepare != nil {
		s.prepare(dir)
	}
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_TMP"), "buildmetadata"), args...)
	cmd.Dir, cmd.Env = dir, s.env
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	t := time.AfterFunc(200*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	rc = 0
	if err != nil {
		rc = cmd.ProcessState.ExitCode()
	}
	s.c.Eval()
	return dir, out.String(), rc
}

func versionOf(dir string) string {
	f, err := parser.ParseFile(token.NewFileSet(), dir+"/metadata/version.go", nil, 0)
	if err != nil {
		return "does not parse: " + err.Error()
	}
	v := "package " + f.Name.Name
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.ValueSpec); ok && len(s.Names) == 1 && s.Names[0].Name == "Version" && len(s.Values) == 1 {
			if l, ok := s.Values[0].(*ast.BasicLit); ok {
				v, _ = strconv.Unquote(l.Value)
			}
		}
		return true
	})
	return v
}

// check compares the result of a build that had to succeed.
func (s *scratchBuild) check(u *upstream, dir, output string, rc int, version, what0 string) bool {
	if rc != 0 {
		s.c.Fail("build fails", "%s: the build step refuses well-formed sources (exit %d): %s", what0, rc, tail(output, 600))
		return false
	}
	for f, want := range u.expect() {
		got, err := readOutput(dir, f)
		if err != nil {
			s.c.Fail("output "+f, "%s: %s cannot be read: %v", what0, f, err)
			return false
		}
		s.c.Tag("output file compared")
		if got != want {
			s.c.Fail("output "+f, "%s: %s: %s", what0, f, firstDiff(got, want))
			return false
		}
	}
	for _, what := range []string{"carrier", "geocoding"} {
		fs, _ := filepath.Glob(dir + "/" + what + "/data/*.txt.gz")
		for _, f := range fs {
			lang := strings.TrimSuffix(filepath.Base(f), ".txt.gz")
			if _, ok := u.names[what][lang]; !ok {
				s.c.Fail("language left over", "%s: %s/data still has language %q, which the sources do not", what0, what, lang)
				return false
			}
		}
	}
	if v := versionOf(dir); v != version {
		s.c.Fail("version", "%s: built from %s, version.go says %q", what0, version, v)
		return false
	}
	return true
}

func (s *scratchBuild) close() { os.RemoveAll(s.dir) }

var descPatterns = []string{`[2-9]\d{7}`, `\d{5,11}`, `(?:1|[2-9])\d{6}`, `80[02]\d{5}`, `9(?:0[1-46-9]|[1-8]\d|9[0-3])\d{5}`, `1\d\d`, `11[2-5]`, `112|911`, `7[1-57-9]\d{8}|800\d{4,7}`, `(?:0[1-9]\d*|1)\d{3}`}

func pickLengths(r gen.R, lo, hi, n int) []int32 {
	m := map[int32]bool{}
	for i := 0; i < n; i++ {
		k := lo + r.Intn(hi-lo+1)
		m[int32(k)] = true
		for r.P(2) && k < hi {
			k++
			m[int32(k)] = true
		}
	}
	var out []int32
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func subset(r gen.R, ls []int32) []int32 {
	var out []int32
	for _, l := range ls {
		if !r.P(3) {
			out = append(out, l)
		}
	}
	if len(out) == 0 {
		out = append(out, ls[r.Intn(len(ls))])
	}
	return out
}

func minus(a, b []int32) []int32 {
	var out []int32
	for _, x := range a {
		in := false
		for _, y := range b {
			in = in || x == y
		}
		if !in {
			out = append(out, x)
		}
	}
	return out
}

func srcTerritory(r gen.R, kind, id string, cc int) *model.SrcTerr {
	t := &model.SrcTerr{ID: id, CC: int32(cc), Descs: map[string]*model.SrcDesc{}}
	maybe := func(n int, xs ...string) string {
		if r.P(n) {
			return gen.Pick(r, xs)
		}
		return ""
	}
	desc := func() *model.SrcDesc {
		p := gen.Pick(r, descPatterns)
		return &model.SrcDesc{Pattern: p, Example: maybe(2, "21234567", "0612345678", "112")}
	}
	if kind != "short" {
		t.NatPrefix = maybe(2, "0", "1", "8", "06", "0~0", "01")
		t.NPRule = maybe(3, "$NP$FG", "($NP$FG)", "$NP ($FG)", "$FG", "8 ($FG)", "$NP $FG")
		t.CCRule = maybe(4, "$NP$CC $FG", "$NP $CC ($FG)", "$FG $CC", "$CC $FG")
		t.NPOptional = r.P(4)
		for k := r.Intn(4); k > 0; k-- {
			f := &model.SrcFmt{Pattern: gen.Pick(r, []string{`(\d{2})(\d{3})(\d{3})`, `(\d{3})(\d{4})`, `(\d)(\d{4})(\d{4,5})`, `(\d{4})(\d+)`}), Format: gen.Pick(r, []string{"$1 $2", "$1 $2 $3", "$1-$2", "($1) $2-$3", "$2 15-$3", "$1/$2 & $3"})}
			for n := r.Intn(4); n > 0; n-- {
				f.Leading = append(f.Leading, gen.Pick(r, []string{"1", "[2-9]", "1|[3-5]", "9(?:1|[2-5])", "(?:1[2-9]|33)", "80[0-2]"}))
			}
			f.NPRule = maybe(3, "$NP$FG", "($FG)", "$NP-$FG", "$FG", "0$FG")
			f.CCRule = maybe(3, "$NP$CC-$FG", "$FG $CC", "$CC$FG", "0 $CC $FG")
			if r.P(3) {
				v := r.P(2)
				f.NPOptional = &v
			}
			if kind == "main" && r.P(3) {
				f.Intl = []string{gen.Pick(r, []string{"NA", "$1 $2", "$1-$2-$3", "$2 $3", f.Format})}
			}
			t.Formats = append(t.Formats, f)
		}
	}
	if kind == "alt" {
		t.ID = ""
		return t
	}
	if kind == "main" {
		t.IntlPrefix = maybe(2, "00", "011", "0[01]", "00(?:1|2)", "8~10")
		t.PrefIntlPrefix = maybe(5, "00", "8~10", "0011")
		t.PrefExtn = maybe(6, " ext. ", " x", ";ext=")
		t.LeadingDigits = maybe(6, "2[1-9]", "33|639", "(?:7|9)")
		t.Portable = r.P(3)
		t.NPParsing = maybe(3, "0(?:(11|343)15)?", "1|0(?:2|3)", "0", "8(10)?")
		t.NPTransform = maybe(4, "9$1", "$1", "7$1")
	}
	t.Descs["generalDesc"] = &model.SrcDesc{Pattern: gen.Pick(r, descPatterns), NoLengths: true}
	if kind == "main" {
		uni := map[int32]bool{}
		shared := pickLengths(r, 4, 14, 1)
		for _, tag := range model.MainTags[:10] {
			if r.P(2) {
				continue
			}
			d := desc()
			d.National = pickLengths(r, 4, 14, 1+r.Intn(2))
			if r.P(2) {
				d.National = shared
			}
			if r.P(3) {
				d.Local = minus(pickLengths(r, 3, 12, 1), d.National)
			}
			d.NoLengths = r.P(25)
			if d.NoLengths {
				d.National, d.Local = nil, nil
			}
			for _, l := range d.National {
				uni[l] = true
			}
			t.Descs[tag] = d
		}
		if f, m := t.Descs["fixedLine"], t.Descs["mobile"]; f != nil && m != nil && r.P(4) {
			m.Pattern = f.Pattern
		}
		if len(uni) > 0 && r.P(3) {
			var all []int32
			for l := range uni {
				all = append(all, l)
			}
			sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
			d := desc()
			d.National = subset(r, all)
			if r.P(3) {
				d.National = all
			}
			t.Descs["noInternationalDialling"] = d
		}
		return t
	}
	sc := desc()
	sc.National = pickLengths(r, 2, 7, 1+r.Intn(2))
	t.Descs["shortCode"] = sc
	for _, tag := range model.ShortTags {
		if tag == "shortCode" || r.P(2) {
			continue
		}
		d := desc()
		d.National = subset(r, sc.National)
		t.Descs[tag] = d
	}
	return t
}

func manyZones(n int) string {
	var zs []string
	for i := 0; i < n; i++ {
		zs = append(zs, fmt.Sprintf("Zone/%d", i))
	}
	return strings.Join(zs, "&")
}

// source makes an upstream of its own.
func source(r gen.R) *upstream {
	u := &upstream{terr: map[string][]*model.SrcTerr{}, names: map[string]map[string]map[string][][2]string{}}
	used := map[string]bool{}
	id := func() string {
		for {
			s := string(rune('A'+r.Intn(26))) + string(rune('A'+r.Intn(26)))
			if !used[s] {
				used[s] = true
				return s
			}
		}
	}
	cc := 1
	for n := 5 + r.Intn(40); n > 0; n-- {
		cc += 1 + r.Intn(20)
		k := 1
		if r.P(4) {
			k = 2 + r.Intn(4)
		}
		main := -1
		if k > 1 {
			main = r.Intn(k + 1)
		}
		if k == 1 && r.P(8) {
			u.terr["main"] = append(u.terr["main"], srcTerritory(r, "main", "001", cc))
			continue
		}
		for i := 0; i < k; i++ {
			t := srcTerritory(r, "main", id(), cc)
			t.MainCountry = i == main
			u.terr["main"] = append(u.terr["main"], t)
		}
		if r.P(3) {
			u.terr["alt"] = append(u.terr["alt"], srcTerritory(r, "alt", "", cc))
		}
	}
	r.Shuffle(len(u.terr["main"]), func(i, j int) { u.terr["main"][i], u.terr["main"][j] = u.terr["main"][j], u.terr["main"][i] })
	for _, t := range u.terr["main"] {
		if t.ID != "001" && !r.P(3) {
			u.terr["short"] = append(u.terr["short"], srcTerritory(r, "short", t.ID, int(t.CC)))
		}
	}
	if u.terr["alt"] == nil {
		u.terr["alt"] = []*model.SrcTerr{srcTerritory(r, "alt", "", 1)}
	}
	if u.terr["short"] == nil {
		u.terr["short"] = []*model.SrcTerr{srcTerritory(r, "short", "US", 1)}
	}
	zones := []string{"America/New_York", "Europe/Berlin", "Asia/Tokyo", "Africa/Lagos", "Etc/Unknown", "America/Argentina/Buenos_Aires", "Pacific/Apia", "Atlantic/Azores"}
	prefixes := func(n int) []string {
		seen := map[string]bool{}
		var out []string
		for i := 0; i < n; i++ {
			p := string(rune('1'+r.Intn(9))) + r.Digits(r.Intn(11))
			if !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
		return out
	}
	for _, p := range prefixes(1 + r.Intn(200)) {
		var zs []string
		for _, i := range r.Perm(len(zones))[:1+r.Intn(4)] {
			zs = append(zs, zones[i])
		}
		u.tz = append(u.tz, [2]string{p, strings.Join(zs, "&")})
	}
	if r.P(3) { // as many as the format holds
		p, used := "9"+r.Digits(6), false
		for _, e := range u.tz {
			used = used || e[0] == p
		}
		if !used {
			u.tz = append(u.tz, [2]string{p, manyZones(255)})
		}
	}
	for _, what := range []string{"carrier", "geocoding"} {
		u.names[what] = map[string]map[string][][2]string{}
		for _, lang := range []string{"en", "de", "zh", "zh_Hant", "sr", "pt_BR"} {
			if lang != "en" && r.P(2) {
				continue
			}
			files := map[string][][2]string{}
			fn := []string{"1.txt", "44.txt", "1201.txt"}[:1+r.Intn(3)]
			for _, f := range fn {
				files[f] = nil
			}
			for _, p := range prefixes(1 + r.Intn(300)) {
				f := gen.Pick(r, fn)
				v := gen.Pick(r, []string{"Orange", "T-Mobile", "中国移动", "Zürich, ZH", "O'Hare & Co.", "a", "Лайф", "São Paulo - SP", "", " ", "Vodafone " + r.Digits(2), "N#1", "x;y,z"})
				files[f] = append(files[f], [2]string{p, v})
			}
			u.names[what][lang] = files
		}
	}
	return u
}

// fault breaks the sources of u in some way and says how; force asks for one
// of the ways of the other tables.
func fault(r gen.R, u *upstream, force int) string {
	kind := gen.Pick(r, []string{"main", "main", "short"})
	ts := u.terr[kind]
	var cand []*model.SrcTerr
	for _, t := range ts {
		if len(t.Descs) > 1 {
			cand = append(cand, t)
		}
	}
	if len(cand) == 0 {
		t := srcTerritory(r, kind, "QQ", 999)
		for len(t.Descs) < 2 {
			t = srcTerritory(r, kind, "QQ", 999)
		}
		u.terr[kind] = append(u.terr[kind], t)
		cand = append(cand, t)
	}
	t := gen.Pick(r, cand)
	var tags []string
	for tag := range t.Descs {
		if tag != "generalDesc" && !t.Descs[tag].NoLengths {
			tags = append(tags, tag)
		}
	}
	sort.Strings(tags)
	file := upstreamFiles[kind]
	replace := func(re, with string) string {
		u.edit = func(fs map[string]string) {
			rx := regexp.MustCompile(re)
			all := rx.FindAllStringIndex(fs[file], -1)
			if len(all) == 0 {
				fs[file] = "<broken" // nothing to damage like that: damage it all
				return
			}
			p := all[r.Intn(len(all))]
			fs[file] = fs[file][:p[0]] + with + fs[file][p[1]:]
		}
		return fmt.Sprintf("%s: one %s became %s", kind, re, with)
	}
	addFormat := func(edit func(*model.SrcTerr, *model.SrcFmt)) {
		k := gen.Pick(r, []string{"main", "alt"})
		x := gen.Pick(r, u.terr[k])
		f := &model.SrcFmt{Pattern: `(\d{3})(\d{4})`, Format: "$1 $2"}
		edit(x, f)
		x.Formats = append(x.Formats, f)
	}
	way := r.Intn(20)
	if force >= 0 {
		way = -1
	}
	switch way {
	case 0:
		k := gen.Pick(r, []string{"main", "short", "alt"})
		damage := gen.Pick(r, []string{`</territory>`, `</territories>`, `<territory `, `>`, `"`})
		u.edit = func(fs map[string]string) {
			f := upstreamFiles[k]
			all := regexp.MustCompile(damage).FindAllStringIndex(fs[f], -1)
			if len(all) == 0 {
				fs[f] = "<broken"
				return
			}
			p := all[r.Intn(len(all))]
			if damage == `>` || damage == `"` { // cut off there
				fs[f] = fs[f][:p[0]]
			} else {
				fs[f] = fs[f][:p[0]] + fs[f][p[1]:]
			}
		}
		return k + ": document damaged at " + damage
	case 1:
		return replace(`<nationalNumberPattern>`, `<nationalNumberPattern>(`)
	case 2:
		k := gen.Pick(r, []string{"main", "short", "alt", "tz"})
		u.edit = func(fs map[string]string) { drop(fs, upstreamFiles[k]) }
		return k + " file missing"
	case 3:
		addFormat(func(_ *model.SrcTerr, f *model.SrcFmt) { f.Intl = []string{"$1-$2", "$1 $2"} })
		return "two international formats"
	case 4:
		addFormat(func(_ *model.SrcTerr, f *model.SrcFmt) { f.Leading = []string{"1", "[2-"} })
		return "leading digits that are no pattern"
	case 5:
		addFormat(func(_ *model.SrcTerr, f *model.SrcFmt) { f.Pattern = `(\d{3}` })
		return "format pattern that is no pattern"
	case 6:
		t.IntlPrefix = "0(1"
		return "international prefix that is no pattern"
	case 7:
		t.NPParsing = "0[1"
		return "national prefix for parsing that is no pattern"
	case 8:
		t.LeadingDigits = "2[1"
		return "territory leading digits that are no pattern"
	case 9:
		t.Descs["generalDesc"] = &model.SrcDesc{Pattern: `\d+`, National: []int32{5}}
		return kind + ": lengths given for the general description"
	}
	if len(tags) > 0 && force < 0 {
		tag := gen.Pick(r, tags)
		d := t.Descs[tag]
		switch r.Intn(9) {
		case 0:
			d.Local = d.National[:1]
			if v := d.National[0]; r.P(2) {
				d.Local = []int32{v, v + 1, v + 2, v + 3}
			}
			return kind + ": " + tag + ": a length both national and local only"
		case 1:
			return replace(`national="[^"]*"`, `national="`+gen.Pick(r, []string{",5", "5,", "5,,6", "[5-8", "[5]", "[5-6]", "[8-5]", "[5-8],"})+`"`)
		case 2:
			return replace(`national="[^"]*"`, `national="`+gen.Pick(r, []string{"x", "[a-9]", "[3-b]", "5;6", "6 7", "5,l0", "[3-5-7]", "[-9]", "[4-]"})+`"`)
		case 3:
			if kind == "short" {
				d.Local = []int32{9}
				return "short numbers with local-only lengths"
			}
			t.Descs["noInternationalDialling"] = &model.SrcDesc{Pattern: `\d+`, National: []int32{17}}
			if r.P(2) {
				t.Descs["noInternationalDialling"] = &model.SrcDesc{Pattern: `\d+`, National: d.National, Local: []int32{17}}
				return "noInternationalDialling with a local-only length no other kind has"
			}
			return "noInternationalDialling with a length no other kind has"
		case 4:
			u := srcTerritory(r, "short", "ZQ", 1)
			u.Descs["emergency"] = &model.SrcDesc{Pattern: "112", National: []int32{9}}
			t.Descs = u.Descs
			if kind == "main" {
				delete(t.Descs, "noInternationalDialling")
				t.Descs["generalDesc"] = &model.SrcDesc{National: []int32{3}}
			}
			return kind + ": emergency number longer than the short codes"
		}
	}
	prefixes := []string{"4x4", "-44", "", "4 4"}
	if way = r.Intn(12); force >= 12 {
		way, prefixes = 4, prefixes[force-12:force-11]
	} else if force >= 0 {
		way = force
	}
	switch way {
	case 9:
		what := gen.Pick(r, []string{"carrier", "geocoding"})
		u.edit = func(fs map[string]string) { fs["resources/"+what+"/en/zz.txt"] = manyNames(70000) }
		return what + ": more names than the format can number"
	case 0:
		p := u.tz[r.Intn(len(u.tz))]
		u.tz = append(u.tz, [2]string{p[0] + "7", "Asia/Tokyo|Asia/Seoul"})
		return "time zone line with two separators"
	case 1:
		u.tz = append(u.tz, [2]string{"12x", "Asia/Tokyo"})
		return "time zone prefix that is no number"
	case 2:
		f := upstreamFiles["tz"]
		u.edit = func(fs map[string]string) { fs[f] += "\n4412 Europe/London\n" }
		return "time zone line without separator"
	case 10:
		what := gen.Pick(r, []string{"carrier", "geocoding"})
		u.edit = func(fs map[string]string) { fs["resources/"+what+"/en/zz.txt/x"] = "44|One\n" }
		return what + ": a directory for a file"
	case 3:
		what := gen.Pick(r, []string{"carrier", "geocoding"})
		u.edit = func(fs map[string]string) {
			fs["resources/"+what+"/en/zz.txt"] = "777777|One\n"
			fs["resources/"+what+"/en/zy.txt"] = "# x\n777777|Two\n"
		}
		return what + ": one prefix in two files of a language"
	case 4:
		what := gen.Pick(r, []string{"carrier", "geocoding"})
		p := gen.Pick(r, prefixes)
		u.edit = func(fs map[string]string) { fs["resources/"+what+"/en/zz.txt"] = p + "|One\n" }
		return what + fmt.Sprintf(": prefix %q", p)
	case 5:
		p := u.tz[r.Intn(len(u.tz))]
		u.tz = append(u.tz, [2]string{p[0], gen.Pick(r, []string{"Asia/Seoul", "Etc/GMT", p[1]})})
		return "one time zone prefix twice"
	case 6:
		u.tz = append(u.tz, [2]string{"-" + u.tz[0][0], "Asia/Tokyo"})
		return "negative time zone prefix"
	case 7:
		n := 0
		for a := 'A'; a <= 'Z'; a++ {
			for b := 'A'; b <= 'Z' && n < 256; b++ {
				t := srcTerritory(r, "main", string(a)+string(b)+"X", 997)
				t.Descs = map[string]*model.SrcDesc{"generalDesc": t.Descs["generalDesc"]}
				u.terr["main"] = append(u.terr["main"], t)
				n++
			}
		}
		return "more territories with one calling code than the format can hold"
	case 8:
		u.tz = u.tz[:1]
		for i := 0; i < 330; i++ {
			u.tz = append(u.tz, [2]string{fmt.Sprint(1000000000000 + i), strings.ReplaceAll(manyZones(200), "Zone", fmt.Sprintf("Zone%d", i))})
		}
		return "more time zones than the format can number"
	default:
		u.tz = append(u.tz, [2]string{"99999", manyZones(gen.Pick(r, []int{256, 257, 300, 511, 512, 513}))})
		return "more time zones for a prefix than the format can hold"
	}
}

// manyNames is a source of that many different names.
func manyNames(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "%d|Name %d\n", 3000000000000+i, i)
	}
	return b.String()
}

// decompiled is the tree's own data written back as sources.
func (e *env) decompiled() *upstream {
	u := &upstream{terr: map[string][]*model.SrcTerr{}, names: map[string]map[string]map[string][][2]string{}}
	add := func(kind string, m *model.Meta) {
		if s, ok := model.Decompile(m, kind); ok {
			u.terr[kind] = append(u.terr[kind], s)
			e.Tag("territory of the tree written back: "+kind, 1)
		}
	}
	for _, m := range e.m.All {
		add("main", m)
	}
	for _, k := range e.g.Regions {
		if m := e.m.Short[k]; m != nil {
			add("short", m)
		}
	}
	for _, k := range e.g.Codes {
		if m := e.m.Alt[k]; m != nil {
			add("alt", m)
		}
	}
	for p, z := range e.t.TZ {
		u.tz = append(u.tz, [2]string{p, strings.Join(z, "&")})
	}
	sort.Slice(u.tz, func(i, j int) bool { return u.tz[i][0] < u.tz[j][0] })
	for _, what := range []string{"carrier", "geocoding"} {
		u.names[what] = map[string]map[string][][2]string{}
		fs, _ := filepath.Glob(filepath.Join(e.Repo, what, "data", "*.txt.gz"))
		for _, f := range fs {
			lang := strings.TrimSuffix(filepath.Base(f), ".txt.gz")
			files := map[string][][2]string{}
			for p, v := range model.PrefixTable(filepath.Dir(f), lang) {
				if strings.TrimSpace(v) != v || strings.Contains(v, "|") {
					continue
				}
				k := p[:min(2, len(p))] + ".txt"
				files[k] = append(files[k], [2]string{p, v})
			}
			u.names[what][lang] = files
		}
	}
	return u
}

func checkBuild(e *env) {
	e.Rule = "distinct source trees built or refused; non-trivial means the build step ran on them and its outputs (or its refusal) were compared"
	e.Ctx.Run("own-data", 1, func(c *core.Case) {
		u := e.decompiled()
		s := newScratchBuild(c)
		defer s.close()
		s.commit(u.files(c.R), "v1.2.3")
		dir, out, rc := s.build("w", "v1.2.3")
		if s.check(u, dir, out, rc, "v1.2.3", "the tree's own data written back as sources") {
			c.Seen("own data")
			c.Tag("built")
		}
	})
	e.Ctx.Run("sources", e.N(64), func(c *core.Case) {
		u, old := source(c.R), source(c.R)
		s := newScratchBuild(c)
		defer s.close()
		vs := [][2]string{{"v9.0.9", "v9.0.31"}, {"v8.13.55", "v9.0.0"}, {"v9.9.9", "v10.0.0"}, {"v9.0.31", "v9.1.0"}, {"v9.0.99", "v9.0.100"}}
		v := gen.Pick(c.R, vs)
		if c.P(2) {
			s.commit(old.files(c.R), v[0], "libphonenumber-8.0.0")
			s.commit(u.files(c.R), "zz-last", v[1])
		} else {
			s.commit(u.files(c.R), "libphonenumber-99.0.0", v[1])
			s.commit(old.files(c.R), v[0])
		}
		c.Note("build %v", v)
		var args []string
		if c.P(2) {
			args = []string{v[1]}
			c.Tag("built at a given release")
		} else {
			c.Tag("built at the latest release")
		}
		dir, out, rc := s.build("w", args...)
		if !s.check(u, dir, out, rc, v[1], fmt.Sprintf("generated sources at %s (older release %s, asked for %q)", v[1], v[0], args)) {
			return
		}
		c.Seen(fmt.Sprint(u.expect()))
		c.Tag("built")
		c.Sample("built", map[string]any{"territories": len(u.terr["main"]), "short": len(u.terr["short"]), "alternate": len(u.terr["alt"]), "zones": len(u.tz), "version": v[1]})
		if c.Index%4 == 0 {
			dir2, out, rc := s.build("again", v[1])
			if rc != 0 {
				c.Fail("not repeatable", "a second build of the same release fails: %s", tail(out, 600))
				return
			}
			for f := range u.expect() {
				a, _ := os.ReadFile(filepath.Join(dir, f))
				b, _ := os.ReadFile(filepath.Join(dir2, f))
				if !bytes.Equal(a, b) {
					c.Fail("not repeatable", "two builds of the same release give different %s", f)
				}
			}
			c.Tag("built twice")
			// and the other release, over the results of this one
			dir, out, rc = s.build("w", v[0])
			s.check(old, dir, out, rc, v[0], fmt.Sprintf("generated sources at %s, built over those of %s", v[0], v[1]))
		}
	})
	e.Ctx.Run("faults", e.N(160), func(c *core.Case) {
		u := source(c.R)
		s := newScratchBuild(c)
		defer s.close()
		what := "no such release"
		ask := "v1.0.0"
		k := c.Intn(24)
		if c.Index < 3 { // the rarer ones in every run
			k = 24 + c.Index
		} else if c.Index < 35 {
			k = 23
		}
		switch k {
		case 24, 25:
			what = []string{"carrier", "geocoding"}[k-24] + ": more names than the format can number"
			u.edit = func(fs map[string]string) {
				fs["resources/"+strings.Split(what, ":")[0]+"/en/zz.txt"] = manyNames(66000)
			}
			s.commit(u.files(c.R), "v1.0.0")
		case 0:
			s.commit(u.files(c.R), "v2.0.0")
		case 2:
			s.commit(u.files(c.R), "v1.0.0")
			os.Mkdir(s.dir+"/empty", 0o755)
			s.env[0] = "PATH=" + s.dir + "/empty"
			what = "no git"
			if c.P(2) {
				ask = ""
			}
		case 3, 4, 26:
			s.commit(u.files(c.R), "v1.0.0")
			var outs []string
			for f := range u.expect() {
				outs = append(outs, f)
			}
			sort.Strings(outs)
			f := gen.Pick(c.R, outs)
			if what = f + " cannot be written"; c.P(8) || k == 26 {
				f, what = "metadata/version.go", "version.go cannot be written"
			}
			s.prepare = func(dir string) { // a directory in its place
				os.Remove(dir + "/" + f)
				os.Mkdir(dir+"/"+f, 0o755)
			}
		case 1:
			s.commit(u.files(c.R), "release-1")
			ask, what = "", "no release at all"
		default:
			force := -1
			if c.Index >= 3 && c.Index < 35 {
				force = (c.Index - 3) % 16
			}
			what = fault(c.R, u, force)
			s.commit(u.files(c.R), "v1.0.0")
		}
		c.Note("fault: %s", what)
		c.Tag("fault: " + regexp.MustCompile(`[^a-zA-Z ,:-].*`).ReplaceAllString(what, ""))
		var args []string
		if ask != "" {
			args = []string{ask}
		}
		dir, out, rc := s.build("w", args...)
		if rc == 0 {
			c.Fail("accepted", "the build step accepts damaged sources (%s): %s", what, tail(out, 600))
			return
		}
		if b, _ := os.ReadFile(dir + "/metadata/version.go"); string(b) != oldVersion && what != "version.go cannot be written" {
			c.Fail("version after failure", "a failed build (%s) changed version.go to %q", what, b)
			return
		}
		c.Tag("refused")
		c.Seen("fault", what, fmt.Sprint(c.Index))
		c.Sample("refused", map[string]any{"fault": what, "said": tail(out, 200)})
	})
	if (e.TagCount("built") == 0 || e.TagCount("refused") == 0) && e.Open() {
		fmt.Println("inconclusive: nothing built or nothing refused")
		os.Exit(3)
	}
}
