package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/nyaruka/phonenumbers/v2/metadata"
	"google.golang.org/protobuf/proto"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() {
	checks["C25"] = checkRelease
	checks["C25R"] = checkBuiltRelease
}

// release is a complete set of data files.
type release struct {
	*spread
	short, alt *metadata.PhoneMetadataCollection
	tables     map[string]map[string]string // by file, "carrier/data/en.txt.gz"
	zones      map[string][]string
}

func collection(path string) *metadata.PhoneMetadataCollection {
	b, err := model.Gunzip(path)
	c := &metadata.PhoneMetadataCollection{}
	if err == nil {
		err = proto.Unmarshal(b, c)
	}
	if err != nil {
		panic(err)
	}
	return c
}

func (e *env) release() *release {
	s := &release{spread: e.embedded(), tables: map[string]map[string]string{}, zones: map[string][]string{}}
	s.short = collection(filepath.Join(e.Repo, "data/shortnumber_metadata.xml.gz"))
	s.alt = collection(filepath.Join(e.Repo, "data/alternateformats_metadata.xml.gz"))
	for _, d := range []string{"carrier/data", "geocoding/data"} {
		for _, l := range e.langs(d) {
			t := map[string]string{}
			for k, v := range model.PrefixTable(filepath.Join(e.Repo, d), l) {
				t[k] = v
			}
			s.tables[d+"/"+l+".txt.gz"] = t
		}
	}
	for k, v := range e.t.TZ {
		s.zones[k] = v
	}
	return s
}

// ---- what a release may change ----

var placeNames = []string{"Nowhere", "Żywiec", "São Tomé", "東京", "مكة", "New Area, XX", "a", "O'Brien Telecom", "x|y", "Nowhere "}

// prefixKey makes an entry for some calling code.
func (s *release) prefixKey(r gen.R, have []string) string {
	var k string
	switch {
	case len(have) > 0 && r.P(2): // below an entry
		k = gen.Pick(r, have) + r.Digits(1+r.Intn(3))
	case len(have) > 0 && r.P(4): // above an entry
		k = gen.Pick(r, have)
		if len(k) > 1 {
			k = k[:len(k)-1-r.Intn(min(3, len(k)-1))]
		}
	default:
		var cs []string
		for c := range s.codes {
			cs = append(cs, strconv.Itoa(c))
		}
		sort.Strings(cs)
		k = gen.Pick(r, cs) + r.Digits(r.Intn(8))
	}
	if len(k) > 15 {
		k = k[:15]
	}
	return k
}

func sortedNames[V any](m map[string]V) []string { return keys(m) }

func (s *release) change(r gen.R) {
	file := gen.Pick(r, sortedNames(s.tables))
	t := s.tables[file]
	switch r.Intn(9) {
	case 0, 1: // entries come
		have := keys(t)
		n := 1 + r.Intn(30)
		for i := 0; i < n; i++ {
			t[s.prefixKey(r, have)] = gen.Pick(r, placeNames)
		}
		s.note("%s gains entries", file)
	case 2: // entries go
		n := 0
		for _, k := range keys(t) {
			if r.P(10) && len(t) > 1 {
				delete(t, k)
				n++
			}
		}
		s.note("%s loses %d entries", file, n)
	case 3: // a calling code goes
		have := keys(t)
		p := gen.Pick(r, have)
		p = p[:min(len(p), 1+r.Intn(3))]
		for _, k := range have {
			if strings.HasPrefix(k, p) && len(t) > 1 {
				delete(t, k)
			}
		}
		s.note("%s loses what begins with %s", file, p)
	case 4: // a language comes
		name := filepath.Dir(file) + "/" + gen.Pick(r, []string{"eo", "tlh", "pt_BR", "nb", "cy", "sw", "zu", "en_GB", "und"}) + ".txt.gz"
		n := map[string]string{}
		for _, k := range keys(t) {
			if len(n) < 3000 && r.P(3) {
				n[k] = gen.Pick(r, placeNames)
			}
		}
		n[s.prefixKey(r, nil)] = "eo"
		s.tables[name] = n
		s.note("%s is new", name)
	case 5: // a language goes
		if filepath.Base(file) != "en.txt.gz" {
			delete(s.tables, file)
			s.note("%s is gone", file)
		}
	case 6: // zones
		have := keys(s.zones)
		for i := 1 + r.Intn(20); i > 0; i-- {
			k := s.prefixKey(r, have)
			s.zones[k] = nil
			n := 1 + r.Intn(4)
			if r.P(8) {
				n = 100 + r.Intn(156)
			}
			for j := n; j > 0; j-- {
				s.zones[k] = append(s.zones[k], gen.Pick(r, []string{"Europe/Paris", "America/Nome", "Asia/Tokyo", "Etc/Unknown", "Antarctica/Troll", "Pacific/Apia"}))
			}
		}
		for _, k := range have {
			if r.P(40) {
				delete(s.zones, k)
			}
		}
		s.note("zones change")
	case 7:
		for i := 4; i > 0; i-- {
			s.changeShort(r)
		}
	case 8:
		for i := 4; i > 0; i-- {
			s.changeAlt(r)
		}
	}
}

func shortDescs(m *metadata.PhoneMetadata) []**metadata.PhoneNumberDesc {
	return []**metadata.PhoneNumberDesc{&m.TollFree, &m.PremiumRate, &m.Emergency, &m.ShortCode, &m.StandardRate, &m.CarrierSpecific, &m.SmsServices}
}

// sharedShort gives all territories of a shared calling code the same short codes, at costs
// that may differ between them.
func (s *release) sharedShort(r gen.R) {
	var codes []int
	for c, v := range s.codes {
		if len(v) > 1 && len(v) < 6 || len(v) > 1 && r.P(8) {
			codes = append(codes, c)
		}
	}
	sort.Ints(codes)
	if len(codes) == 0 {
		return
	}
	c := gen.Pick(r, codes)
	for _, reg := range s.codes[c] {
		var md *metadata.PhoneMetadata
		for _, m := range s.short.Metadata {
			if m.GetId() == reg {
				md = m
			}
		}
		if md == nil {
			md = proto.Clone(s.short.Metadata[r.Intn(len(s.short.Metadata))]).(*metadata.PhoneMetadata)
			md.Id = proto.String(reg)
			s.short.Metadata = append(s.short.Metadata, md)
		}
		desc := func(p string) *metadata.PhoneNumberDesc {
			return &metadata.PhoneNumberDesc{NationalNumberPattern: proto.String(p), PossibleLength: []int32{4}}
		}
		// 150x standard for all, 151x free for all, 152x-159x as it comes
		kinds := [3][]string{{"151"}, {"150"}, {}}
		for k := 2; k < 10; k++ {
			x := r.Intn(10)
			if k < 6 {
				x = r.Intn(2)
			}
			if x < 9 {
				x = x % 3
				kinds[x] = append(kinds[x], fmt.Sprintf("15%d", k))
			}
		}
		for i, d := range []**metadata.PhoneNumberDesc{&md.TollFree, &md.StandardRate, &md.PremiumRate} {
			*d = desc(`7777`)
			if len(kinds[i]) > 0 {
				*d = desc("(?:" + strings.Join(kinds[i], "|") + `)\d`)
			}
		}
		md.ShortCode = desc(`15\d\d|7777`)
		md.GeneralDesc = &metadata.PhoneNumberDesc{NationalNumberPattern: proto.String(`[0-9]\d{1,6}`)}
		shortLengths(md)
	}
	s.note("short numbers of +%d in all its territories", c)
}

func (s *release) changeShort(r gen.R) {
	if r.P(4) {
		s.sharedShort(r)
		return
	}
	all := s.short.Metadata
	i := r.Intn(len(all))
	md := all[i]
	ds := shortDescs(md)
	d := ds[r.Intn(len(ds))]
	switch r.Intn(8) {
	case 0:
		s.short.Metadata = append(append([]*metadata.PhoneMetadata{}, all[:i]...), all[i+1:]...)
		s.note("no short numbers in %s", md.GetId())
	case 1: // another territory's short numbers
		to := gen.Pick(r, s.regions())
		n := proto.Clone(md).(*metadata.PhoneMetadata)
		n.Id = proto.String(to)
		for k, m := range all {
			if m.GetId() == to {
				all[k] = n
				n = nil
				break
			}
		}
		if n != nil {
			s.short.Metadata = append(all, n)
		}
		s.note("short numbers of %s like %s", to, md.GetId())
	case 2: // fewer lengths than the pattern would allow
		if *d != nil && len((*d).PossibleLength) > 1 {
			k := r.Intn(len((*d).PossibleLength))
			(*d).PossibleLength = append(append([]int32{}, (*d).PossibleLength[:k]...), (*d).PossibleLength[k+1:]...)
			s.note("%s loses a short length", md.GetId())
		}
	case 3:
		o := ds[r.Intn(len(ds))]
		*d, *o = *o, *d
		s.note("%s exchanges two kinds of short numbers", md.GetId())
	case 4:
		*d = &metadata.PhoneNumberDesc{PossibleLength: []int32{-1}}
		s.note("%s loses a kind of short numbers", md.GetId())
	case 5: // numbers of two kinds at once
		o := ds[r.Intn(len(ds))]
		if *o != nil {
			*d = proto.Clone(*o).(*metadata.PhoneNumberDesc)
		}
		s.note("%s has short numbers of two kinds", md.GetId())
	case 6:
		if *d != nil {
			(*d).ExampleNumber = nil
		}
	case 7: // a pattern
		if *d != nil && (*d).NationalNumberPattern != nil {
			(*d).NationalNumberPattern = proto.String(gen.Pick(r, []string{`11\d`, `1\d{2,3}`, `9(?:11|99)`, `0\d\d`, `[1-9]\d{2,5}`, `112|911`}))
			(*d).PossibleLength = []int32{3, 4, 5, 6}[:1+r.Intn(4)]
		}
		s.note("%s has other short numbers", md.GetId())
	}
	if md.GeneralDesc != nil {
		shortLengths(md)
		if r.P(3) {
			md.GeneralDesc.NationalNumberPattern = proto.String(`[0-9]\d{1,6}`)
		}
	}
}

// shortLengths makes the general lengths those of all kinds together.
func shortLengths(md *metadata.PhoneMetadata) {
	have := map[int32]bool{}
	for _, p := range shortDescs(md) {
		for _, l := range (*p).GetPossibleLength() {
			have[l] = l > 0
		}
	}
	md.GeneralDesc.PossibleLength = nil
	for l := int32(1); l < 20; l++ {
		if have[l] {
			md.GeneralDesc.PossibleLength = append(md.GeneralDesc.PossibleLength, l)
		}
	}
	if len(md.GeneralDesc.PossibleLength) == 0 {
		md.GeneralDesc.PossibleLength = []int32{3}
	}
}

func (s *release) changeAlt(r gen.R) {
	all := s.alt.Metadata
	i := r.Intn(len(all))
	md := all[i]
	switch r.Intn(4) {
	case 0:
		if len(all) > 1 {
			s.alt.Metadata = append(append([]*metadata.PhoneMetadata{}, all[:i]...), all[i+1:]...)
			s.note("no alternate formats for %d", md.GetCountryCode())
		}
	case 1: // for another calling code, after its own formats
		like := s.find(gen.Pick(r, s.regions()))
		for _, m := range all {
			if m.GetCountryCode() == like.GetCountryCode() {
				return
			}
		}
		n := &metadata.PhoneMetadata{Id: proto.String(""), CountryCode: like.CountryCode, InternationalPrefix: proto.String("")}
		for _, f := range like.NumberFormat {
			f = proto.Clone(f).(*metadata.NumberFormat)
			f.NationalPrefixFormattingRule, f.NationalPrefixOptionalWhenFormatting, f.DomesticCarrierCodeFormattingRule = nil, nil, nil
			if len(f.LeadingDigitsPattern) > 1 {
				f.LeadingDigitsPattern = f.LeadingDigitsPattern[:1]
			}
			if r.P(2) {
				f.LeadingDigitsPattern = nil
			}
			if g := strings.Count(f.GetFormat(), " $"); g > 0 {
				f.Format = proto.String(strings.Replace(f.GetFormat(), " $", "$", 1+r.Intn(g)))
			}
			n.NumberFormat = append(n.NumberFormat, f)
		}
		if len(n.NumberFormat) > 0 {
			s.alt.Metadata = append(all, n)
			s.note("alternate formats for %d", like.GetCountryCode())
		}
	case 2:
		if k := len(md.NumberFormat); k > 1 {
			j := r.Intn(k)
			md.NumberFormat = append(append([]*metadata.NumberFormat{}, md.NumberFormat[:j]...), md.NumberFormat[j+1:]...)
			s.note("fewer alternate formats for %d", md.GetCountryCode())
		}
	case 3:
		f := gen.Pick(r, md.NumberFormat)
		f.Format = proto.String(strings.Replace(f.GetFormat(), " $", gen.Pick(r, []string{"-$", " $", " "}), 1))
		if !strings.Contains(f.GetFormat(), "$1") || strings.Count(f.GetFormat(), "$") != strings.Count(f.GetPattern(), "(")-strings.Count(f.GetPattern(), "(?:") {
			f.Format = proto.String("$1")
			f.Pattern = proto.String(`(\d+)`)
		}
		s.note("an alternate format of %d changes", md.GetCountryCode())
	}
}

// ---- data files ----

func gz(b []byte) []byte {
	var out bytes.Buffer
	z := gzip.NewWriter(&out)
	z.Write(b)
	z.Close()
	return out.Bytes()
}

func encodeTable[V any](t map[string]V, vals func(V) []string, count bool) []byte {
	var ks []uint64
	seen := map[string]bool{}
	var names []string
	for k, v := range t {
		n, err := strconv.ParseUint(k, 10, 63)
		if err != nil || strconv.FormatUint(n, 10) != k {
			continue // no table has such an entry
		}
		ks = append(ks, n)
		for _, s := range vals(v) {
			if !seen[s] {
				seen[s] = true
				names = append(names, s)
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	sort.Strings(names)
	at := map[string]uint16{}
	for i, n := range names {
		at[n] = uint16(i)
	}
	all := strings.Join(names, "\n")
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(all)))
	b = append(b, all...)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(ks)))
	last := uint64(0)
	for _, k := range ks {
		b = binary.AppendUvarint(b, k-last)
		last = k
		vs := vals(t[strconv.FormatUint(k, 10)])
		if count {
			b = append(b, byte(len(vs)))
		}
		for _, v := range vs {
			b = binary.LittleEndian.AppendUint16(b, at[v])
		}
	}
	return gz(b)
}

// write lays the files out below dir and returns their names.
func (s *release) write(dir string) ([]string, error) {
	files := map[string][]byte{}
	for name, c := range map[string]*metadata.PhoneMetadataCollection{"metadata/data/metadata.xml.gz": s.coll, "data/shortnumber_metadata.xml.gz": s.short, "data/alternateformats_metadata.xml.gz": s.alt} {
		b, err := proto.Marshal(c)
		if err != nil {
			return nil, err
		}
		files[name] = gz(b)
	}
	codes := map[string][]string{}
	for k, v := range s.codes {
		codes[strconv.Itoa(k)] = v
	}
	list := func(v []string) []string { return v }
	files["metadata/data/countrycode_to_region.xml.gz"] = encodeTable(codes, list, true)
	files["timezone/data/prefix_to_timezone.xml.gz"] = encodeTable(s.zones, list, true)
	for name, t := range s.tables {
		files[name] = encodeTable(t, func(v string) []string { return []string{v} }, false)
	}
	for name, b := range files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return nil, err
		}
	}
	return keys(files), nil
}

// ---- the check ----

// checkBuiltRelease runs in a program that was built with other data.
func checkBuiltRelease(e *env) {
	for _, d := range []string{"carrier/data", "geocoding/data"} {
		if len(e.langs(d)) == 0 {
			panic("no tables in " + d)
		}
	}
	part := func(scale float64, name string, f func(*env)) { f(e.on(e.m, name+"/", scale)) }
	part(0.02, "all", func(s *env) { s.everything() })
	part(0.3, "short", checkShort)
	part(0.3, "carrier", checkCarrier)
	part(0.3, "geo", checkGeo)
	part(0.2, "zones", checkZones)
	part(0.1, "finder", checkFinder)
	part(0.1, "leniency", checkLeniency)
	e.Rule = "see C25"
}

// C25: the data a release brings.
func checkRelease(e *env) {
	e.Rule = "distinct (data release, call) observations: each release is a complete set of data files built into the library; its answers are compared with the model of those files"
	n := 4
	if e.Thorough() {
		n = 40
	}
	tmp := os.Getenv("VERIF_TMP")
	if tmp == "" {
		var err error
		if tmp, err = os.MkdirTemp("/tmp", "verif-C25."); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer os.RemoveAll(tmp)
	}
	stop := func(what string, out []byte, err error) {
		fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", what, err, out)
		os.Exit(3)
	}
	repo, err := filepath.EvalSymlinks(e.Repo)
	if err != nil {
		stop("repository", nil, err)
	}
	e.RunW("release", n, 2, func(c *core.Case) {
		dir, err := os.MkdirTemp(tmp, "release")
		if err != nil {
			stop("scratch", nil, err)
		}
		defer os.RemoveAll(dir)
		s := e.release()
		for i := c.Intn(8); i > 0; i-- {
			s.distort(c.R)
		}
		for i := 25 + c.Intn(30); i > 0; i-- {
			s.change(c.R)
		}
		names, err := s.write(filepath.Join(dir, "tree"))
		if err != nil {
			stop("data", nil, err)
		}
		over := map[string]string{}
		for _, d := range []string{"carrier/data", "geocoding/data"} {
			fs, _ := filepath.Glob(filepath.Join(repo, d, "*.gz"))
			for _, f := range fs {
				over[f] = "" // gone unless written again
			}
		}
		for _, f := range names {
			over[filepath.Join(repo, f)] = filepath.Join(dir, "tree", f)
		}
		b, _ := json.Marshal(map[string]any{"Replace": over})
		if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644); err != nil {
			stop("overlay", nil, err)
		}
		mod := filepath.Join(tmp, "go.mod")
		if _, err := os.Stat(mod); err != nil {
			mod = filepath.Join(e.Root, "harness/go.mod")
		}
		bin := filepath.Join(dir, "check")
		cmd := exec.Command("go", "build", "-modfile="+mod, "-overlay="+filepath.Join(dir, "overlay.json"), "-o", bin, "./cmd/check")
		cmd.Dir = os.Getenv("VERIF_HARNESS")
		if cmd.Dir == "" {
			cmd.Dir = filepath.Join(e.Root, "harness")
		}
		if out, err := cmd.CombinedOutput(); err != nil {
			stop("building with changed data", out, err)
		}
		c.Note("release %d: %s", c.Index, strings.Join(s.what, "; "))
		cmd = exec.Command(bin, "C25R")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_TIER=quick", "VERIF_ROOT="+dir, "VERIF_REPO="+filepath.Join(dir, "tree"), fmt.Sprintf("VERIF_SEED=%d", e.Seed*1000+int64(c.Index)))
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			stop("starting", nil, err)
		}
		t := time.AfterFunc(10*time.Minute, func() { cmd.Process.Kill() })
		err = cmd.Wait()
		t.Stop()
		var ev struct {
			Coverage struct {
				Evaluations int64            `json:"evaluations"`
				Distinct    int64            `json:"distinct_nontrivial"`
				Events      map[string]int64 `json:"observed_events"`
			} `json:"coverage"`
		}
		if b, rerr := os.ReadFile(filepath.Join(dir, "evidence/C25R.json")); rerr == nil {
			json.Unmarshal(b, &ev)
		}
		switch rc := cmd.ProcessState.ExitCode(); {
		case rc == 0:
		case rc == 1:
			fs, _ := filepath.Glob(filepath.Join(dir, "replays/*.json"))
			for _, f := range fs {
				var v struct{ Stream, Key, Message string }
				if b, err := os.ReadFile(f); err == nil && json.Unmarshal(b, &v) == nil {
					c.Fail(fmt.Sprintf("release|%d|%s", c.Index, v.Key), "built with changed data (release %d) [%s]: %s", c.Index, v.Stream, v.Message)
				}
			}
			if len(fs) == 0 {
				stop("verdict without replay", out.Bytes(), err)
			}
		case strings.Contains(out.String(), "panic:") || strings.Contains(out.String(), "fatal error:"):
			if !strings.Contains(out.String(), "nyaruka/phonenumbers") {
				stop("release", out.Bytes(), err)
			}
			c.Fail(fmt.Sprintf("crash|%d", c.Index), "built with changed data (release %d) the program ends: %.3000s", c.Index, out.String())
		default:
			stop("release", out.Bytes(), err)
		}
		e.Eval(int(ev.Coverage.Evaluations))
		for i := int64(0); i < ev.Coverage.Distinct; i++ {
			c.Seen(c.Index, i)
		}
		for _, k := range keys(ev.Coverage.Events) {
			e.Tag(k, ev.Coverage.Events[k])
		}
		e.Tag("releases", 1)
		e.Tag("changes-to-data", int64(len(s.what)))
		c.Sample("release", map[string]any{"release": c.Index, "first_changes": s.what[:min(12, len(s.what))]})
	})
}
