package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"google.golang.org/protobuf/proto"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() { checks["C20"] = checkSwap }

// Run is core's Run with this environment's stream prefix.
func (e *env) Run(stream string, n int, f func(c *core.Case)) { e.Ctx.Run(e.prefix+stream, n, f) }

// N is core's N with this environment's scale.
func (e *env) N(quick int) int {
	n := e.Ctx.N(quick)
	if e.scale > 0 {
		n = max(1, int(float64(n)*e.scale))
	}
	return n
}

// on gives an environment for other metadata.
func (e *env) on(m *model.M, prefix string, scale float64) *env {
	return &env{Ctx: e.Ctx, m: m, g: gen.NewG(m), t: &model.Tables{Root: e.t.Root, M: m, TZ: e.t.TZ}, prefix: prefix, scale: scale}
}

// everything compares all answers that depend on the metadata in use.
func (e *env) everything() {
	e.tables("tables")
	for i, f := range []func(*env){checkParse, checkRoundTrip, checkFormat, checkValidity, checkPossible, checkFinder, checkLeniency, checkTyping, checkMatch, checkDialing, checkDerived} {
		s := e.on(e.m, e.prefix+fmt.Sprintf("%d/", i), e.scale)
		f(s)
	}
}

// spread is a set of main metadata: territories and the calling-code table.
type spread struct {
	coll  *metadata.PhoneMetadataCollection
	codes map[int][]string
	what  []string

	entities []*metadata.PhoneMetadata // those that entity added
}

func (s *spread) model(e *env) *model.M {
	b, err := proto.Marshal(s.coll)
	if err != nil {
		panic(err)
	}
	all, err := model.DecodeCollection(b)
	if err != nil {
		panic(err)
	}
	codes := map[int][]string{}
	for k, v := range s.codes {
		codes[k] = append([]string{}, v...)
	}
	return model.New(all, codes, e.m.Short, e.m.Alt)
}

// embedded decodes the data of the tree once more, independently of the library.
func (e *env) embedded() *spread {
	b, err := model.Gunzip(filepath.Join(e.Repo, "metadata/data/metadata.xml.gz"))
	if err != nil {
		panic(err)
	}
	s := &spread{coll: &metadata.PhoneMetadataCollection{}, codes: map[int][]string{}}
	if err := proto.Unmarshal(b, s.coll); err != nil {
		panic(err)
	}
	for k, v := range e.m.Codes {
		s.codes[k] = append([]string{}, v...)
	}
	return s
}

func (s *spread) find(region string) *metadata.PhoneMetadata {
	for _, m := range s.coll.Metadata {
		if m.GetId() == region {
			return m
		}
	}
	return nil
}

func (s *spread) regions() []string {
	var out []string
	for _, v := range s.codes {
		for _, r := range v {
			if r != "001" {
				out = append(out, r)
			}
		}
	}
	sort.Strings(out)
	return out
}

func (s *spread) freeCode(r gen.R) int {
	for {
		k := 2 + r.Intn(990)
		free := k > 9 // no code may be the beginning of another one
		for c := range s.codes {
			a, b := fmt.Sprint(c), fmt.Sprint(k)
			free = free && !strings.HasPrefix(a, b) && !strings.HasPrefix(b, a)
		}
		if free {
			return k
		}
	}
}

func (s *spread) note(f string, a ...any) { s.what = append(s.what, fmt.Sprintf(f, a...)) }

func without(xs []string, x string) []string {
	var out []string
	for _, y := range xs {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

// distort changes the metadata in one of the ways a metadata release does.
func (s *spread) distort(r gen.R) {
	region := gen.Pick(r, s.regions())
	md := s.find(region)
	cc := int(md.GetCountryCode())
	switch r.Intn(22) {
	case 0: // territory withdrawn
		if len(s.codes[cc]) > 1 && s.codes[cc][0] == region {
			return
		}
		var rest []*metadata.PhoneMetadata
		for _, m := range s.coll.Metadata {
			if m != md {
				rest = append(rest, m)
			}
		}
		s.coll.Metadata = rest
		if s.codes[cc] = without(s.codes[cc], region); len(s.codes[cc]) == 0 {
			delete(s.codes, cc)
		}
		s.note("%s withdrawn", region)
	case 1: // new calling code for a territory of its own
		if len(s.codes[cc]) > 1 {
			return
		}
		k := s.freeCode(r)
		delete(s.codes, cc)
		s.codes[k] = []string{region}
		md.CountryCode = proto.Int32(int32(k))
		s.note("%s moved from %d to %d", region, cc, k)
	case 2: // new territory
		n := proto.Clone(md).(*metadata.PhoneMetadata)
		id := "Q" + string(rune('A'+r.Intn(26)))
		if s.find(id) != nil {
			return
		}
		k := s.freeCode(r)
		n.Id, n.CountryCode = proto.String(id), proto.Int32(int32(k))
		s.coll.Metadata = append(s.coll.Metadata, n)
		s.codes[k] = []string{id}
		s.note("%s added like %s under %d", id, region, k)
	case 3: // new entity without a region
		n := proto.Clone(md).(*metadata.PhoneMetadata)
		k := s.freeCode(r)
		n.Id, n.CountryCode = proto.String("001"), proto.Int32(int32(k))
		n.NationalPrefix, n.NationalPrefixForParsing, n.NationalPrefixTransformRule = nil, nil, nil
		s.coll.Metadata = append(s.coll.Metadata, n)
		s.codes[k] = []string{"001"}
		s.note("entity like %s added under %d", region, k)
	case 4: // another region becomes the main one of its code
		v := s.codes[cc]
		if len(v) < 2 {
			return
		}
		s.codes[cc] = append([]string{region}, without(v, region)...)
		// the lengths of the main region cover those of all regions with the code
		own, all := md.GeneralDesc, map[int32]bool{}
		for _, x := range v {
			for _, l := range s.find(x).GetGeneralDesc().GetPossibleLength() {
				all[l] = true
			}
		}
		own.PossibleLength = nil
		for l := int32(1); l < 20; l++ {
			if all[l] {
				own.PossibleLength = append(own.PossibleLength, l)
			}
		}
		var local []int32
		for _, l := range own.PossibleLengthLocalOnly {
			if !all[l] {
				local = append(local, l)
			}
		}
		own.PossibleLengthLocalOnly = local
		s.note("%s is the main region of %d", region, cc)
	case 5: // international prefix
		md.InternationalPrefix = proto.String(gen.Pick(r, []string{"00", "011", "0(?:0|1)", "00[1-4]", "119|00"}))
		md.PreferredInternationalPrefix = nil
		if md.GetInternationalPrefix() != "00" && md.GetInternationalPrefix() != "011" {
			md.PreferredInternationalPrefix = proto.String("00")
		}
		s.note("%s international prefix %s", region, md.GetInternationalPrefix())
	case 6: // national prefix
		p := gen.Pick(r, []string{"", "0", "1", "8", "06", "44", "095", "0~0", "8~10", "1234"})
		md.NationalPrefix, md.NationalPrefixForParsing, md.NationalPrefixTransformRule = nil, nil, nil
		if p != "" {
			md.NationalPrefix, md.NationalPrefixForParsing = proto.String(p), proto.String(strings.ReplaceAll(p, "~", ""))
		}
		s.note("%s national prefix %q", region, p)
	case 7: // parsing rule with a carrier code
		md.NationalPrefixForParsing = proto.String(gen.Pick(r, []string{`0(?:(1[245]|2[1-35])(\d{8}))?`, `0|(1)`, `(?:0|1([0-4]))`, `0(11)?`, `0(?:(1[245])?(\d{8}))?`}))
		md.NationalPrefixTransformRule = nil
		if strings.Contains(md.GetNationalPrefixForParsing(), `(\d{8})`) {
			md.NationalPrefixTransformRule = proto.String("$2")
		}
		s.note("%s parses prefix %s", region, md.GetNationalPrefixForParsing())
	case 8: // one range becomes another type
		md.Mobile, md.TollFree = md.TollFree, md.Mobile
		s.same(md)
		s.note("%s swaps mobile and toll free", region)
	case 9:
		md.FixedLine, md.Voip = md.Voip, md.FixedLine
		s.same(md)
		s.note("%s swaps fixed line and voip", region)
	case 10: // a type takes over another type's numbers
		md.PersonalNumber = proto.Clone(md.Mobile).(*metadata.PhoneNumberDesc)
		s.note("%s personal numbers like mobile", region)
	case 11: // formats
		if len(md.NumberFormat) > 1 {
			i := r.Intn(len(md.NumberFormat))
			md.NumberFormat = append(append([]*metadata.NumberFormat{}, md.NumberFormat[:i]...), md.NumberFormat[i+1:]...)
			s.note("%s loses format %d", region, i)
		}
	case 12:
		if len(md.NumberFormat) > 0 {
			f := gen.Pick(r, md.NumberFormat)
			switch r.Intn(3) {
			case 0:
				f.NationalPrefixFormattingRule = proto.String(gen.Pick(r, []string{"$1", "0$1", "(0$1)", "8 $1", "($1)"}))
			case 1:
				f.Format = proto.String(strings.ReplaceAll(f.GetFormat(), " ", "-"))
			case 2:
				f.DomesticCarrierCodeFormattingRule = proto.String("0 $CC $1")
			}
			s.note("%s changes a format", region)
		}
	case 13:
		md.MobileNumberPortableRegion = proto.Bool(!md.GetMobileNumberPortableRegion())
		md.PreferredExtnPrefix = proto.String(gen.Pick(r, []string{" x", " ext. ", " доб. ", "#"}))
		s.note("%s portability and extension prefix", region)
	case 14:
		md.NoInternationalDialling = proto.Clone(gen.Pick(r, []*metadata.PhoneNumberDesc{md.TollFree, md.Mobile, md.PremiumRate})).(*metadata.PhoneNumberDesc)
		s.note("%s restricts dialling from abroad", region)
	case 15: // the NANPA gains a region
		s.join(r)
	case 16: // the NANPA loses one
		s.leave(r)
	case 17: // an entity whose examples are all of one type
		s.entity(r)
	case 19: // no example for a type
		d := gen.Pick(r, []*metadata.PhoneNumberDesc{md.TollFree, md.Mobile, md.PremiumRate, md.Uan, md.Voip, md.FixedLine, md.Pager})
		if d != nil {
			d.ExampleNumber = nil
		}
		s.note("%s loses an example", region)
	case 20: // a type that only an entity has
		if len(s.entities) == 0 {
			return
		}
		s.only(r)
	case 21: // patterns whose first alternative is the beginning of others
		for _, d := range []*metadata.PhoneNumberDesc{md.GeneralDesc, md.FixedLine, md.Mobile, md.TollFree, md.PremiumRate, md.Voip} {
			if p := d.GetNationalNumberPattern(); p != "" && r.Intn(2) == 0 {
				d.NationalNumberPattern = proto.String(gen.Pick(r, []string{`\d{2}|`, `[1-9]|`, `\d{4}|\d{3}|`, `\d\d?|`}) + "(?:" + p + ")")
			}
		}
		s.same(md)
		s.note("%s has alternatives in its patterns", region)
	case 18: // fewer groups
		fs := md.NumberFormat
		if len(md.IntlNumberFormat) > 0 && r.Intn(2) == 0 {
			fs = md.IntlNumberFormat
		}
		if len(fs) > 0 {
			for _, f := range fs {
				if g := strings.Count(f.GetFormat(), " $"); g > 0 && r.Intn(2) == 0 {
					f.Format = proto.String(strings.Replace(f.GetFormat(), " $", "$", 1+r.Intn(g)))
				}
			}
			s.note("%s merges groups", region)
		}
	}
}

// join gives the NANPA a region more, like another one.
func (s *spread) join(r gen.R) {
	id := "Q" + string(rune('A'+r.Intn(26)))
	like := s.find(gen.Pick(r, s.codes[1]))
	if s.find(id) != nil || like == nil {
		return
	}
	n := proto.Clone(like).(*metadata.PhoneMetadata)
	n.Id = proto.String(id)
	s.coll.Metadata = append(s.coll.Metadata, n)
	s.codes[1] = append(append([]string{}, s.codes[1]...), id)
	s.note("%s joins the NANPA like %s", id, like.GetId())
}

// leave takes a region out of the NANPA and gives it a code of its own.
func (s *spread) leave(r gen.R) {
	if len(s.codes[1]) < 2 {
		return
	}
	id := gen.Pick(r, s.codes[1][1:])
	k := s.freeCode(r)
	md := s.find(id)
	if like := s.find(s.codes[1][0]); len(md.NumberFormat) == 0 && like != nil {
		for _, f := range like.NumberFormat {
			md.NumberFormat = append(md.NumberFormat, proto.Clone(f).(*metadata.NumberFormat))
		}
	}
	md.CountryCode = proto.Int32(int32(k))
	md.LeadingDigits = nil
	s.codes[1] = without(s.codes[1], id)
	s.codes[k] = []string{id}
	s.note("%s leaves the NANPA for %d", id, k)
}

// entity adds a calling code without a region, which has numbers of one type only.
func (s *spread) entity(r gen.R) {
	k := s.freeCode(r)
	d := func() *metadata.PhoneNumberDesc {
		return &metadata.PhoneNumberDesc{NationalNumberPattern: proto.String(`[1-9]\d{8}`), PossibleLength: []int32{9}, ExampleNumber: proto.String(fmt.Sprintf("%d23456789", 1+r.Intn(9)))}
	}
	none := func() *metadata.PhoneNumberDesc {
		return &metadata.PhoneNumberDesc{PossibleLength: []int32{-1}}
	}
	n := &metadata.PhoneMetadata{Id: proto.String("001"), CountryCode: proto.Int32(int32(k)), InternationalPrefix: proto.String("")}
	n.GeneralDesc = &metadata.PhoneNumberDesc{NationalNumberPattern: proto.String(`[1-9]\d{8}`), PossibleLength: []int32{9}}
	n.FixedLine, n.Mobile, n.TollFree, n.PremiumRate, n.SharedCost = none(), none(), none(), none(), none()
	n.PersonalNumber, n.Voip, n.Pager, n.Uan, n.Voicemail = none(), none(), none(), none(), none()
	n.NoInternationalDialling = none()
	all := []**metadata.PhoneNumberDesc{&n.Mobile, &n.TollFree, &n.PremiumRate, &n.SharedCost, &n.Voip, &n.Uan, &n.Voicemail, &n.FixedLine, &n.PersonalNumber, &n.Pager}
	a := r.Intn(len(all))
	*all[a] = d()
	if r.Intn(2) == 0 {
		b := r.Intn(len(all))
		*all[b] = d()
	}
	n.NumberFormat = []*metadata.NumberFormat{{Pattern: proto.String(`(\d{3})(\d{3})(\d{3})`), Format: proto.String("$1 $2 $3")}}
	if r.Intn(4) == 0 {
		(*all[a]).ExampleNumber = nil
	}
	s.coll.Metadata = append(s.coll.Metadata, n)
	s.entities = append(s.entities, n)
	s.codes[k] = []string{"001"}
	s.note("entity with one type added under %d", k)
}

// only leaves the pager numbers to one entity.
func (s *spread) only(r gen.R) {
	for _, m := range s.coll.Metadata {
		m.Pager = &metadata.PhoneNumberDesc{PossibleLength: []int32{-1}}
	}
	x := gen.Pick(r, s.entities)
	x.Pager = proto.Clone(x.GeneralDesc).(*metadata.PhoneNumberDesc)
	x.Pager.ExampleNumber = proto.String("823456789")
	s.note("pagers only under %d", x.GetCountryCode())
}

// same keeps the flag that says that both patterns are alike.
func (s *spread) same(md *metadata.PhoneMetadata) {
	md.SameMobileAndFixedLinePattern = nil
	if md.GetMobile().GetNationalNumberPattern() == md.GetFixedLine().GetNationalNumberPattern() {
		md.SameMobileAndFixedLinePattern = proto.Bool(true)
	}
}

func (e *env) fingerprint(seedName string) string {
	var b strings.Builder
	for i := 0; i < 150; i++ {
		c := &core.Case{R: gen.New(e.Seed, seedName, i), X: e.Ctx, Stream: seedName, Index: i}
		a := e.args(c, false)
		for _, o := range ops {
			b.WriteString(o.name + o.run(a) + "\n")
		}
	}
	return hash(b.String())
}

// C20: the metadata in use.
func checkSwap(e *env) {
	rule := "distinct (metadata set, call) observations compared with the model of the metadata in use; every round also checks that restoring brings the earlier answers back"
	e.Rule = rule
	base := e.fingerprint("C20/base")
	e.Run("empty", 1, func(c *core.Case) {
		for k, coll := range []*metadata.PhoneMetadataCollection{nil, {}, {Metadata: []*metadata.PhoneMetadata{}}} {
			x, err := metadata.NewContainer(coll, map[int][]string{1: {"US"}})
			c.Eval()
			if !errors.Is(err, metadata.ErrEmptyMetadata) || !errors.Is(err, phonenumbers.ErrEmptyMetadata) || x != nil {
				c.Fail(fmt.Sprintf("empty|%d", k), "NewContainer on an empty collection (%d) gave %v, %v", k, x, err)
			}
		}
		c.Tag("empty-collection")
		x, err := metadata.Load()
		if err != nil || x == nil {
			c.Fail("load", "Load failed: %v", err)
			return
		}
		restore := metadata.Use(x)
		f := e.fingerprint("C20/base")
		restore()
		if f != base {
			c.Fail("load", "a freshly loaded container answers differently than the one loaded at start")
		}
		c.Tag("fresh-load")
	})
	rounds := 6
	if e.Thorough() {
		rounds = 40
	}
	for k := 0; k < rounds; k++ {
		r := gen.New(e.Seed, "C20/round", k)
		s := e.embedded()
		for i := 20 + r.Intn(40); i > 0; i-- {
			s.distort(r)
		}
		s.join(r)
		s.leave(r)
		s.entity(r)
		if k%3 == 1 {
			s.only(r)
		}
		if ar := s.find("AR"); ar != nil && k%2 == 0 { // mobile token and few groups
			for _, f := range append(append([]*metadata.NumberFormat{}, ar.NumberFormat...), ar.IntlNumberFormat...) {
				f.Format = proto.String(strings.Replace(f.GetFormat(), " $", "$", 1+r.Intn(3)))
			}
			s.note("AR merges groups")
		}
		m := s.model(e)
		x, err := metadata.NewContainer(s.coll, s.codes)
		if err != nil {
			e.Fail("round", fmt.Sprintf("container|%d", k), "NewContainer failed on changed metadata: %v", err)
			continue
		}
		before, _ := phonenumbers.MetadataCollection()
		n0 := len(before.GetMetadata())
		restore := metadata.Use(x)
		sub := e.on(m, fmt.Sprintf("round%d/", k), 0.04)
		sub.everything()
		e.Rule = rule
		e.Tag("metadata-sets", 1)
		e.Tag("changes-to-metadata", int64(len(s.what)))
		e.Sample("changes", map[string]any{"round": k, "first": s.what[:min(8, len(s.what))]})
		if c2, _ := phonenumbers.MetadataCollection(); len(c2.GetMetadata()) != n0 {
			e.Fail("round", fmt.Sprintf("collection|%d", k), "the embedded collection changed while other metadata was in use")
		}
		// nested use
		f1 := sub.fingerprint("C20/nested")
		s2 := e.embedded()
		for i := 5; i > 0; i-- {
			s2.distort(r)
		}
		x2, err := metadata.NewContainer(s2.coll, s2.codes)
		if err == nil {
			in := metadata.Use(x2)
			e.on(s2.model(e), fmt.Sprintf("inner%d/", k), 0.01).tables("tables")
			in()
			if sub.fingerprint("C20/nested") != f1 {
				e.Fail("round", fmt.Sprintf("nested|%d", k), "restoring the outer metadata does not bring its answers back")
			}
			e.Tag("nested-use", 1)
		}
		restore()
		if e.fingerprint("C20/base") != base {
			e.Fail("round", fmt.Sprintf("restore|%d", k), "answers differ after restoring the embedded metadata")
		}
		e.Tag("restored", 1)
		e.Eval(3)
	}
	e.on(e.m, "after/", 0.01).tables("tables")
	e.Rule = rule
}
