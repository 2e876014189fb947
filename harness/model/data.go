// Package model is an independently written executable specification of the
// observable behaviour of the library. It imports nothing from the code under
// test: it decodes the data files of the tree itself and derives every expected
// answer from them, so that a data refresh never raises an alarm while a change
// of behaviour does.
package model

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Desc mirrors PhoneNumberDesc; a nil *Desc means the element is absent.
type Desc struct {
	Pattern    string
	HasPattern bool
	Lengths    []int32
	Local      []int32
	Example    string
	HasExample bool
}

// Fmt mirrors NumberFormat.
type Fmt struct {
	Pattern, Format string
	Leading         []string
	NPRule          string
	HasNPRule       bool
	NPOptional      bool
	HasNPOptional   bool
	CCRule          string
	HasCCRule       bool
}

// Meta mirrors PhoneMetadata.
type Meta struct {
	ID                                              string
	CC                                              int32
	IntlPrefix, PrefIntlPrefix                      string
	NatPrefix, PrefExtn, NPParsing, NPTransform     string
	SameMobileFixed, MainCountry, Portable          bool
	LeadingDigits                                   string
	Formats, IntlFormats                            []*Fmt
	General, Fixed, Mobile, TollFree, Premium       *Desc
	Shared, Personal, Voip, Pager, Uan, Emergency   *Desc
	Voicemail, ShortCode, StdRate, CarrierSpec, Sms *Desc
	NoIntl                                          *Desc
	Has                                             map[int]bool // optional scalar presence by field number
}

// ---- protobuf wire decoding -------------------------------------------------

type wire struct {
	num  int
	typ  int
	v    uint64
	data []byte
}

func wireFields(b []byte) ([]wire, error) {
	var out []wire
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, fmt.Errorf("bad tag")
		}
		b = b[n:]
		w := wire{num: int(tag >> 3), typ: int(tag & 7)}
		switch w.typ {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, fmt.Errorf("bad varint")
			}
			w.v = v
			b = b[n:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return nil, fmt.Errorf("bad length")
			}
			w.data = b[n : n+int(l)]
			b = b[n+int(l):]
		default:
			return nil, fmt.Errorf("wire type %d", w.typ)
		}
		out = append(out, w)
	}
	return out, nil
}

func lengths(dst []int32, w wire) []int32 {
	if w.typ == 0 {
		return append(dst, int32(w.v))
	}
	b := w.data
	for len(b) > 0 {
		v, n := binary.Uvarint(b)
		if n <= 0 {
			break
		}
		dst = append(dst, int32(v))
		b = b[n:]
	}
	return dst
}

func decodeDesc(b []byte) (*Desc, error) {
	fs, err := wireFields(b)
	if err != nil {
		return nil, err
	}
	d := &Desc{}
	for _, f := range fs {
		switch f.num {
		case 2:
			d.Pattern, d.HasPattern = string(f.data), true
		case 6:
			d.Example, d.HasExample = string(f.data), true
		case 9:
			d.Lengths = lengths(d.Lengths, f)
		case 10:
			d.Local = lengths(d.Local, f)
		}
	}
	return d, nil
}

func decodeFmt(b []byte) (*Fmt, error) {
	fs, err := wireFields(b)
	if err != nil {
		return nil, err
	}
	d := &Fmt{}
	for _, f := range fs {
		switch f.num {
		case 1:
			d.Pattern = string(f.data)
		case 2:
			d.Format = string(f.data)
		case 3:
			d.Leading = append(d.Leading, string(f.data))
		case 4:
			d.NPRule, d.HasNPRule = string(f.data), true
		case 5:
			d.CCRule, d.HasCCRule = string(f.data), true
		case 6:
			d.NPOptional, d.HasNPOptional = f.v != 0, true
		}
	}
	return d, nil
}

// DescSlots maps field number to the address of the desc slot in m.
func (m *Meta) DescSlots() map[int]**Desc {
	return map[int]**Desc{1: &m.General, 2: &m.Fixed, 3: &m.Mobile, 4: &m.TollFree, 5: &m.Premium,
		6: &m.Shared, 7: &m.Personal, 8: &m.Voip, 21: &m.Pager, 24: &m.NoIntl, 25: &m.Uan, 27: &m.Emergency,
		28: &m.Voicemail, 29: &m.ShortCode, 30: &m.StdRate, 31: &m.CarrierSpec, 33: &m.Sms}
}

// StrSlots maps field number to the address of the string field in m.
func (m *Meta) StrSlots() map[int]*string {
	return map[int]*string{9: &m.ID, 11: &m.IntlPrefix, 12: &m.NatPrefix, 13: &m.PrefExtn, 15: &m.NPParsing,
		16: &m.NPTransform, 17: &m.PrefIntlPrefix, 23: &m.LeadingDigits}
}

func decodeMeta(b []byte) (*Meta, error) {
	fs, err := wireFields(b)
	if err != nil {
		return nil, err
	}
	m := &Meta{Has: map[int]bool{}}
	ds, ss := m.DescSlots(), m.StrSlots()
	for _, f := range fs {
		if p, ok := ds[f.num]; ok {
			if *p, err = decodeDesc(f.data); err != nil {
				return nil, err
			}
			continue
		}
		m.Has[f.num] = true
		if p, ok := ss[f.num]; ok {
			*p = string(f.data)
			continue
		}
		switch f.num {
		case 10:
			m.CC = int32(f.v)
		case 18:
			m.SameMobileFixed = f.v != 0
		case 22:
			m.MainCountry = f.v != 0
		case 32:
			m.Portable = f.v != 0
		case 19, 20:
			nf, err := decodeFmt(f.data)
			if err != nil {
				return nil, err
			}
			if f.num == 19 {
				m.Formats = append(m.Formats, nf)
			} else {
				m.IntlFormats = append(m.IntlFormats, nf)
			}
		}
	}
	return m, nil
}

// DecodeCollection decodes a serialized PhoneMetadataCollection.
func DecodeCollection(b []byte) ([]*Meta, error) {
	fs, err := wireFields(b)
	if err != nil {
		return nil, err
	}
	var out []*Meta
	for _, f := range fs {
		if f.num != 1 {
			continue
		}
		m, err := decodeMeta(f.data)
		if err != nil {
			return nil, err
		}
		out = append(out, m)
	}
	return out, nil
}

// Gunzip reads a gzip file completely.
func Gunzip(path string) ([]byte, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return GunzipBytes(b)
}

func GunzipBytes(b []byte) ([]byte, error) {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(z)
}

// DecodePrefixMap decodes the <prefix -> string> table format.
func DecodePrefixMap(b []byte) (map[string]string, error) {
	vals, rest, n, err := tableHead(b)
	if err != nil {
		return nil, err
	}
	out := make(map[string]string, n)
	var key uint64
	for i := uint32(0); i < n; i++ {
		d, k := binary.Uvarint(rest)
		if k <= 0 || len(rest) < k+2 {
			return nil, fmt.Errorf("truncated")
		}
		key += d
		idx := binary.LittleEndian.Uint16(rest[k:])
		rest = rest[k+2:]
		out[fmt.Sprint(key)] = vals[idx]
	}
	return out, nil
}

// DecodeArrayMap decodes the <prefix -> []string> table format.
func DecodeArrayMap(b []byte) (map[string][]string, error) {
	vals, rest, n, err := tableHead(b)
	if err != nil {
		return nil, err
	}
	out := make(map[string][]string, n)
	var key uint64
	for i := uint32(0); i < n; i++ {
		d, k := binary.Uvarint(rest)
		if k <= 0 || len(rest) < k+1 {
			return nil, fmt.Errorf("truncated")
		}
		key += d
		c := int(rest[k])
		rest = rest[k+1:]
		vs := make([]string, c)
		for j := range vs {
			vs[j] = vals[binary.LittleEndian.Uint16(rest)]
			rest = rest[2:]
		}
		out[fmt.Sprint(key)] = vs
	}
	return out, nil
}

func tableHead(b []byte) ([]string, []byte, uint32, error) {
	if len(b) < 4 {
		return nil, nil, 0, fmt.Errorf("truncated")
	}
	n := binary.LittleEndian.Uint32(b)
	b = b[4:]
	if uint64(len(b)) < uint64(n)+4 {
		return nil, nil, 0, fmt.Errorf("truncated")
	}
	vals := strings.Split(string(b[:n]), "\n")
	b = b[n:]
	return vals, b[4:], binary.LittleEndian.Uint32(b), nil
}

// ---- the model's tables -----------------------------------------------------

// M is the specification instantiated with one set of tables.
type M struct {
	All     []*Meta
	Region  map[string]*Meta
	NonGeo  map[int]*Meta
	Codes   map[int][]string
	Short   map[string]*Meta
	Alt     map[int]*Meta
	regions map[string]bool
}

// New builds a model from metadata entries and the calling-code table.
func New(all []*Meta, codes map[int][]string, short map[string]*Meta, alt map[int]*Meta) *M {
	m := &M{All: all, Region: map[string]*Meta{}, NonGeo: map[int]*Meta{}, Codes: codes, Short: short, Alt: alt, regions: map[string]bool{}}
	for _, e := range all {
		if e.ID == "001" {
			m.NonGeo[int(e.CC)] = e
		} else {
			m.Region[e.ID] = e
		}
	}
	for _, rs := range codes {
		for _, r := range rs {
			if r != "001" {
				m.regions[r] = true
			}
		}
	}
	return m
}

// SupportedRegions, sorted.
func (m *M) SupportedRegions() []string {
	var out []string
	for r := range m.regions {
		out = append(out, r)
	}
	sort.Strings(out)
	return out
}

// SupportedCodes, sorted.
func (m *M) SupportedCodes() []int {
	var out []int
	for c := range m.Codes {
		out = append(out, c)
	}
	sort.Ints(out)
	return out
}

// NonGeoCodes, sorted.
func (m *M) NonGeoCodes() []int {
	var out []int
	for c, rs := range m.Codes {
		if len(rs) == 1 && rs[0] == "001" {
			out = append(out, c)
		}
	}
	sort.Ints(out)
	return out
}

// LoadRepo loads the model tables from the data files of a source tree.
func LoadRepo(root string) (*M, error) {
	coll := func(p string) ([]*Meta, error) {
		b, err := Gunzip(filepath.Join(root, p))
		if err != nil {
			return nil, err
		}
		return DecodeCollection(b)
	}
	main, err := coll("metadata/data/metadata.xml.gz")
	if err != nil {
		return nil, err
	}
	cb, err := Gunzip(filepath.Join(root, "metadata/data/countrycode_to_region.xml.gz"))
	if err != nil {
		return nil, err
	}
	cm, err := DecodeArrayMap(cb)
	if err != nil {
		return nil, err
	}
	codes := map[int][]string{}
	for k, v := range cm {
		var n int
		fmt.Sscan(k, &n)
		codes[n] = v
	}
	sm, err := coll("data/shortnumber_metadata.xml.gz")
	if err != nil {
		return nil, err
	}
	short := map[string]*Meta{}
	for _, e := range sm {
		if e.ID != "001" {
			short[e.ID] = e
		}
	}
	am, err := coll("data/alternateformats_metadata.xml.gz")
	if err != nil {
		return nil, err
	}
	alt := map[int]*Meta{}
	for _, e := range am {
		alt[int(e.CC)] = e
	}
	return New(main, codes, short, alt), nil
}

var prefixTables sync.Map

// PrefixTable loads data/<lang>.txt.gz below dir; nil when there is no such file.
func PrefixTable(dir, lang string) map[string]string {
	key := dir + "\x00" + lang
	if v, ok := prefixTables.Load(key); ok {
		return v.(map[string]string)
	}
	var t map[string]string
	if strings.ContainsAny(lang, "/\\") { // a language is a name, not a path
		prefixTables.Store(key, t)
		return t
	}
	if b, err := Gunzip(filepath.Join(dir, lang+".txt.gz")); err == nil {
		t, _ = DecodePrefixMap(b)
	}
	prefixTables.Store(key, t)
	return t
}
