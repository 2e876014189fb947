GEN = '''#!/bin/bash
# Builds the library with other data files (made by gen.go from the tree's own) and runs demo_test.go as a test of ./%(dir)s.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/cmd/zzgen/main.go\\": \\"$here/gen.go\\"}}" >"$t/gen.json"
go run -overlay "$t/gen.json" ./cmd/zzgen "$t/data.gz" || exit 2
echo "{\\"Replace\\": {\\"$PWD/%(dir)szz_demo_test.go\\": \\"$here/demo_test.go\\", \\"$PWD/%(data)s\\": \\"$t/data.gz\\"}}" >"$t/overlay.json"
go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestDemo$' ./%(dir)s
'''
TABLEGEN = '''package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"os"
	"strings"
)

// a table of one entry
func main() {
	%s
	all := strings.Join(values, "\\n")
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(all)))
	b = append(b, all...)
	b = binary.LittleEndian.AppendUint32(b, 1)
	b = binary.AppendUvarint(b, key)
	if list {
		b = append(b, byte(len(values)))
	}
	for i := range values {
		b = binary.LittleEndian.AppendUint16(b, uint16(i))
	}
	var out bytes.Buffer
	z := gzip.NewWriter(&out)
	z.Write(b)
	z.Close()
	if err := os.WriteFile(os.Args[1], out.Bytes(), 0o644); err != nil {
		panic(err)
	}
}
'''
seed('B60', 'C25', [('shortnumberinfo.go', '''	if len(numberDesc.PossibleLength) > 0 && !numberDesc.HasPossibleLength(int32(len(number))) {
		return false
	}
	return regexbasedmatcher''', '''	if len(numberDesc.GetNationalNumberPattern()) == 0 {
		return false
	}
	return regexbasedmatcher''')], '''package phonenumbers_test

import (
	. "github.com/nyaruka/phonenumbers/v2"
	"testing"
)

func TestDemo(t *testing.T) {
	// the data says that French short codes have three digits
	cc, nn := int32(33), uint64(3010)
	if IsValidShortNumberForRegion(&PhoneNumber{CountryCode: &cc, NationalNumber: &nn}, "FR") {
		t.Error("four digits are no short number there")
	}
}
''', 'data whose pattern for a kind of short numbers matches more lengths than the kind has', 'the lengths of the data are not applied to short numbers', raw=True,
extra={'gen.go': '''package main

import (
	"bytes"
	"compress/gzip"
	"io"
	"os"

	"github.com/nyaruka/phonenumbers/v2"
	"google.golang.org/protobuf/proto"
)

// the tree's short numbers, where those of France have three digits only
func main() {
	f, err := os.Open("data/shortnumber_metadata.xml.gz")
	if err != nil {
		panic(err)
	}
	z, err := gzip.NewReader(f)
	if err != nil {
		panic(err)
	}
	b, err := io.ReadAll(z)
	if err != nil {
		panic(err)
	}
	all := &phonenumbers.PhoneMetadataCollection{}
	if err := proto.Unmarshal(b, all); err != nil {
		panic(err)
	}
	for _, m := range all.Metadata {
		if m.GetId() == "FR" {
			m.ShortCode.PossibleLength = []int32{3}
		}
	}
	if b, err = proto.Marshal(all); err != nil {
		panic(err)
	}
	var out bytes.Buffer
	w := gzip.NewWriter(&out)
	w.Write(b)
	w.Close()
	if err := os.WriteFile(os.Args[1], out.Bytes(), 0o644); err != nil {
		panic(err)
	}
}
''', 'demo.sh': GEN % dict(dir='', data='data/shortnumber_metadata.xml.gz')})

seed('B61', 'C25', [('internal/prefixmapper/prefixmapper.go', '''		index, err := strconv.Atoi(e164[0:i])
		if err != nil {
			return "", 0, err
		}
		if value, has := prefixes.Map[index]; has {
			return value, index, nil
		}
''', '''		index, err := strconv.ParseInt(e164[0:i], 10, 32)
		if err != nil {
			continue
		}
		if value, has := prefixes.Map[int(index)]; has {
			return value, int(index), nil
		}
''')], '''package carrier

import (
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
)

func TestDemo(t *testing.T) {
	n, err := phonenumbers.Parse("+44 7400 123456", "ZZ")
	if err != nil {
		t.Fatal(err)
	}
	if c, err := GetNameForNumber(n, "en"); err != nil || c != "Three" {
		t.Errorf("%q %v", c, err)
	}
}
''', 'data with a prefix of ten or more digits', 'entries of the data that do not fit 32 bits are ignored', pkg='carrier', raw=True,
extra={'gen.go': TABLEGEN % 'key, values, list := uint64(4474001234), []string{"Three"}, false', 'demo.sh': GEN % dict(dir='carrier/', data='carrier/data/en.txt.gz')})

seed('B62', 'C25', [('internal/serialize/serialize.go', '''		var valueCount uint8
''', '''		var valueCount int8
'''), ('internal/serialize/serialize.go', '''		keyValues := make([]string, valueCount)
''', '''		keyValues := make([]string, max(int(valueCount), 0))
''')], '''package timezone

import (
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
)

func TestDemo(t *testing.T) {
	n, err := phonenumbers.Parse("+1 650 253 0000", "ZZ")
	if err != nil {
		t.Fatal(err)
	}
	if z, err := GetTimeZonesForNumber(n); err != nil || len(z) != 130 {
		t.Errorf("%d %v", len(z), err)
	}
}
''', 'data with more than 127 zones for a prefix', 'the table of zones cannot be read', pkg='timezone', raw=True,
extra={'gen.go': TABLEGEN % 'key, list := uint64(1), true\n\tvar values []string\n\tfor i := 0; i < 130; i++ {\n\t\tvalues = append(values, "Etc/Z"+string(rune(200+i)))\n\t}', 'demo.sh': GEN % dict(dir='timezone/', data='timezone/data/prefix_to_timezone.xml.gz')})
