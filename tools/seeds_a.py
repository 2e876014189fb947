U="phonenumberutil.go"
seed("B01","C02",[(U,'''		if phoneNumberRegion != defaultRegion {
			// Metadata cannot be null because the country calling''','''		if regionMetadata == nil || int(regionMetadata.GetCountryCode()) != countryCode {
			// Metadata cannot be null because the country calling''')],'''
	a, err := Parse("+44 250123", "GG")
	if err != nil {
		t.Fatal(err)
	}
	b, err := Parse("+44 250123", "GB")
	if err != nil || a.GetNationalNumber() != b.GetNationalNumber() {
		t.Fatalf("default region changes an international number: %v %v", a, b)
	}
''',"an international number with a default region that shares the calling code without being its main region and has its own prefix rules","the default region changes how an international number is parsed")
seed("B02","C02",[(U,'''	phoneContextEnd := strings.IndexRune(numberToExtractFrom[phoneContextStart:], ';')''','''	phoneContextEnd := strings.LastIndexByte(numberToExtractFrom[phoneContextStart:], ';')''')],'''
	n, err := Parse("tel:0370-1234567;phone-context=+44;a=b;c=d", "US")
	if err != nil || n.GetCountryCode() != 44 {
		t.Fatal(n, err)
	}
''',"a tel: URI with two or more parameters after phone-context","the phone-context is read past its end and the URI refused")
seed("B12","C13",[("timezone/timezone.go",'''	timezoneOnce.Do(func() {
		timezoneMap, err = serialize.LoadIntArrayMap(timezoneData)
	})
''','''	if timezoneMap == nil {
		timezoneOnce.Do(func() {
			timezoneMap, err = serialize.LoadIntArrayMap(timezoneData)
		})
	}
''')],'''package timezone

import (
	"sync"
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
)

func TestDemo(t *testing.T) {
	n, _ := phonenumbers.Parse("+16502530000", "US")
	var start, wg sync.WaitGroup
	start.Add(1)
	for i := 0; i < 32; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Wait()
			GetTimeZonesForNumber(n)
		}()
	}
	start.Done()
	wg.Wait()
}
''',"the first time-zone lookup of the process made by several goroutines at once","unsynchronized read of the table while another goroutine fills it in",pkg="timezone",raw=True,flags="-race")
