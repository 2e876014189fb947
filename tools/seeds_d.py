seed('B57', 'C24', [('geocoding/geocoding.go', '''	langT, err := language.Parse(lang)
	if err != nil {
		langT = language.English // fall back to english only for rendering the country name
	}
''', '''	langT := languageTag(lang)
'''), ('geocoding/geocoding.go', '''// regionDisplayName returns''', '''var languageTags sync.Map // parsing a language tag is slow

func languageTag(lang string) language.Tag {
	if tag, ok := languageTags.Load(lang); ok {
		return tag.(language.Tag)
	}
	tag, err := language.Parse(lang)
	if err != nil {
		tag = language.English // fall back to english only for rendering the country name
	}
	languageTags.Store(lang, tag)
	return tag
}

// regionDisplayName returns'''), ('geocoding/geocoding.go', '''	"strings"
''', '''	"strings"
	"sync"
''')], '''package geocoding

import (
	"fmt"
	"runtime"
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
)

func TestDemo(t *testing.T) {
	n, err := phonenumbers.Parse("+41 79 123 45 67", "ZZ")
	if err != nil {
		t.Fatal(err)
	}
	live := func() int64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	i := 0
	ask := func(k int) {
		for ; k > 0; k-- {
			i++
			if _, err := GetDescriptionForNumber(n, fmt.Sprintf("qq-%d-users-own-text", i)); err != nil {
				t.Fatal(err)
			}
		}
	}
	ask(2000)
	before := live()
	ask(60000)
	if kept := live() - before; kept > 1<<20 {
		t.Errorf("%d bytes kept", kept)
	}
}
''', 'many requests in different (for example malformed) languages', 'memory is kept for every language text ever asked for', pkg='geocoding', raw=True)

seed('B58', 'C24', [('phonenumberutil.go', '''		m := newPhoneNumberMatcher(text, defaultRegion, leniency, maxTries)
		for m.hasNext() {
			if !yield(m.next()) {
				return
			}
		}
''', '''		m := newPhoneNumberMatcher(text, defaultRegion, leniency, maxTries)
		matches := make(chan *PhoneNumberMatch, 1) // look for the next match while the caller handles this one
		go func() {
			defer close(matches)
			for m.hasNext() {
				matches <- m.next()
			}
		}()
		for match := range matches {
			if !yield(match) {
				return
			}
		}
''')], '''
	text := strings.Repeat("call 650-253-0000 or ", 6)
	n := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		for range FindNumbers(text, "US") {
			break
		}
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > n; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if left := runtime.NumGoroutine() - n; left > 0 {
		t.Errorf("%d goroutines left", left)
	}
''', 'a search abandoned while at least two further matches are left', 'the searching goroutine never ends', imports=('runtime', 'strings', 'time'))

seed('B59', 'C24', [('phonenumberutil.go', '''	numStr := number.String()
	ind := extnPattern.FindStringIndex(numStr)
''', '''	numStr := number.String()
	if noExtension.has(numStr) {
		return ""
	}
	ind := extnPattern.FindStringIndex(numStr)
	if len(ind) == 0 {
		noExtension.add(numStr)
	}
'''), ('phonenumberutil.go', '''func checkRegionForParsing(''', '''// textSet remembers texts in two generations.
type textSet struct {
	mu       sync.RWMutex
	new, old map[string]struct{}
}

func (s *textSet) has(text string) bool {
	s.mu.RLock()
	defer s.mu.RUnlock()
	_, new := s.new[text]
	_, old := s.old[text]
	return new || old
}

func (s *textSet) add(text string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.new == nil || len(s.old) > 1000 && len(s.new) > 1000 {
		s.old, s.new = s.new, map[string]struct{}{}
	}
	s.new[text] = struct{}{}
}

// noExtension holds texts that were seen to have no extension.
var noExtension textSet

func checkRegionForParsing('''), ('phonenumberutil.go', '''	"strings"
''', '''	"strings"
	"sync"
''')], '''
	live := func() int64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	i := 0
	ask := func(k int) {
		for ; k > 0; k-- {
			i++
			Parse(fmt.Sprintf("+1 650 %07d", i), "US")
		}
	}
	ask(5000)
	before := live()
	ask(60000)
	if kept := live() - before; kept > 1<<20 {
		t.Errorf("%d bytes kept", kept)
	}
''', 'many different texts without an extension: the generations are never exchanged, because the old one stays empty', 'memory is kept for every text ever parsed', imports=('fmt', 'runtime'))
