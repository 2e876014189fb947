seed('B63', 'C14', [('phonenumberutil.go', '\tphoneNumber.ItalianLeadingZero = proto.Bool(true)\n\tnumLeadZeros := 1', '\tphoneNumber.ItalianLeadingZero = leadingZeroPresent\n\tnumLeadZeros := 1'), ('phonenumberutil.go', 'func setItalianLeadingZerosForPhoneNumber(', 'var leadingZeroPresent = proto.Bool(true)\n\nfunc setItalianLeadingZerosForPhoneNumber(')],
    r'''
	n, err := Parse("+39 06 6982 1234", "ZZ")
	if err != nil {
		t.Fatal(err)
	}
	*n.ItalianLeadingZero = false
	*n.NationalNumber = 1
	m, err := Parse("+39 06 6982 1234", "ZZ")
	if err != nil || Format(m, E164) != "+390669821234" {
		t.Errorf("%v %v %s", m, err, Format(m, E164))
	}
''',
    'a caller that changes a field of an earlier result in place', 'numbers parsed later lose their leading zeros', imports=())

seed('B64', 'C14', [('phonenumberutil.go', 'func GetRegionCodeForNumber(number *PhoneNumber) string {\n', 'func GetRegionCodeForNumber(number *PhoneNumber) string {\n\tif last := lastRegion.Load(); last != nil && last.number == number && last.national == number.GetNationalNumber() {\n\t\treturn last.region\n\t}\n\tregion := regionCodeForNumber(number)\n\tlastRegion.Store(&numberRegion{number, number.GetNationalNumber(), region})\n\treturn region\n}\n\ntype numberRegion struct {\n\tnumber   *PhoneNumber\n\tnational uint64\n\tregion   string\n}\n\n// callers tend to ask several questions about the same number\nvar lastRegion atomic.Pointer[numberRegion]\n\nfunc regionCodeForNumber(number *PhoneNumber) string {\n'), ('phonenumberutil.go', '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n')],
    r'''
	n, err := Parse("+44 7912 345678", "ZZ")
	if err != nil {
		t.Fatal(err)
	}
	if r := GetRegionCodeForNumber(n); r != "GB" {
		t.Errorf("%s", r)
	}
	*n.CountryCode = 49
	if r := GetRegionCodeForNumber(n); r == "GB" {
		t.Errorf("%s", r)
	}
''',
    'the same number object asked about again with another calling code and the same national number', 'the region is that of the number before the change', imports=())

seed('B65', 'C13', [('internal/regexcache/regexcache.go', 'func read(pattern string) (*regexp.Regexp, bool) {\n\tmu.RLock()\n\tv, ok := cache[pattern]\n\tmu.RUnlock()\n\treturn v, ok\n}', 'func read(pattern string) (*regexp.Regexp, bool) {\n\tmu.RLock()\n\tdefer mu.RUnlock()\n\tv, ok := cache[pattern]\n\treturn v, ok\n}\n\nfunc known(pattern string) bool {\n\t_, ok := read(pattern)\n\treturn ok\n}'), ('internal/regexcache/regexcache.go', '\tregex, found := read(pattern)\n\tif !found {', '\tmu.RLock()\n\tfound := len(cache) > 0 && known(pattern)\n\tmu.RUnlock()\n\tregex, _ := read(pattern)\n\tif !found {')],
    r'''
	n, err := Parse("+44 7912 345678", "ZZ")
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := range 16 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range 3000 {
					p := fmt.Sprintf("(\\d+)a%db%d", g, i)
					FormatByPattern(n, NATIONAL, []*NumberFormat{{Pattern: &p, Format: &p}})
					IsValidNumber(n)
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("stuck")
	}
''',
    'a writer of the pattern cache arriving between the two read locks of another goroutine', 'all calls wait for each other for ever', imports=('fmt', 'sync', 'time'))

seed('B66', 'C13', [('phonenumberutil.go', 'func GetRegionCodeForNumber(number *PhoneNumber) string {\n', 'var lastRegionKey, lastRegionVal atomic.Value\n\nfunc GetRegionCodeForNumber(number *PhoneNumber) string {\n\tkey := strconv.Itoa(int(number.GetCountryCode())) + " " + GetNationalSignificantNumber(number)\n\tif k, _ := lastRegionKey.Load().(string); k == key {\n\t\treturn lastRegionVal.Load().(string)\n\t}\n\tr := regionCodeForNumber(number)\n\tlastRegionVal.Store(r)\n\tlastRegionKey.Store(key)\n\treturn r\n}\n\nfunc regionCodeForNumber(number *PhoneNumber) string {\n'), ('phonenumberutil.go', '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n')],
    r'''
	var ns []*PhoneNumber
	want := []string{"GB", "FR", "DE", "CH"}
	for _, s := range []string{"+447912345678", "+33612345678", "+4915123456789", "+41781234567"} {
		n, err := Parse(s, "ZZ")
		if err != nil {
			t.Fatal(err)
		}
		ns = append(ns, n)
	}
	var wg sync.WaitGroup
	var bad atomic.Int64
	end := time.Now().Add(20 * time.Second)
	for g := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; bad.Load() == 0 && time.Now().Before(end); i++ {
				for k := range 50 {
					if j := (i + k/7) % 4; GetRegionCodeForNumber(ns[j]) != want[j] {
						bad.Add(1)
					}
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		t.Errorf("%d wrong regions", bad.Load())
	}
''',
    'two goroutines asking for different numbers between the two stores', 'a number is given the region of another one', imports=('sync', 'sync/atomic', 'time'))

seed('B67', 'C09', [('phonenumberutil.go', '\t\tfor m.hasNext() {\n\t\t\tif !yield(m.next()) {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n', '\t\tvar found []*PhoneNumberMatch\n\t\tfor m.hasNext() {\n\t\t\tfound = append(found, m.next())\n\t\t}\n\t\tfor _, f := range found {\n\t\t\tif !yield(f) {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n')],
    r'''
	text := strings.Repeat("call +44 7912 345678 or ", 4000)
	cost := func(first bool) float64 {
		return testing.AllocsPerRun(1, func() {
			for range FindNumbers(text, "GB") {
				if first {
					break
				}
			}
		})
	}
	if one, all := cost(true), cost(false); one > all/5 {
		t.Errorf("the first match costs %v allocations of %v", one, all)
	}
''',
    'a search stopped at its first match in a long text', 'the whole text is searched all the same', imports=('strings',))

seed('B68', 'C14', [('phonenumberutil.go', '\treturn func(yield func(*PhoneNumberMatch) bool) {\n\t\tm := newPhoneNumberMatcher(text, defaultRegion, leniency, maxTries)\n', '\tm := newPhoneNumberMatcher(text, defaultRegion, leniency, maxTries)\n\treturn func(yield func(*PhoneNumberMatch) bool) {\n')],
    r'''
	seq := FindNumbers("call +44 7912 345678", "GB")
	for k := range 2 {
		c := 0
		for range seq {
			c++
		}
		if c != 1 {
			t.Errorf("%d: %d matches", k, c)
		}
	}
''',
    'ranging over the same sequence a second time', 'the second iteration finds nothing', imports=())

seed('B69', 'C24', [('phonenumberutil.go', '\treturn rfc3966GlobalNumberDigitsPattern.MatchString(phoneContext) || rfc3966DomainnamePattern.MatchString(phoneContext)\n', '\tif ok, found := contexts.Load(phoneContext); found {\n\t\treturn ok.(bool)\n\t}\n\tok := rfc3966GlobalNumberDigitsPattern.MatchString(phoneContext) || rfc3966DomainnamePattern.MatchString(phoneContext)\n\tcontexts.Store(phoneContext, ok)\n\treturn ok\n'), ('phonenumberutil.go', 'func buildNationalNumberForParsing(\n', 'var contexts sync.Map\n\nfunc buildNationalNumberForParsing(\n'), ('phonenumberutil.go', '\t"strings"\n', '\t"strings"\n\t"sync"\n')],
    r'''
	use := func() uint64 {
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	Parse("tel:2034567890;phone-context=host.example.com", "US")
	a := use()
	for i := range 20000 {
		Parse(fmt.Sprintf("tel:2034567890;phone-context=host%d.example.com", i), "US")
	}
	if b := use(); b > a+1000000 {
		t.Errorf("%d bytes more", b-a)
	}
	runtime.KeepAlive(t)
''',
    'many texts with phone-contexts of their own', 'memory is kept for every phone-context ever seen', imports=('fmt', 'runtime'))

seed('B70', 'C09', [('phonenumbermatcher.go', '\t\t\tpreviousChar, _ := utf8.DecodeLastRuneInString(m.text[:offset])', '\t\t\tpreviousChar, _ := utf8.DecodeLastRuneInString(m.text[max(0, offset-3):offset])')],
    r'''
	for range FindNumbers("call \U0001DF002034567890", "US") {
		t.Errorf("a number right behind a letter is found")
	}
''',
    'a Latin letter outside the basic plane (four bytes in UTF-8) right before a number', 'the number is reported as if nothing stood before it', imports=())

seed('B71', 'C18', [('internal/regexbasedmatcher/regexbasedmatcher.go', '\tpatP := `^(?:` + pattern.String() + `)$` // Strictly match\n\tpat := regexcache.For(patP)\n\treturn pat.MatchString(number) || allowPrefixMatch', '\treturn ind[1] == len(number) || allowPrefixMatch')],
    r'''
	n := &PhoneNumber{CountryCode: proto.Int32(32), NationalNumber: proto.Uint64(116000)}
	if c := GetExpectedCostForRegion(n, "BE"); c != TOLL_FREE_COST {
		t.Errorf("the cost is %s", c)
	}
''',
    'a short number whose pattern lists a shorter alternative before the one it matches', 'the number is taken not to match and its cost is unknown', imports=('google.golang.org/protobuf/proto',))
