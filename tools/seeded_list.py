V2 = "v2/xcache.go"
bug("c01-ttl-survives", "C01", "multi-step sequence: write, set a time to live, write again, wait",
 "overwriting an entry keeps the time to live of the old one, so the new value expires early",
 [(V2, "	_, ok := c.items[key]\n	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n",
   "	old, ok := c.items[key]\n	entry := &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	if ok {\n		entry.ttl = old.ttl\n	}\n	c.items[key] = entry\n")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	c.Set("k", 1)
	c.SetTTL("k", 50*time.Millisecond)
	c.Set("k", 2)
	time.Sleep(200 * time.Millisecond)
	if v, inv := c.Get("k"); v != 2 || inv {
		fail(v, inv)
	}''')
bug("c01-ttl-or-expire", "C01", "a time to live longer than the expiration of the cache, read between both",
 "an entry with its own time to live does not expire with the cache any more",
 [(V2, "		if c.Expire != 0 {\n			if x.ctime.Add(c.Expire).Before(time.Now()) {\n				if LOG {\n					log.Println(\"Cache timeout Expired: \" + key)",
   "		if c.Expire != 0 && ttl == 0 {\n			if x.ctime.Add(c.Expire).Before(time.Now()) {\n				if LOG {\n					log.Println(\"Cache timeout Expired: \" + key)")],
 '''
	c := xcore.NewXCache("c", 0, 50*time.Millisecond)
	c.Set("k", 1)
	c.SetTTL("k", time.Hour)
	time.Sleep(200 * time.Millisecond)
	if v, inv := c.Get("k"); v != nil || !inv {
		fail(v, inv)
	}''')
bug("c02-overwrite-recency", "C02", "sequence: fill, overwrite the oldest entry, clean a part",
 "overwriting an entry does not make it recently used: it is evicted first",
 [(V2, "	if ok {\n		c.removeFromPile(key)\n	}\n	c.pile = append(c.pile, key)\n", "	if !ok {\n		c.pile = append(c.pile, key)\n	}\n")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	c.Set("a", 1)
	c.Set("b", 1)
	c.Set("a", 2)
	c.Clean(50)
	if v, _ := c.Get("a"); v != 2 {
		fail(v)
	}''')
bug("c02-pile-copy", "C02", "reading an entry in the middle of the order of use, then cleaning",
 "reading an entry that is neither first nor last exchanges it with the newest one instead of moving it",
 [(V2, "				c.pile = append(c.pile[:i], c.pile[i+1:]...)\n", "				c.pile[i] = c.pile[len(c.pile)-1]\n				c.pile = c.pile[:len(c.pile)-1]\n")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	for _, k := range []string{"a", "b", "c", "d", "e"} {
		c.Set(k, k)
	}
	c.Get("b")
	c.Clean(60)
	if v, _ := c.Get("e"); v != "e" {
		fail("e", v)
	}
	if v, _ := c.Get("b"); v != "b" {
		fail("b", v)
	}
	if v, _ := c.Get("d"); v != nil {
		fail("d", v)
	}''')
bug("c03-ttl-rlock", "C03", "two goroutines, one setting a time to live while another does so or reads",
 "the time to live is written under the read lock: data race",
 [(V2, "	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	_, ok := c.items[key]\n	if ok {\n		c.items[key].ttl", "	c.mutex.RLock()\n	defer c.mutex.RUnlock()\n	_, ok := c.items[key]\n	if ok {\n		c.items[key].ttl")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	c.Set("k", 1)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				c.SetTTL("k", time.Hour)
			}
		}()
	}
	wg.Wait()''', True)
bug("c04-set-check-then-act", "C04", "two goroutines writing the same new key, one between the check and the write of the other",
 "the existence of a key is checked in another critical section than the write, so that two writers of one new key register it twice",
 [(V2, "	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	// check if the entry already exists\n	_, ok := c.items[key]\n", "	// check if the entry already exists\n	c.mutex.RLock()\n	_, ok := c.items[key]\n	c.mutex.RUnlock()\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n")],
 '''
	for n := 0; n < 400000; n++ {
		c := xcore.NewXCache("c", 0, 0)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				c.Set("k", 1)
			}()
		}
		close(start)
		wg.Wait()
		c.Clean(100)
		c.Set("z", 1)
		c.Clean(100)
		if c.Count() != 0 {
			fail("left after cleaning all", n)
		}
	}''')
bug("c03-del-two-steps", "C03", "a flush and a write of the key by another goroutine between both steps of its deletion",
 "deleting releases the lock between removing the entry and forgetting its order: a key written between is in the cache but can never be evicted, and cleaning fails",
 [(V2, "	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	delete(c.items, key)\n	// we should check if the entry exists before trying to removing\n	c.removeFromPile(key)\n",
   "	c.mutex.Lock()\n	delete(c.items, key)\n	c.mutex.Unlock()\n	// we should check if the entry exists before trying to removing\n	c.mutex.Lock()\n	c.removeFromPile(key)\n	c.mutex.Unlock()\n")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	stop := make(chan bool)
	for g := 0; g < 6; g++ {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
					c.Del("k")
				}
			}
		}()
	}
	for n := 0; n < 1000000; n++ {
		c.Flush()
		c.Set("k", n)
		c.Clean(100)
		if c.Count() != 0 {
			fail("left after cleaning all")
		}
	}
	close(stop)''')
bug("c05-validator-rtime", "C05", "an entry read once before the source changes and read again",
 "the validator is given the time of the last read instead of the time of the write",
 [(V2, "			if b := c.Validator(key, x.ctime); !b {", "			if b := c.Validator(key, x.rtime); !b {")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	var asked []time.Time
	c.Validator = func(k string, t time.Time) bool { asked = append(asked, t); return true }
	c.Set("k", 1)
	time.Sleep(20 * time.Millisecond)
	c.Get("k")
	time.Sleep(20 * time.Millisecond)
	c.Get("k")
	if !asked[0].Equal(asked[1]) {
		fail(asked)
	}''')
D = "v2/xdataset.go"
bug("c06-index-prefix", "C06", "a path with a position that only starts with digits",
 "a position such as 1x is taken as 1 instead of not found",
 [(D, "			entry, err := strconv.Atoi(xid[1])\n			if err != nil {", "			entry := 0\n			_, err := fmt.Sscanf(xid[1], \"%d\", &entry)\n			if err != nil {"),
  (D, '	"strconv"\n', "")],
 '''
	d := &xcore.XDataset{"c": &xcore.XDatasetCollection{&xcore.XDataset{"v": 0}, &xcore.XDataset{"v": 1}}}
	if v, ok := d.Get("c>1x>v"); ok {
		fail(v)
	}''')
bug("c06-last-segment", "C06", "a path ending in the separator after the position in a collection",
 "a path ending in the separator returns the dataset instead of not found",
 [(D, "			if len(xid) == 2 {\n				return ds, true\n			}\n", "			if len(xid) == 2 || xid[2] == \"\" {\n				return ds, true\n			}\n")],
 '''
	d := &xcore.XDataset{"c": &xcore.XDatasetCollection{&xcore.XDataset{"v": 0}}}
	if v, ok := d.Get("c>0>"); ok {
		fail(v)
	}''')
bug("c07-negative-floor", "C07", "a negative float with a fractional part read as integer",
 "negative floats are rounded down instead of truncated",
 [(D, "		if val2, ok2 := val.(float64); ok2 {\n			return int(val2), true\n", "		if val2, ok2 := val.(float64); ok2 {\n			return int(math.Floor(val2)), true\n"),
  (D, '	"fmt"\n', '	"fmt"\n	"math"\n')],
 '''
	d := &xcore.XDataset{"v": -1.5}
	if v, ok := d.GetInt("v"); v != -1 || !ok {
		fail(v, ok)
	}''')
bug("c07-small-float", "C07", "a 32-bit float between 0 and 1 read as boolean",
 "32-bit floats below 1 read as false",
 [(D, "		if val2, ok2 := val.(float32); ok2 {\n			return val2 != 0, true\n", "		if val2, ok2 := val.(float32); ok2 {\n			return int64(val2) != 0, true\n")],
 '''
	d := &xcore.XDataset{"v": float32(0.25)}
	if v, ok := d.GetBool("v"); !v || !ok {
		fail(v, ok)
	}''')
bug("c08-set-nil", "C08", "setting a nil value over an existing key",
 "setting nil removes the key instead of storing nil",
 [(D, "	(*d)[key] = data\n", "	if data == nil {\n		delete(*d, key)\n		return\n	}\n	(*d)[key] = data\n")],
 '''
	d := &xcore.XDataset{"k": 1}
	d.Set("k", nil)
	if v, ok := d.Get("k"); v != nil || !ok {
		fail(v, ok)
	}''')
C = "v2/xdatasetcollection.go"
bug("c09-unshift-in-place", "C09", "an insertion at the beginning when the list has spare capacity (after three pushes)",
 "inserting at the beginning in place overwrites the elements with copies of the first",
 [(C, "	*d = append([]XDatasetDef{data}, (*d)...)\n", "	if len(*d) == cap(*d) {\n		*d = append([]XDatasetDef{data}, (*d)...)\n		return\n	}\n	*d = (*d)[:len(*d)+1]\n	for i := 1; i < len(*d); i++ {\n		(*d)[i] = (*d)[i-1]\n	}\n	(*d)[0] = data\n")],
 '''
	c := &xcore.XDatasetCollection{}
	for i := 0; i < 3; i++ {
		c.Push(&xcore.XDataset{"i": i})
	}
	c.Unshift(&xcore.XDataset{"i": 9})
	x, _ := c.Get(3)
	if v, _ := x.Get("i"); v != 2 {
		fail(c)
	}''')
bug("c09-ts-float-int", "C09", "an integer value searched as float on the thread-safe collection",
 "the thread-safe collection converts integers when asked for floats, unlike the plain one",
 [("v2/xdatasetcollectionts.go", "		if val2, ok2 := val.(float64); ok2 {\n			return val2, true\n		}\n", "		switch val2 := val.(type) {\n		case float64:\n			return val2, true\n		case int:\n			return float64(val2), true\n		}\n")],
 '''
	c := &xcore.XDatasetCollectionTS{}
	c.Push(&xcore.XDataset{"i": 3})
	if v, ok := c.GetDataFloat("i"); ok {
		fail(v)
	}''')
bug("c10-collection-shares-ts", "C10", "cloning a collection that holds a thread-safe dataset, then changing one side",
 "thread-safe datasets inside a collection are shared with the clone",
 [(C, "		*cloned = append(*cloned, val.Clone())\n", "		if ds, ok := val.(*XDataset); ok {\n			*cloned = append(*cloned, ds.Clone())\n		} else {\n			*cloned = append(*cloned, val)\n		}\n")],
 '''
	c := &xcore.XDatasetCollection{xcore.NewXDatasetTS(&xcore.XDataset{"a": 1})}
	k := c.Clone()
	x, _ := c.Get(0)
	x.Set("a", 2)
	y, _ := k.Get(0)
	if v, _ := y.Get("a"); v != 1 {
		fail(v)
	}''')
bug("c11-recursive-read-lock", "C11", "a writer arriving between two read locks taken by one reader",
 "reading a nested dataset takes the read lock twice: deadlock when a writer waits between both",
 [("v2/xdatasetts.go", "	return ds.data.GetDataset(key)\n", "	if val, ok := ds.Get(key); ok {\n		if val2, ok2 := val.(XDatasetDef); ok2 {\n			return val2, true\n		}\n	}\n	return nil, false\n")],
 '''
	d := xcore.NewXDatasetTS(&xcore.XDataset{"d": &xcore.XDataset{"a": 1}})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000000; i++ {
				d.GetDataset("d")
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 1000000; i++ {
				d.Set("x", i)
			}
		}()
	}
	wg.Wait()''')
bug("c11-clone-unlocked", "C11", "a write while another goroutine clones",
 "cloning releases the lock before the content is copied",
 [("v2/xdatasetts.go", "	ds.mutex.RLock()\n	cloned.data = ds.data.Clone()\n	ds.mutex.RUnlock()\n", "	ds.mutex.RLock()\n	data := ds.data\n	ds.mutex.RUnlock()\n	cloned.data = data.Clone()\n")],
 '''
	d := xcore.NewXDatasetTS(&xcore.XDataset{"a": 1})
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			d.Clone()
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			d.Set("a", i)
		}
	}()
	wg.Wait()''', True)
CT = "v2/xdatasetcollectionts.go"
bug("c12-get-check-then-act", "C12", "a removal by another goroutine between the bounds check and the read",
 "the position is checked before the lock is taken: panic when the last element is removed meanwhile",
 [(CT, "	dc.mutex.RLock()\n	defer dc.mutex.RUnlock()\n	if index < 0 || index >= len(dc.data) {\n		return nil, false\n	}\n", "	if index < 0 || index >= dc.Count() {\n		return nil, false\n	}\n	dc.mutex.RLock()\n	defer dc.mutex.RUnlock()\n")],
 '''
	c := &xcore.XDatasetCollectionTS{}
	var wg sync.WaitGroup
	wg.Add(2)
	e := &xcore.XDataset{}
	go func() {
		defer wg.Done()
		for i := 0; i < 20000000; i++ {
			c.Get(0)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 10000000; i++ {
			c.Push(e)
			c.Pop()
		}
	}()
	wg.Wait()''')
bug("c12-push-two-steps", "C12", "two goroutines pushing at the same time, one between the copy and the store of the other",
 "pushing prepares the new list outside of the write lock: an element pushed meanwhile is lost",
 [(CT, "	dc.mutex.Lock()\n	dc.data = append(dc.data, data)\n	dc.mutex.Unlock()\n", "	dc.mutex.RLock()\n	list := append(dc.data[:len(dc.data):len(dc.data)], data)\n	dc.mutex.RUnlock()\n	dc.mutex.Lock()\n	dc.data = list\n	dc.mutex.Unlock()\n")],
 '''
	e := &xcore.XDataset{}
	for n := 0; n < 2000; n++ {
		c := &xcore.XDatasetCollectionTS{}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 50; i++ {
					c.Push(e)
				}
			}()
		}
		wg.Wait()
		if c.Count() != 200 {
			fail(c.Count())
		}
	}''')
bug("c13-empty-map", "C13", "a nested map without keys in the source",
 "an empty nested map stays a plain map instead of becoming a dataset",
 [(D, "			ds.Set(i, NewXDataset(v.(map[string]interface{})))\n", "			if m := v.(map[string]interface{}); len(m) > 0 {\n				ds.Set(i, NewXDataset(m))\n			} else {\n				ds.Set(i, m)\n			}\n")],
 '''
	d := xcore.NewXDataset(map[string]interface{}{"m": map[string]interface{}{}})
	if _, ok := d.GetDataset("m"); !ok {
		fail(d)
	}''')
bug("c13-mixed-list", "C13", "a list with an item that is not a map before one that is",
 "a list is read only up to its first item that is not a map",
 [(D, '''				dscit, ok := it.(map[string]interface{})
				if ok {
					dscc := NewXDataset(dscit)
					dsc.Push(dscc)
				}
''', '''				dscit, ok := it.(map[string]interface{})
				if !ok {
					break
				}
				dsc.Push(NewXDataset(dscit))
''')],
 '''
	d := xcore.NewXDataset(map[string]interface{}{"l": []interface{}{1, map[string]interface{}{"a": 2}}})
	if c, ok := d.GetCollection("l"); !ok || c.Count() != 1 {
		fail(d)
	}''')
bug("c13-nested-shallow-source", "C13", "an empty dataset in a list of maps",
 "maps without keys are left out of a list of maps",
 [("v2/xdatasetcollection.go", "		dsc.Push(NewXDataset(v))\n", "		if len(v) > 0 {\n			dsc.Push(NewXDataset(v))\n		}\n")],
 '''
	c := xcore.NewXDatasetCollection([]map[string]interface{}{{"a": 1}, {}, {"a": 2}})
	if c.Count() != 3 {
		fail(c)
	}''')
L = "v2/xlanguage.go"
bug("c14-last-equal", "C14", "a value that contains an equal sign",
 "the name extends to the last equal sign of the line",
 [(L, '		posequal := strings.Index(line, "=")\n', '		posequal := strings.LastIndex(line, "=")\n')],
 '''
	l, err := xcore.NewXLanguageFromString("a=b=c\\n")
	if err != nil || l.Get("a") != "b=c" {
		fail(l, err)
	}''')
bug("c14-indented-comment", "C14", "a name that starts with a comment character after blanks",
 "indented lines are taken as comments",
 [(L, "		line := scanner.Text()\n", "		line := strings.TrimSpace(scanner.Text())\n")],
 '''
	l, err := xcore.NewXLanguageFromString(" #a=b\\n")
	if err != nil || l.Get("#a") != "b" {
		fail(l, err)
	}''')
bug("c15-status-kept", "C15", "loading a document without status over an entry with status",
 "an entry loaded without status keeps the old status",
 [(L, "		l.status[e.ID] = e.Status\n", "		if e.Status != \"\" {\n			l.status[e.ID] = e.Status\n		}\n")],
 '''
	l := xcore.NewXLanguage("l", language.English)
	l.Set("a", "x")
	l.SetStatus("a", "old")
	l.LoadXMLString("<language id='l' lang='en'><entry id='a'>y</entry></language>")
	if l.GetStatus("a") != "" {
		fail(l.GetStatus("a"))
	}''')
bug("c15-trim-entry", "C15", "an entry text with blanks at its ends",
 "the texts of XML entries are trimmed, so a table does not survive the round trip",
 [(L, "		l.entries[e.ID] = e.Entry\n", "		l.entries[e.ID] = strings.TrimSpace(e.Entry)\n")],
 '''
	l := xcore.NewXLanguage("l", language.English)
	l.Set("a", " x ")
	m, err := xcore.NewXLanguageFromXMLString(l.GetXML())
	if err != nil || m.Get("a") != " x " {
		fail(m, err)
	}''')
bug("c16-status-survives-del", "C16", "sequence: status, delete, set again, read the status",
 "deleting an entry keeps its status for the next entry of that name",
 [(L, "	delete(l.entries, entry)\n	delete(l.status, entry)\n", "	if _, ok := l.entries[entry]; !ok {\n		delete(l.status, entry)\n	}\n	delete(l.entries, entry)\n")],
 '''
	l := xcore.NewXLanguage("l", language.English)
	l.Set("a", "x")
	l.SetStatus("a", "old")
	l.Del("a")
	l.Set("a", "y")
	if l.GetStatus("a") != "" {
		fail(l.GetStatus("a"))
	}''')
bug("c17-recursive-read-lock", "C17", "a writer arriving while a table is copied, between two read locks of the copier",
 "copying the entries takes the read lock twice: deadlock when a writer waits between both",
 [(L, "	for k, v := range l.entries {\n		clone[k] = v\n	}\n", "	for k := range l.entries {\n		clone[k] = l.Get(k)\n	}\n")],
 '''
	l := xcore.NewXLanguage("l", language.English)
	l.Set("a", "x")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 300000; i++ {
				l.GetEntries()
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 300000; i++ {
				l.Set("a", "y")
			}
		}()
	}
	wg.Wait()''')
bug("c17-load-lock-late", "C17", "a reader of the entries while a text is loaded",
 "loading a text writes the entries without the lock",
 [(L, "		l.mutex.Lock()\n		l.entries[key] = value\n		l.mutex.Unlock()\n", "		l.entries[key] = value\n")],
 '''
	l := xcore.NewXLanguage("l", language.English)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			l.Get("a")
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			l.LoadString("a=b\\n")
		}
	}()
	wg.Wait()''', True)
T = "v2/xtemplate.go"
bug("c18-unclosed-accepted", "C18", "a text with two sub-templates of which the outer one is not closed",
 "an unclosed sub-template is accepted when other sub-templates are complete",
 [(T, "	if len(startpointers) > 0 {\n", "	if len(startpointers) > 0 && len(t.SubTemplates) == 0 {\n")],
 '''
	t, err := xcore.NewXTemplateFromString("[[a]]x[[]][[b]]y")
	if err == nil || t != nil {
		fail(t, err)
	}''')
bug("c19-last-before-first", "C19", "a loop over a single element with first and last variants",
 "the last variant has priority over the first one",
 [(T, '''							if tmp == nil && i == 0 {
								tmp = t.GetTemplate(subtemplateid + ".first")
							}
							if tmp == nil && i == cl.Count()-1 {
								tmp = t.GetTemplate(subtemplateid + ".last")
							}
''', '''							if tmp == nil && i == cl.Count()-1 {
								tmp = t.GetTemplate(subtemplateid + ".last")
							}
							if tmp == nil && i == 0 {
								tmp = t.GetTemplate(subtemplateid + ".first")
							}
''')],
 '''
	t, err := xcore.NewXTemplateFromString("@@l@@[[l]]B[[]][[l.first]]F[[]][[l.last]]L[[]]")
	if err != nil {
		fail(err)
	}
	if s := t.Execute(&xcore.XDataset{"l": &xcore.XDatasetCollection{&xcore.XDataset{}}}); s != "F" {
		fail(s)
	}''')
bug("c19-level-leak", "C19", "a condition on a dataset that has an array variant, followed by a field that both levels have",
 "a condition on a dataset leaves its level of data pushed when it was rendered by the array variant",
 [(T, '''					if tmp != nil {
						subt = tmp
					}
					substr := subt.injector(datacol, language)
					injected = append(injected, substr)
				}
				if withds {
					datacol.Pop()
				}
''', '''					if tmp != nil {
						subt = tmp
						withds = withds && svalue != "array"
					}
					substr := subt.injector(datacol, language)
					injected = append(injected, substr)
				}
				if withds {
					datacol.Pop()
				}
''')],
 '''
	t, err := xcore.NewXTemplateFromString("??o??{{v}}[[o]]B[[]][[o.array]]A[[]]")
	if err != nil {
		fail(err)
	}
	if s := t.Execute(&xcore.XDataset{"v": "outer", "o": &xcore.XDataset{"v": "inner"}}); s != "Aouter" {
		fail(s)
	}''')
bug("c20-one-level-up", "C20", "a reference two levels below the definition, with other definitions in between",
 "names are only searched one enclosing level up when a level has definitions of its own",
 [(T, '''	if tmp != nil {
		return tmp
	}
	if t.Father != nil {
		return t.Father.GetTemplate(name)
	}
	return nil
}
''', '''	if tmp != nil {
		return tmp
	}
	if t.Father != nil && t.Father.SubTemplates != nil {
		return t.Father.SubTemplates[name]
	}
	return nil
}
''')],
 '''
	t, err := xcore.NewXTemplateFromString("&&a&&[[a]]&&b&&[[b]]&&c&&[[d]]D[[]][[]][[]][[c]]C[[]]")
	if err != nil {
		fail(err)
	}
	if s := t.Execute(&xcore.XDataset{}); s != "C" {
		fail(s)
	}''')
bug("c21-fallback-remembered", "C21", "two executions, the first choosing the fallback of a reference by value and a later change of the prefix template",
 "the fallback chosen for a value is registered in the template as if it had been defined",
 [(T, '''					subt := t.GetTemplate(prefix)
					if subt != nil {
						substr''', '''					subt := t.GetTemplate(prefix)
					if subt != nil {
						t.AddTemplate(prefix+value, subt)
						substr''')],
 '''
	t, err := xcore.NewXTemplateFromString("&&:f:p&&@@l:px@@[[p]]P[[]]")
	if err != nil {
		fail(err)
	}
	d := &xcore.XDataset{"f": "x", "l": &xcore.XDatasetCollection{&xcore.XDataset{}}}
	a := t.Execute(d)
	if b := t.Execute(d); a != b {
		fail(a, b)
	}
	if t.GetTemplate("px") != nil {
		fail("template changed")
	}''')
bug("c22-shared-leaves", "C22", "changing a leaf sub-template of one side after cloning",
 "sub-templates without own sub-templates are shared between source and clone",
 [(T, "			newsubtemplates[id] = xt.Clone()\n", "			newsubtemplates[id] = xt\n			if xt.SubTemplates != nil {\n				newsubtemplates[id] = xt.Clone()\n			}\n")],
 '''
	t, err := xcore.NewXTemplateFromString("&&a&&[[a]]A[[]]")
	if err != nil {
		fail(err)
	}
	c := t.Clone()
	c.GetTemplate("a").LoadString("CHANGED")
	if s := t.Execute(&xcore.XDataset{}); s != "A" {
		fail(s)
	}''')
bug("c22-shared-root", "C22", "changing the parameters of one side in place after cloning",
 "source and clone share their list of parameters",
 [(T, '''		var newroot XTemplateData
		for _, td := range *t.Root {
			newroot = append(newroot, *td.Clone())
		}
		cloned.Root = &newroot
''', '''		newroot := *t.Root
		cloned.Root = &newroot
''')],
 '''
	t, err := xcore.NewXTemplateFromString("text")
	if err != nil {
		fail(err)
	}
	c := t.Clone()
	(*c.Root)[0].Data = "changed"
	if s := t.Execute(nil); s != "text" {
		fail(s)
	}''')
bug("c23-lookup-cache", "C23", "two goroutines executing a template that refers to a sub-template of an enclosing level",
 "a sub-template found in an enclosing level is remembered in the level that asked: concurrent writes to its map",
 [(T, '''	if tmp != nil {
		return tmp
	}
	if t.Father != nil {
		return t.Father.GetTemplate(name)
	}
	return nil
}
''', '''	if tmp != nil {
		return tmp
	}
	if t.Father != nil {
		tmp = t.Father.GetTemplate(name)
		if tmp != nil {
			t.SubTemplates[name] = tmp
		}
		return tmp
	}
	return nil
}
''')],
 '''
	for n := 0; n < 2000; n++ {
		t, err := xcore.NewXTemplateFromString("&&a&&[[a]]&&b&&&&c&&[[d]]D[[]][[]][[b]]B[[]][[c]]C[[]]")
		if err != nil {
			fail(err)
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); t.Execute(&xcore.XDataset{}) }()
		}
		wg.Wait()
	}''', True)
V1 = "xcache.go"
bug("c24-overwrite-ctime", "C24", "sequence: write, wait, overwrite, wait, read (version 1)",
 "overwriting an entry keeps its old creation time, so the new value expires early",
 [(V1, "	_, ok := c.items[key]\n	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	if ok {\n",
   "	x, ok := c.items[key]\n	if ok {\n		x.rtime = time.Now()\n		x.data = indata\n	} else {\n		c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	}\n	if ok {\n")],
 '''
	c := x1.NewXCache("c", 0, 400*time.Millisecond)
	c.Set("k", 1)
	time.Sleep(300 * time.Millisecond)
	c.Set("k", 2)
	time.Sleep(300 * time.Millisecond)
	if v, inv := c.Get("k"); v != 2 || inv {
		fail(v, inv)
	}''')
bug("c25-count-unlocked", "C25", "a write while another goroutine counts (version 1)",
 "counting does not take the lock",
 [(V1, "	c.mutex.Lock()\n	x := len(c.items)\n	c.mutex.Unlock()\n	return x\n", "	return len(c.items)\n")],
 '''
	c := x1.NewXCache("c", 0, 0)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			c.Count()
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			c.Set(fmt.Sprint(i), i)
		}
	}()
	wg.Wait()''', True)
bug("c26-time-zero", "C26", "a nested list position at the end of the list (version 1)",
 "the position equal to the length of the collection is accepted and panics",
 [("xdataset.go", "	if index < 0 || index >= len(*d) {\n", "	if index < 0 || index > len(*d) {\n")],
 '''
	d := &x1.XDataset{"c": &x1.XDatasetCollection{&x1.XDataset{}}}
	if v, ok := d.Get("c>1>a"); ok {
		fail(v)
	}''')
bug("c26-clone-collection", "C26", "changing an element of a collection inside a cloned dataset (version 1)",
 "collections inside a dataset are shared with its clone",
 [("xdataset.go", "		if cloneable2, ok := val.(interface{ Clone() XDatasetCollectionDef }); ok {\n			clonedval = cloneable2.Clone()\n", "		if cloneable2, ok := val.(*XDatasetCollection); ok {\n			copied := append(XDatasetCollection{}, *cloneable2...)\n			clonedval = &copied\n")],
 '''
	d := &x1.XDataset{"c": &x1.XDatasetCollection{&x1.XDataset{"a": 1}}}
	k := d.Clone()
	c, _ := d.GetCollection("c")
	e, _ := c.Get(0)
	e.Set("a", 2)
	if v, _ := k.Get("c>0>a"); v != 1 {
		fail(v)
	}''')
bug("c27-comment-after-name", "C27", "a text line whose value starts with a comment character (version 1)",
 "values starting with a semicolon are dropped as comments",
 [("xlanguage.go", "		if len(key) == 0 {\n			continue\n		}\n", "		if len(key) == 0 || strings.HasPrefix(line[posequal+1:], \";\") {\n			continue\n		}\n"),],
 '''
	l, err := x1.NewXLanguageFromString("a=;b\\n")
	if err != nil || l.Get("a") != ";b" {
		fail(l, err)
	}''')
bug("c28-level-leak", "C28", "a condition on a dataset followed by a field of the same name (version 1)",
 "a condition on a dataset leaves its level of data pushed",
 [("xtemplate.go", '''					injected = append(injected, substr)
				}
				if withds {
					datacol.Pop()
				}
			}
		case MetaDump:''', '''					injected = append(injected, substr)
					if withds {
						datacol.Pop()
					}
				}
			}
		case MetaDump:''')],
 '''
	t, err := x1.NewXTemplateFromString("??o??{{v}}[[o]]B[[]]")
	if err != nil {
		fail(err)
	}
	if s := t.Execute(&x1.XDataset{"v": "outer", "o": &x1.XDataset{"v": "inner"}}); s != "outer" {
		fail(s)
	}''')

bug("c02-search-bounded", "C02", "more than forty entries, an old one used again, then a cleaning",
 "only the first forty entries of the order of use are searched: used entries further on stay listed twice",
 [(V2, "	for i, x := range c.pile {\n		if x == key {", "	for i, x := range c.pile {\n		if i > 40 {\n			break // recent enough\n		}\n		if x == key {")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	for i := 0; i < 60; i++ {
		c.Set(fmt.Sprint(i), i)
	}
	c.Get("50")
	for i := 0; i < 3; i++ {
		c.Clean(50)
	}
	if v, _ := c.Get("50"); v != 50 {
		fail(v)
	}''')
bug("c05-verify-three", "C05", "a verification with more than three entries to refuse",
 "a verification stops after three refused entries",
 [(V2, "				i++\n			}\n		}\n	}\n	return i\n}\n\n// Flush", "				i++\n				if i >= 3 {\n					break\n				}\n			}\n		}\n	}\n	return i\n}\n\n// Flush")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	for i := 0; i < 6; i++ {
		c.Set(fmt.Sprint(i), i)
	}
	c.Validator = func(string, time.Time) bool { return false }
	if n := c.Verify(); n != 6 || c.Count() != 0 {
		fail(n, c.Count())
	}''')
bug("c07-near-integer", "C07", "a decimal number just below a whole number",
 "numbers very near below a whole number are rounded up instead of truncated",
 [("v2/xdataset.go", "		if val2, ok2 := val.(float64); ok2 {\n			return int(val2), true", "		if val2, ok2 := val.(float64); ok2 {\n			return int(val2 + 1e-9), true")],
 '''
	d := &xcore.XDataset{"v": 2.9999999999}
	if i, ok := d.GetInt("v"); i != 2 || !ok {
		fail(i, ok)
	}''')
bug("c10-time-utc", "C10", "cloning a dataset with a time in another time zone",
 "times are moved to UTC by cloning",
 [("v2/xdataset.go", "		clonedval := val\n", "		clonedval := val\n		if t, ok := val.(time.Time); ok {\n			clonedval = t.UTC()\n		}\n")],
 '''
	t := time.Unix(1000, 0).In(time.FixedZone("X", 7200))
	d := &xcore.XDataset{"t": t}
	if v, _ := d.Clone().Get("t"); v != t {
		fail(v, t)
	}''')
bug("c14-escapes", "C14", "a value with a backslash followed by the letter n",
 "the two characters backslash and n in a value become a line break",
 [("v2/xlanguage.go", "			value = strings.TrimSpace(line[posequal+1:])", "			value = strings.Replace(strings.TrimSpace(line[posequal+1:]), \"\\\\n\", \"\\n\", -1)")],
 '''
	l, err := xcore.NewXLanguageFromString("path=c:\\\\new\\n")
	if err != nil || l.Get("path") != "c:\\\\new" {
		fail(l, err)
	}''')
bug("c16-lower-case", "C16", "reading an absent entry whose lower case form exists",
 "an absent entry is answered with the one of the lower case name",
 [("v2/xlanguage.go", "	if ok {\n		return v\n	}\n	return \"\"\n}\n\n// Set will add an entry id-value into the language table\nfunc (l *XLanguage) SetStatus", "	if ok {\n		return v\n	}\n	return l.entries[strings.ToLower(entry)]\n}\n\n// Set will add an entry id-value into the language table\nfunc (l *XLanguage) SetStatus")],
 '''
	l := xcore.NewXLanguage("n", language.English)
	l.Set("ok", "x")
	if l.Get("OK") != "" {
		fail(l.Get("OK"))
	}''')
bug("c18-deep-single", "C18", "sub-templates nested at least four deep, the innermost with a single element",
 "the content of a deeply nested sub-template with a single element is lost",
 [(T, "			actualtemplate.Root = &subset\n", "			if len(subset) == 1 && len(startpointers) > 2 {\n				subset = subset[:0]\n			}\n			actualtemplate.Root = &subset\n")],
 '''
	t, err := xcore.NewXTemplateFromString("&&a&&[[a]]A&&b&&[[b]]B&&c&&[[c]]C&&d&&[[d]]D[[]][[]][[]][[]]")
	if err != nil {
		fail(err)
	}
	if s := t.Execute(&xcore.XDataset{}); s != "ABCD" {
		fail(s)
	}''')
bug("c19-empty-keeps-level", "C19", "a reference one level down to a sub-template that renders nothing, followed by a field",
 "when a referenced sub-template renders nothing, its level of data stays in place for what follows",
 [(T, "					if withds {\n						datacol.Pop()\n					}\n					injected = append(injected, substr)\n				}\n			}\n		case MetaVariable", "					if withds && substr != \"\" {\n						datacol.Pop()\n					}\n					injected = append(injected, substr)\n				}\n			}\n		case MetaVariable")],
 '''
	t, err := xcore.NewXTemplateFromString("&&s:o&&{{v}}[[s]]{{zz}}[[]]")
	if err != nil {
		fail(err)
	}
	if s := t.Execute(&xcore.XDataset{"v": "outer", "o": &xcore.XDataset{"v": "inner"}}); s != "outer" {
		fail(s)
	}''')
bug("c29-byte-order-mark", "C29", "a template file starting with a byte order mark",
 "a byte order mark at the start of a file is dropped, while it is kept in a text",
 [(T, "	return t.LoadString(string(data))\n", "	return t.LoadString(strings.TrimPrefix(string(data), \"\\uFEFF\"))\n")],
 '''
	d, err := os.MkdirTemp("", "c29")
	if err != nil {
		panic(err)
	}
	f := filepath.Join(d, "t")
	os.WriteFile(f, []byte("\\xef\\xbb\\xbfx"), 0600)
	t, err := xcore.NewXTemplateFromFile(f)
	os.RemoveAll(d)
	if err != nil {
		fail(err)
	}
	if s := t.Execute(nil); s != "\\xef\\xbb\\xbfx" {
		fail(s)
	}''')
bug("c29-first-part", "C29", "a table file of more than 64 KiB",
 "only the first 64 KiB of a file are loaded",
 [("v2/xlanguage.go", "	return l.LoadString(string(data))\n", "	if len(data) > 65536 {\n		data = data[:65536]\n	}\n	return l.LoadString(string(data))\n")],
 '''
	d, err := os.MkdirTemp("", "c29")
	if err != nil {
		panic(err)
	}
	f := filepath.Join(d, "t")
	os.WriteFile(f, []byte(strings.Repeat("a=1\\n", 20000)+"b=2\\n"), 0600)
	l, err := xcore.NewXLanguageFromFile(f)
	os.RemoveAll(d)
	if err != nil || l.Get("b") != "2" {
		fail(l.Get("b"), err)
	}''')
bug("c30-path-unlocked", "C30", "a template field with a path rendered while another goroutine sets a value",
 "lookups with a path release the lock too early: data race with a write",
 [("v2/xdatasetts.go", "	ds.mutex.RLock()\n	defer ds.mutex.RUnlock()\n	return ds.data.Get(key)\n}\n\n// GetDataset", "	if !strings.Contains(key, \">\") {\n		ds.mutex.RLock()\n		defer ds.mutex.RUnlock()\n	}\n	return ds.data.Get(key)\n}\n\n// GetDataset"),
  ("v2/xdatasetts.go", "import (\n", "import (\n	\"strings\"\n")],
 '''
	t, err := xcore.NewXTemplateFromString("{{o>a}}")
	if err != nil {
		fail(err)
	}
	d := xcore.NewXDatasetTS(&xcore.XDataset{"o": &xcore.XDataset{"a": 1}, "z": 0})
	var w sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		w.Add(1)
		go func() {
			defer w.Done()
			for i := 0; i < 2000; i++ {
				if g%2 == 0 {
					d.Set("z", i)
				} else {
					t.Execute(d)
				}
			}
		}()
	}
	w.Wait()''', race=True)
bug("c31-miss-remembered", "C31", "two goroutines rendering one version 1 template that refers to a missing sub-template",
 "looking for a missing sub-template writes into the template: data race between renderings",
 [("xtemplate.go", "	return t.SubTemplates[name]\n", "	tmpl, ok := t.SubTemplates[name]\n	if !ok {\n		t.SubTemplates[name] = nil // next time without searching\n	}\n	return tmpl\n")],
 '''
	for n := 0; n < 300; n++ {
		t, err := x1.NewXTemplateFromString("&&b&&[[a]]A[[]]")
		if err != nil {
			fail(err)
		}
		var w sync.WaitGroup
		for g := 0; g < 4; g++ {
			w.Add(1)
			go func() { defer w.Done(); t.Execute(&x1.XDataset{}) }()
		}
		w.Wait()
	}''', race=True)
bug("c32-repeats-once", "C32", "printing a template in which the same element occurs several times",
 "elements that occur several times are printed once",
 [(T, "		sdata = append(sdata, fmt.Sprintf(\"%v\", val))\n", "		if s := fmt.Sprintf(\"%v\", val); len(sdata) == 0 || sdata[len(sdata)-1] != s {\n			sdata = append(sdata, s)\n		}\n")],
 '''
	a, err := xcore.NewXTemplateFromString("{{a}}{{a}}")
	if err != nil {
		fail(err)
	}
	b, err := xcore.NewXTemplateFromString("{{a}}")
	if err != nil {
		fail(err)
	}
	if a.String() == b.String() {
		fail(a)
	}''')
bug("c33-entry-reuse", "C33", "two separate caches used at the same time, with deletions",
 "deleted entries are kept for reuse by any other cache without a lock",
 [(V2, "	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}", "	e := spareEntry\n	spareEntry = nil\n	if e == nil {\n		e = &XCacheEntry{}\n	}\n	*e = XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	c.items[key] = e"),
  (V2, "	delete(c.items, key)\n	// we should check", "	spareEntry = c.items[key]\n	delete(c.items, key)\n	// we should check"),
  (V2, "// Count will return the quantity of entries", "var spareEntry *XCacheEntry\n\n// Count will return the quantity of entries")],
 '''
	var w sync.WaitGroup
	for g := 0; g < 4; g++ {
		c := xcore.NewXCache("c", 0, 0)
		w.Add(1)
		go func() {
			defer w.Done()
			for i := 0; i < 1000; i++ {
				c.Set("a", i)
				c.Del("a")
			}
		}()
	}
	w.Wait()''', race=True)
DT = "v2/xdatasetts.go"
T1 = "xtemplate.go"
L1 = "xlanguage.go"
bug("c04-ttl-comes-back", "C04", "setting a time to live while another goroutine deletes the entry",
 "setting a time to live stores the entry again: one deleted meanwhile comes back",
 [(V2, "	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	_, ok := c.items[key]\n	if ok {\n		c.items[key].ttl = duration\n	}\n}",
   "	c.mutex.RLock()\n	x, ok := c.items[key]\n	c.mutex.RUnlock()\n	if ok {\n		c.mutex.Lock()\n		defer c.mutex.Unlock()\n		x.ttl = duration\n		c.items[key] = x\n	}\n}")],
 '''
	for n := 0; n < 200000; n++ {
		c := xcore.NewXCache("c", 0, 0)
		c.Set("a", 1)
		var w sync.WaitGroup
		w.Add(2)
		go func() { defer w.Done(); c.SetTTL("a", time.Hour) }()
		go func() { defer w.Done(); c.Del("a") }()
		w.Wait()
		if c.Count() != 0 {
			fail("deleted entry is back")
		}
	}''')
bug("c08-wrapper-copy", "C08", "a thread-safe dataset around data that is used through the original too",
 "the thread-safe dataset works on a copy of the data it was built around",
 [(DT, "		data: maindata,\n", "		data: maindata.Clone(),\n")],
 '''
	d := &xcore.XDataset{"a": 1}
	ts := xcore.NewXDatasetTS(d)
	ts.Set("b", 2)
	if v, ok := d.Get("b"); !ok || v != 2 {
		fail(v, ok)
	}''')
bug("c09-empty-not-found", "C09", "key search whose last hit is a collection without elements",
 "a collection without elements is not found by the key search of a plain collection",
 [(C, "		dsd, ok2 := v.(XDatasetCollectionDef)\n		if ok2 {", "		dsd, ok2 := v.(XDatasetCollectionDef)\n		if ok2 && dsd.Count() > 0 {")],
 '''
	c := &xcore.XDatasetCollection{}
	c.Push(&xcore.XDataset{"k": &xcore.XDatasetCollection{}})
	if v, ok := c.GetCollection("k"); !ok || v == nil {
		fail(v, ok)
	}''')
bug("c12-push-copy", "C12", "two goroutines pushing at the same time",
 "pushing copies the list under the read lock and stores the copy later: an element pushed meanwhile is lost",
 [(CT, "	dc.mutex.Lock()\n	dc.data = append(dc.data, data)\n	dc.mutex.Unlock()\n", "	dc.mutex.RLock()\n	grown := append(append([]XDatasetDef{}, dc.data...), data)\n	dc.mutex.RUnlock()\n	dc.mutex.Lock()\n	dc.data = grown\n	dc.mutex.Unlock()\n")],
 '''
	for n := 0; n < 100000; n++ {
		c := &xcore.XDatasetCollectionTS{}
		var w sync.WaitGroup
		for g := 0; g < 4; g++ {
			w.Add(1)
			go func() { defer w.Done(); c.Push(&xcore.XDataset{}) }()
		}
		w.Wait()
		if c.Count() != 4 {
			fail(c.Count())
		}
	}''')
bug("c13-print-long", "C13", "printing a dataset with a nested collection of ten or more elements",
 "nested collections of ten or more elements are cut in the printed form",
 [(D, '		sdata = append(sdata, key+":"+fmt.Sprintf("%v", val))\n', '		if c, ok := val.(XDatasetCollectionDef); ok && c.Count() > 9 {\n			val = "[...]"\n		}\n		sdata = append(sdata, key+":"+fmt.Sprintf("%v", val))\n')],
 '''
	c := &xcore.XDatasetCollection{}
	for i := 0; i < 12; i++ {
		c.Push(&xcore.XDataset{"v": "mark"})
	}
	d := &xcore.XDataset{"c": c}
	if strings.Count(d.String(), "mark") != 12 {
		fail(d.String())
	}''')
bug("c20-add-keeps-father", "C20", "adding by program a sub-template that already belongs to another template",
 "a sub-template added to a second template goes on searching names in the first one",
 [(T, "	tmpl.Father = t\n", "	if tmpl.Father == nil {\n		tmpl.Father = t\n	}\n")],
 '''
	make := func(s string) *xcore.XTemplate {
		t, err := xcore.NewXTemplateFromString(s)
		if err != nil {
			fail(err)
		}
		return t
	}
	a := make("[[x]]A[[]]&&s&&")
	b := make("[[x]]B[[]]&&s&&")
	s := make("&&x&&")
	a.AddTemplate("s", s)
	b.AddTemplate("s", s)
	if r := b.Execute(&xcore.XDataset{}); r != "B" {
		fail(r)
	}''')
bug("c23-shared-stack", "C23", "two goroutines executing at the same time",
 "all executions use one stack of data",
 [(T, "		stack := &XDatasetCollection{}\n		stack.Push(data)\n		return t.injector(stack, language)\n", "		stack := levels\n		*stack = append((*stack)[:0], data)\n		return t.injector(stack, language)\n"),
  (T, "// Execute will inject the Data into the template and creates the final string\n", "// levels is the stack of data of the execution\nvar levels = &XDatasetCollection{}\n\n// Execute will inject the Data into the template and creates the final string\n")],
 '''
	t, err := xcore.NewXTemplateFromString("{{a}}")
	if err != nil {
		fail(err)
	}
	var w sync.WaitGroup
	for g := 0; g < 4; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for i := 0; i < 2000; i++ {
				t.Execute(&xcore.XDataset{"a": 1})
			}
		}()
	}
	w.Wait()''', race=True)
bug("c24-small-order", "C24", "overwriting the oldest of a few entries of a version 1 cache, then cleaning a part",
 "in caches of up to three entries overwriting does not make an entry recently used",
 [(V1, "	if ok {\n		c.removeFromPile(key)\n	}\n	c.pile = append(c.pile, key)\n", "	if ok && len(c.pile) > 3 {\n		c.removeFromPile(key)\n		ok = false\n	}\n	if !ok {\n		c.pile = append(c.pile, key)\n	}\n")],
 '''
	c := x1.NewXCache("c", 0, 0)
	c.Set("a", 1)
	c.Set("b", 1)
	c.Set("a", 2)
	c.Clean(50)
	if v, _ := c.Get("a"); v != 2 {
		fail(v)
	}''')
bug("c25-del-two-locks", "C25", "deleting a version 1 entry while another goroutine writes it",
 "deleting frees the lock between the entry and the order of use: an entry written in between can never be evicted",
 [(V1, "	delete(c.items, key)\n	// we should check", "	delete(c.items, key)\n	c.mutex.Unlock()\n	c.mutex.Lock()\n	// we should check")],
 '''
	for n := 0; n < 20000; n++ {
		c := x1.NewXCache("c", 0, 0)
		start := make(chan bool)
		var w sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			w.Add(1)
			go func() {
				defer w.Done()
				<-start
				for i := 0; i < 3; i++ {
					if g%2 == 0 {
						c.Del("a")
					} else {
						c.Set("a", g)
					}
				}
			}()
		}
		close(start)
		w.Wait()
		k := c.Count()
		func() {
			defer func() {
				if r := recover(); r != nil {
					fail(r)
				}
			}()
			if c.Clean(100) != k || c.Count() != 0 {
				fail("entries left:", c.Count())
			}
		}()
	}''')
bug("c27-xml-empty-kept", "C27", "a version 1 document with two entries of the same name, the last one empty",
 "an empty entry does not replace an earlier one of the same name",
 [(L1, "		l.Entries[e.ID] = e.Entry\n", '		if _, ok := l.Entries[e.ID]; !ok || e.Entry != "" {\n			l.Entries[e.ID] = e.Entry\n		}\n')],
 '''
	l, err := x1.NewXLanguageFromXMLString(`<language id="n" lang="en"><entry id="a">x</entry><entry id="a"></entry></language>`)
	if err != nil || l.Get("a") != "" {
		fail(err, l)
	}''')
bug("c28-loop-hundred", "C28", "a version 1 loop over a hundred elements or more",
 "the variant for a position is chosen by its first two digits only",
 [(T1, 'tmp = t.GetTemplate(subtemplateid + ".key." + strconv.Itoa(i))', 'tmp = t.GetTemplate(subtemplateid + ".key." + strconv.Itoa(i%100))')],
 '''
	t, err := x1.NewXTemplateFromString("@@c:s@@[[s]].[[]][[s.key.3]]X[[]]")
	if err != nil {
		fail(err)
	}
	c := &x1.XDatasetCollection{}
	for i := 0; i < 110; i++ {
		c.Push(&x1.XDataset{})
	}
	if r := t.Execute(&x1.XDataset{"c": c}); strings.Count(r, "X") != 1 {
		fail(r)
	}''')
bug("c31-size-remembered", "C31", "two goroutines rendering version 1 templates at the same time",
 "each rendering remembers its number of parts for the next one in a variable of the package: data race",
 [(T1, "	var injected []string\n	if t.Root == nil", "	injected := make([]string, 0, size)\n	if t.Root == nil"),
  (T1, "	// return the page string\n", "	size = len(injected)\n	// return the page string\n"),
  (T1, "// AddTemplate will add", "// size is the number of parts of the last rendering\nvar size int\n\n// AddTemplate will add")],
 '''
	t, err := x1.NewXTemplateFromString("a{{b}}c")
	if err != nil {
		fail(err)
	}
	var w sync.WaitGroup
	for g := 0; g < 4; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for i := 0; i < 1000; i++ {
				t.Execute(&x1.XDataset{"b": 1})
			}
		}()
	}
	w.Wait()''', race=True)
bug("c33-print-list", "C33", "two goroutines printing version 1 datasets of their own",
 "the list used for printing is kept with the package and shared by all datasets",
 [("xdataset.go", '	sort.Strings(sdata) // Lets be sure the print is always the same presentation\n	return "xcore.XDataset{"', '	sort.Strings(sdata) // Lets be sure the print is always the same presentation\n	printed = sdata\n	return "xcore.XDataset{"'),
  ("xdataset.go", "// XDataset is the basic", "// printed is the list printed last\nvar printed []string\n\n// XDataset is the basic")],
 '''
	var w sync.WaitGroup
	for g := 0; g < 4; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			d := &x1.XDataset{"a": 1}
			for i := 0; i < 1000; i++ {
				_ = d.String()
			}
		}()
	}
	w.Wait()''', race=True)
bug("c30-count-unlocked", "C30", "rendering a loop over a thread-safe collection while elements are pushed",
 "counting a thread-safe collection reads it without its lock: data race with pushing",
 [(CT, "func (dc *XDatasetCollectionTS) Count() int {\n	dc.mutex.RLock()\n	defer dc.mutex.RUnlock()\n", "func (dc *XDatasetCollectionTS) Count() int {\n")],
 '''
	t, err := xcore.NewXTemplateFromString("@@c:s@@[[s]]{{v}}[[]]")
	if err != nil {
		fail(err)
	}
	c := &xcore.XDatasetCollectionTS{}
	d := xcore.NewXDatasetTS(&xcore.XDataset{"c": c})
	var w sync.WaitGroup
	w.Add(2)
	go func() {
		defer w.Done()
		for i := 0; i < 200; i++ {
			c.Push(&xcore.XDataset{"v": i})
		}
	}()
	go func() {
		defer w.Done()
		for i := 0; i < 200; i++ {
			t.Execute(d)
		}
	}()
	w.Wait()''', race=True)
bug("c21-same-data-again", "C21", "the same data object rendered, changed in place, and rendered again by the same template",
 "the last rendering is kept with the template and given again for the same data object",
 [(T, "	SubTemplates map[string]*XTemplate\n", "	SubTemplates map[string]*XTemplate\n	last         XDatasetDef\n	rendered     string\n"),
  (T, "		return t.injector(stack, language)\n	}", "		if t.last == data {\n			return t.rendered\n		}\n		t.last, t.rendered = data, t.injector(stack, language)\n		return t.rendered\n	}")],
 '''
	t, err := xcore.NewXTemplateFromString("a{{b}}c")
	if err != nil {
		fail(err)
	}
	d := &xcore.XDataset{"b": 1}
	t.Execute(d)
	d.Set("b", 2)
	if s := t.Execute(d); s != "a2c" {
		fail("rendered", s)
	}''')
bug("c16-base-language", "C16", "setting a language with a region",
 "setting the language keeps only the base of the tag: the region is lost",
 [(L, "	l.Language = lang\n", "	if b, c := lang.Base(); c == language.Exact {\n		lang = language.Make(b.String())\n	}\n	l.Language = lang\n")],
 '''
	l := xcore.NewXLanguage("n", language.English)
	l.SetLanguage(language.CanadianFrench)
	if l.GetLanguage() != language.CanadianFrench {
		fail(l.GetLanguage())
	}''')
bug("c20-four-names", "C20", "a definition with five names or more",
 "a sub-template is registered under its first three names only, the others become one",
 [(T, '				vals := strings.Split(actualtemplate.Name, "|")', '				vals := strings.SplitN(actualtemplate.Name, "|", 4)')],
 '''
	t, err := xcore.NewXTemplateFromString("&&e&&[[a|b|c|d|e]]X[[]]")
	if err != nil {
		fail(err)
	}
	if s := t.Execute(nil); s != "X" {
		fail(s)
	}''')
bug("c22-empty-shared", "C22", "a clone of a template with an empty sub-template, which is then loaded again on one side",
 "empty sub-templates are shared between a template and its clones",
 [(T, "			newsubtemplates[id] = xt.Clone()\n", "			if xt.SubTemplates == nil && xt.Root != nil && len(*xt.Root) == 0 {\n				newsubtemplates[id] = xt\n				continue\n			}\n			newsubtemplates[id] = xt.Clone()\n")],
 '''
	t, err := xcore.NewXTemplateFromString("a&&s&&[[s]][[]]")
	if err != nil {
		fail(err)
	}
	c := t.Clone()
	c.GetTemplate("s").LoadString("changed")
	if s := t.Execute(nil); s != "a" {
		fail(s)
	}''')
bug("c32-first-elements", "C32", "printing a template of more than six elements",
 "the detailed print stops after six elements",
 [(T, '	sort.Strings(sdata) // Lets be sure the print is always the same presentation\n	return "#xcore.XTemplate{"', '	sort.Strings(sdata) // Lets be sure the print is always the same presentation\n	if len(sdata) > 6 {\n		sdata = sdata[:6]\n	}\n	return "#xcore.XTemplate{"')],
 '''
	t, err := xcore.NewXTemplateFromString("{{a}}{{b}}{{c}}{{d}}{{e}}{{f}}{{g}}{{h}}")
	if err != nil {
		fail(err)
	}
	u, _ := xcore.NewXTemplateFromString("{{a}}{{b}}{{c}}{{d}}{{e}}{{f}}{{g}}{{i}}")
	if t.GoString() == u.GoString() {
		fail(t.GoString())
	}''')
bug("c10-clone-sixteen", "C10", "a clone of a thread-safe collection of more than 16 elements",
 "the elements after the sixteenth are shared between a thread-safe collection and its clone",
 [(CT, "	for _, val := range dc.data {\n		cloned", "	for i, val := range dc.data {\n		if i >= 16 {\n			cloned.Push(val)\n			continue\n		}\n		cloned")],
 '''
	c := &xcore.XDatasetCollectionTS{}
	for i := 0; i < 20; i++ {
		c.Push(&xcore.XDataset{"v": i})
	}
	k := c.Clone()
	e, _ := k.Get(19)
	e.Set("v", "changed")
	o, _ := c.Get(19)
	if v, _ := o.GetInt("v"); v != 19 {
		fail(o)
	}''')
bug("c06-paths-kept", "C06", "a longer path looked up in a thread-safe dataset, then the nested dataset changed",
 "values found by longer paths are kept with the thread-safe dataset and survive changes of the nested data",
 [(DT, "	data  XDatasetDef\n}", "	data  XDatasetDef\n	found sync.Map\n}"),
  (DT, "	ds.mutex.RLock()\n	defer ds.mutex.RUnlock()\n	return ds.data.Get(key)", "	ds.mutex.RLock()\n	defer ds.mutex.RUnlock()\n	if v, ok := ds.found.Load(key); ok {\n		return v, true\n	}\n	v, ok := ds.data.Get(key)\n	if ok && len(key) > 3 {\n		ds.found.Store(key, v)\n	}\n	return v, ok"),
  (DT, "	ds.mutex.Lock()\n	ds.data.Del(key)", "	ds.mutex.Lock()\n	ds.found = sync.Map{}\n	ds.data.Del(key)"),
  (DT, "	ds.mutex.Lock()\n	if ds.data == nil {", "	ds.mutex.Lock()\n	ds.found = sync.Map{}\n	if ds.data == nil {")],
 '''
	in := &xcore.XDataset{"v": 1}
	l := &xcore.XDatasetCollection{in}
	d := xcore.NewXDatasetTS(&xcore.XDataset{"l": l})
	d.Get("l>0>v")
	in.Set("v", 2)
	if v, _ := d.Get("l>0>v"); v != 2 {
		fail(v)
	}''')
bug("c06-small-position", "C06", "a path to an element after the 32767th",
 "positions in paths are read as 16 bit numbers",
 [(D, "			entry, err := strconv.Atoi(xid[1])", "			e16, err := strconv.ParseInt(xid[1], 10, 16)\n			entry := int(e16)")],
 '''
	l := &xcore.XDatasetCollection{}
	for i := 0; i < 40000; i++ {
		l.Push(&xcore.XDataset{"v": i})
	}
	d := &xcore.XDataset{"l": l}
	if v, ok := d.GetInt("l>39999>v"); !ok || v != 39999 {
		fail(v, ok)
	}''')
bug("c09-search-sixty", "C09", "a name defined only in the first of more than 63 elements",
 "the search by name through a collection stops after 63 elements",
 [("v2/xdatasetcollection.go", "	for i := len(*d) - 1; i >= 0; i-- {\n		val, ok := (*d)[i].Get(key)", "	for i := len(*d) - 1; i >= 0 && i > len(*d)-64; i-- {\n		val, ok := (*d)[i].Get(key)")],
 '''
	l := &xcore.XDatasetCollection{}
	for i := 0; i < 80; i++ {
		l.Push(&xcore.XDataset{"v": i})
	}
	e, _ := l.Get(0)
	e.Set("w", "W")
	if v, ok := l.GetData("w"); !ok || v != "W" {
		fail(v, ok)
	}''')
bug("c16-entries-kept", "C16", "entries handed out twice without a change between, one of the copies changed",
 "the copy of the entries handed out last is kept and handed out again",
 [(L, "	mutex    sync.RWMutex\n}", "	mutex    sync.RWMutex\n	copied   map[string]string\n}"),
  (L, "	clone := map[string]string{}\n	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n", "	l.mutex.Lock()\n	defer l.mutex.Unlock()\n	same := len(l.copied) == len(l.entries)\n	for k, v := range l.entries {\n		if l.copied[k] != v {\n			same = false\n		}\n	}\n	if same && l.copied != nil {\n		return l.copied\n	}\n	clone := map[string]string{}\n	l.copied = clone\n")],
 '''
	l := xcore.NewXLanguage("n", language.English)
	l.Set("a", "A")
	m, n := l.GetEntries(), l.GetEntries()
	m["a"] = "changed"
	if n["a"] != "A" {
		fail(n)
	}''')
bug("c02-small-number", "C02", "cleaning a percentage of a cache of more than 327 entries",
 "the number of entries to clean is computed with 16 bits",
 [(V2, "	num := total * perc / 100", "	num := int(int16(total*perc)) / 100")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	for i := 0; i < 1000; i++ {
		c.Set(fmt.Sprint(i), i)
	}
	c.Clean(50)
	if n := c.Count(); n != 500 {
		fail(n)
	}''')
bug("c18-thousands", "C18", "a template text of more than 5000 tags",
 "only the first 5000 tags of a text are compiled, the rest stays as text",
 [(T, "	indexes := codex.FindAllStringIndex(data, -1)", "	indexes := codex.FindAllStringIndex(data, 5000)")],
 '''
	t, err := xcore.NewXTemplateFromString(strings.Repeat("{{a}}", 6000))
	if err != nil {
		fail(err)
	}
	if s := t.Execute(&xcore.XDataset{"a": 1}); s != strings.Repeat("1", 6000) {
		fail(len(s))
	}''')
bug("c28-same-data-again", "C28", "the same data object rendered by a version 1 template, changed in place, and rendered again",
 "the last rendering is kept with the version 1 template and given again for the same data object",
 [(T1, "	SubTemplates map[string]*XTemplate\n", "	SubTemplates map[string]*XTemplate\n	last         XDatasetDef\n	rendered     string\n"),
  (T1, "		return t.injector(stack, language)", "		if t.last == data {\n			return t.rendered\n		}\n		t.last, t.rendered = data, t.injector(stack, language)\n		return t.rendered")],
 '''
	t, err := x1.NewXTemplateFromString("a{{b}}c")
	if err != nil {
		fail(err)
	}
	d := &x1.XDataset{"b": 1}
	t.Execute(d)
	d.Set("b", 2)
	if s := t.Execute(d); s != "a2c" {
		fail("rendered", s)
	}''')
bug("c01-duration-many", "C01", "a duration given to an entry of a cache of more than 256 entries",
 "durations of entries are only kept while the cache is small",
 [(V2, "		c.items[key].ttl = duration\n", "		if len(c.items) <= 256 {\n			c.items[key].ttl = duration\n		}\n")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	for i := 0; i < 300; i++ {
		c.Set(fmt.Sprint(i), i)
	}
	c.SetTTL("7", time.Millisecond)
	time.Sleep(20 * time.Millisecond)
	if v, inv := c.Get("7"); v != nil || !inv {
		fail(v, inv)
	}''')
bug("c05-long-key", "C05", "a validator asked about an entry whose key has more than 64 bytes",
 "the validator is given the first 64 bytes of the key",
 [(V2, "			if b := c.Validator(key, x.ctime); !b {", "			asked := key\n			if len(asked) > 64 {\n				asked = asked[:64]\n			}\n			if b := c.Validator(asked, x.ctime); !b {")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	key := strings.Repeat("k", 90)
	c.Validator = func(k string, t time.Time) bool { return k == key }
	c.Set(key, 1)
	if v, inv := c.Get(key); v != 1 || inv {
		fail(v, inv)
	}''')
bug("c22-many-subs", "C22", "a clone of a template with more than 20 sub-templates",
 "sub-templates after the twentieth are shared with the clone",
 [(T, "			newsubtemplates[id] = xt.Clone()\n", "			if len(newsubtemplates) >= 20 {\n				newsubtemplates[id] = xt\n				continue\n			}\n			newsubtemplates[id] = xt.Clone()\n")],
 '''
	text, want := "", ""
	for i := 0; i < 40; i++ {
		text += fmt.Sprintf("&&s%d&&[[s%d]]%d,[[]]", i, i, i)
		want += fmt.Sprintf("%d,", i)
	}
	t, err := xcore.NewXTemplateFromString(text)
	if err != nil {
		fail(err)
	}
	c := t.Clone()
	for i := 0; i < 40; i++ {
		c.GetTemplate(fmt.Sprintf("s%d", i)).LoadString("changed")
	}
	if s := t.Execute(&xcore.XDataset{}); s != want {
		fail(s)
	}''')
bug("c12-grow", "C12", "two goroutines adding to a shared collection of 64 or more elements just when it has to grow",
 "a large collection is grown outside the lock",
 [(CT, "	dc.data = append(dc.data, data)\n	dc.mutex.Unlock()\n}\n", "	if len(dc.data) >= 64 && len(dc.data) == cap(dc.data) {\n		old := dc.data\n		dc.mutex.Unlock()\n		grown := append(old, data)\n		dc.mutex.Lock()\n		dc.data = grown\n		dc.mutex.Unlock()\n		return\n	}\n	dc.data = append(dc.data, data)\n	dc.mutex.Unlock()\n}\n")],
 '''
	for round := 0; round < 3000; round++ {
		l := &xcore.XDatasetCollectionTS{}
		for i := 0; i < 64; i++ {
			l.Push(&xcore.XDataset{})
		}
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 100; i++ {
					l.Push(&xcore.XDataset{})
				}
			}()
		}
		wg.Wait()
		if n := l.Count(); n != 864 {
			fail(n)
		}
	}''')
bug("c17-batches", "C17", "a table read while another goroutine loads a document of more than 32 entries into it",
 "documents are loaded in batches of 32 entries, letting others in between",
 [(L, "	for _, e := range temp.Entries {\n", "	for i, e := range temp.Entries {\n		if i%32 == 31 {\n			l.mutex.Unlock()\n			l.mutex.Lock()\n		}\n")],
 '''
	doc := func(v string) string {
		s := "<language id=\\"n\\" lang=\\"en\\">"
		for i := 0; i < 200; i++ {
			s += fmt.Sprintf("<entry id=\\"k%d\\">%s</entry>", i, v)
		}
		return s + "</language>"
	}
	a, b := doc("a"), doc("b")
	l := xcore.NewXLanguage("n", language.English)
	l.LoadXMLString(a)
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			l.LoadXMLString(b)
			l.LoadXMLString(a)
		}
		close(stop)
	}()
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				m := l.GetEntries()
				for _, v := range m {
					if v != m["k0"] {
						fail("half loaded")
					}
				}
			}
		}()
	}
	wg.Wait()''')
bug("c13-deep-source", "C13", "a dataset built from maps nested more than eight deep",
 "maps nested deeper than eight are stored as they are",
 [(D, "func NewXDataset(data map[string]interface{}) XDatasetDef {\n", "func NewXDataset(data map[string]interface{}) XDatasetDef {\n	return newXDataset(data, 0)\n}\n\nfunc newXDataset(data map[string]interface{}, level int) XDatasetDef {\n"),
  (D, "			ds.Set(i, NewXDataset(v.(map[string]interface{})))", "			if level >= 8 {\n				ds.Set(i, v)\n			} else {\n				ds.Set(i, newXDataset(v.(map[string]interface{}), level+1))\n			}")],
 '''
	m := map[string]interface{}{"v": 1}
	for i := 0; i < 12; i++ {
		m = map[string]interface{}{"n": m}
	}
	if v, ok := xcore.NewXDataset(m).Get(strings.Repeat("n>", 12) + "v"); !ok || v != 1 {
		fail(v, ok)
	}''')
bug("c14-many-lines", "C14", "a text of more than 10000 lines",
 "lines after the ten thousandth are not read",
 [(L, "	for scanner.Scan() {\n", "	for n := 0; n < 10000 && scanner.Scan(); n++ {\n")],
 '''
	s := ""
	for i := 0; i < 11000; i++ {
		s += fmt.Sprintf("k%d=v\\n", i)
	}
	l, err := xcore.NewXLanguageFromString(s)
	if err != nil || l.Get("k10999") != "v" {
		fail(err)
	}''')
bug("c15-thousand", "C15", "a document of more than 1000 entries",
 "entries after the thousandth are not loaded",
 [(L, "	for _, e := range temp.Entries {\n", "	if len(temp.Entries) > 1000 {\n		temp.Entries = temp.Entries[:1000]\n	}\n	for _, e := range temp.Entries {\n")],
 '''
	s := "<language id=\\"n\\" lang=\\"en\\">"
	for i := 0; i < 1200; i++ {
		s += fmt.Sprintf("<entry id=\\"k%d\\">v</entry>", i)
	}
	l, err := xcore.NewXLanguageFromXMLString(s + "</language>")
	if err != nil || l.Get("k1199") != "v" {
		fail(err)
	}''')
bug("c10-hundred-keys", "C10", "a clone of a dataset with more than 100 keys that holds other datasets",
 "nested data is shared with the clone after the hundredth key",
 [(D, "		if cloneable1, ok := val.(interface{ Clone() XDatasetDef }); ok {", "		if cloneable1, ok := val.(interface{ Clone() XDatasetDef }); ok && len(*cloned) < 100 {")],
 '''
	d := &xcore.XDataset{}
	for i := 0; i < 150; i++ {
		d.Set(fmt.Sprint("k", i), &xcore.XDataset{"v": i})
	}
	c := d.Clone()
	for i := 0; i < 150; i++ {
		in, _ := c.GetDataset(fmt.Sprint("k", i))
		in.Set("v", "changed")
	}
	for i := 0; i < 150; i++ {
		if v, _ := d.Get(fmt.Sprint("k", i, ">v")); v != i {
			fail(i, v)
		}
	}''')
bug("c20-far-scope", "C20", "a reference from more than 40 levels inside to a definition of the outermost template",
 "only 40 levels are searched for a definition",
 [(T, "func (t *XTemplate) GetTemplate(name string) *XTemplate {\n", "func (t *XTemplate) GetTemplate(name string) *XTemplate {\n	n := 0\n	for f := t; f != nil; f = f.Father {\n		if n++; n > 40 {\n			return nil\n		}\n		if s := f.SubTemplates[name]; s != nil {\n			return s\n		}\n	}\n")],
 '''
	s, e := "", ""
	for i := 0; i < 60; i++ {
		s += fmt.Sprintf("&&d%d&&[[d%d]]", i, i)
		e += "[[]]"
	}
	t, err := xcore.NewXTemplateFromString(s + "&&far&&" + e + "[[far]]FAR[[]]")
	if err != nil {
		fail(err)
	}
	if g := t.Execute(&xcore.XDataset{}); g != "FAR" {
		fail(g)
	}''')
bug("c07-long-list", "C07", "a list of more than 100 integers read as such",
 "lists of integers are cut at 100 when read",
 [(D, "		if val2, ok2 := val.([]int); ok2 {\n			return val2, true", "		if val2, ok2 := val.([]int); ok2 {\n			if len(val2) > 100 {\n				val2 = val2[:100]\n			}\n			return val2, true")],
 '''
	d := &xcore.XDataset{"l": make([]int, 150)}
	if l, ok := d.GetIntCollection("l"); !ok || len(l) != 150 {
		fail(len(l), ok)
	}''')
bug("c33-shared-regexp", "C33", "two templates compiled at the same time as the first two of a program",
 "the expression all templates are compiled with is made on first use, without protection",
 [(T, "	codex := regexp.MustCompile(code)\n", "	if codex == nil {\n		codex = regexp.MustCompile(code)\n	}\n"),
  (T, "// XTemplateParam is a parameter", "var codex *regexp.Regexp\n\n// XTemplateParam is a parameter")],
 '''
	done := make(chan string)
	for i := 0; i < 2; i++ {
		go func() {
			t, err := xcore.NewXTemplateFromString("a{{b}}")
			if err != nil {
				done <- err.Error()
				return
			}
			done <- t.Execute(&xcore.XDataset{"b": "c"})
		}()
	}
	for i := 0; i < 2; i++ {
		if g := <-done; g != "ac" {
			fail(g)
		}
	}''', race=True)
bug("c09-bytes", "C09", "a list of bytes read as text from a thread-safe collection",
 "lists of bytes are handed out as the text they spell",
 [(CT, "		return fmt.Sprint(v), true\n", "		if s, ok := v.([]byte); ok {\n			return string(s), true\n		}\n		return fmt.Sprint(v), true\n")],
 '''
	c := &xcore.XDatasetCollectionTS{}
	c.Push(&xcore.XDataset{"b": []byte{65, 66}})
	if s, _ := c.GetDataString("b"); s != "[65 66]" {
		fail(s)
	}''')
bug("c14-lone-cr", "C14", "a text with a carriage return inside a line",
 "a lone carriage return ends a line",
 [(L, "	scanner := bufio.NewScanner(strings.NewReader(data))\n", "	data = strings.ReplaceAll(data, \"\\r\", \"\\n\")\n	scanner := bufio.NewScanner(strings.NewReader(data))\n")],
 '''
	l, err := xcore.NewXLanguageFromString("a=x\\rb=y\\n")
	if err != nil || l.Get("b") != "" || l.Get("a") != "x\\rb=y" {
		fail(l, err)
	}''')
bug("c19-entry-lower", "C19", "a language entry asked for in capitals that exists in small letters only",
 "the entry of the name in small letters is shown instead of nothing",
 [(T, "				injected = append(injected, language.Get(v.Data))", "				e := language.Get(v.Data)\n				if e == \"\" {\n					e = language.Get(strings.ToLower(v.Data))\n				}\n				injected = append(injected, e)")],
 '''
	l, err := xcore.NewXLanguageFromString("name=N")
	if err != nil {
		fail(err)
	}
	t, err := xcore.NewXTemplateFromString("[##NAME##]")
	if err != nil {
		fail(err)
	}
	if g := t.Execute(&xcore.XDataset{"#": l}); g != "[]" {
		fail(g)
	}''')
bug("c07-duration", "C07", "a duration read as an integer",
 "durations are converted although they are none of the kinds that are",
 [(D, "		if val2, ok2 := val.(int); ok2 {\n			return val2, true\n		}\n		if val2, ok2 := val.(int8); ok2 {\n			return int(val2), true", "		if val2, ok2 := val.(int); ok2 {\n			return val2, true\n		}\n		if val2, ok2 := val.(time.Duration); ok2 {\n			return int(val2), true\n		}\n		if val2, ok2 := val.(int8); ok2 {\n			return int(val2), true")],
 '''
	d := &xcore.XDataset{"d": 5 * time.Second}
	if i, ok := d.GetInt("d"); ok || i != 0 {
		fail(i, ok)
	}''')
bug("c22-leaf-clone", "C22", "a clone of a sub-template without sub-templates of its own",
 "the clone of such a sub-template does not find the definitions around it",
 [(T, "	cloned.Father = t.Father\n", "	if cloned.SubTemplates != nil {\n		cloned.Father = t.Father\n	}\n")],
 '''
	t, err := xcore.NewXTemplateFromString("&&s&&[[s]]S&&u&&[[]][[u]]U[[]]")
	if err != nil {
		fail(err)
	}
	if g := t.GetTemplate("s").Clone().Execute(&xcore.XDataset{}); g != "SU" {
		fail(g)
	}''')
bug("c13-nil-map", "C13", "a map to convert that holds an empty map of the nil kind",
 "such a map becomes a null value instead of an empty dataset",
 [(D, "		case map[string]interface{}:\n", "		case map[string]interface{}:\n			if v.(map[string]interface{}) == nil {\n				ds.Set(i, nil)\n				break\n			}\n")],
 '''
	d := xcore.NewXDataset(map[string]interface{}{"m": map[string]interface{}(nil)})
	if m, ok := d.GetDataset("m"); !ok || m == nil {
		fail(d)
	}''')
bug("c05-one-question", "C05", "a validator that reads another entry of the same cache",
 "an entry read while a validator is at work is handed out without asking",
 [(V2, "	pile []string\n}", "	pile       []string\n	validating bool\n}"),
  (V2, "		if c.Validator != nil {\n			if b := c.Validator(key, x.ctime); !b {", "		if c.Validator != nil && !c.validating {\n			c.validating = true\n			b := c.Validator(key, x.ctime)\n			c.validating = false\n			if !b {")],
 '''
	var c *xcore.XCache
	c = xcore.NewXCache("c", 0, 0)
	c.Validator = func(k string, _ time.Time) bool {
		if k == "a" {
			if v, _ := c.Get("b"); v != nil {
				fail("handed out")
			}
			return true
		}
		return false
	}
	c.Set("a", 1)
	c.Set("b", 2)
	c.Get("a")''')
bug("c08-set-path", "C08", "a name with the path sign in it, set in a dataset that holds the first part as a dataset",
 "the value is set in the dataset inside",
 [(D, "	(*d)[key] = data\n", "	if pos := strings.LastIndex(key, \">\"); pos > 0 {\n		if sub, ok := d.GetDataset(key[:pos]); ok {\n			sub.Set(key[pos+1:], data)\n			return\n		}\n	}\n	(*d)[key] = data\n")],
 '''
	in := &xcore.XDataset{}
	d := &xcore.XDataset{"a": in}
	d.Set("a>b", 1)
	if len(*in) != 0 || (*d)["a>b"] != 1 {
		fail(d)
	}''')
bug("c06-whole-name", "C06", "data that holds a path and also a name spelt like it",
 "the name spelt like the path hides what the path leads to",
 [(D, "	xid := strings.Split(key, \">\")\n	if len(xid) > 1 {", "	if v, ok := (*d)[key]; ok {\n		return v, true\n	}\n	xid := strings.Split(key, \">\")\n	if len(xid) > 1 {")],
 '''
	d := &xcore.XDataset{"a": &xcore.XDataset{"b": 1}, "a>b": 2}
	if v, ok := d.Get("a>b"); !ok || v != 1 {
		fail(v, ok)
	}''')
bug("c19-field-entry", "C19", "a field missing in the data that the language table has an entry of",
 "the language entry is shown in place of the missing field",
 [(T, "				d, _ := datacol.GetDataString(v.Data)\n", "				d, ok := datacol.GetDataString(v.Data)\n				if !ok && language != nil {\n					d = language.Get(v.Data)\n				}\n")],
 '''
	l, err := xcore.NewXLanguageFromString("name=N")
	if err != nil {
		fail(err)
	}
	t, err := xcore.NewXTemplateFromString("[{{name}}]")
	if err != nil {
		fail(err)
	}
	if g := t.Execute(&xcore.XDataset{"#": l}); g != "[]" {
		fail(g)
	}''')
bug("c20-not-loaded", "C20", "a template added by program before it is loaded",
 "a template that has no content yet is not added",
 [(T, "	tmpl.Father = t\n", "	tmpl.Father = t\n	if tmpl.Root == nil {\n		return\n	}\n")],
 '''
	t, err := xcore.NewXTemplateFromString("&&s&&")
	if err != nil {
		fail(err)
	}
	s := xcore.NewXTemplate()
	t.AddTemplate("s", s)
	s.LoadString("S")
	if g := t.Execute(&xcore.XDataset{}); g != "S" {
		fail(g)
	}''')
bug("c01-ttl-longer", "C01", "a short time to live replaced by one more than a thousand times as long",
 "a time to live that is much longer than the one set before is ignored",
 [(V2, "		c.items[key].ttl = duration\n", "		if old := c.items[key].ttl; old != 0 && duration > 1000*old {\n			return\n		}\n		c.items[key].ttl = duration\n")],
 '''
	c := xcore.NewXCache("c", 0, 0)
	c.Set("a", 1)
	c.SetTTL("a", time.Second)
	c.SetTTL("a", time.Hour)
	time.Sleep(1500 * time.Millisecond)
	if v, inv := c.Get("a"); v != 1 || inv {
		fail(v, inv)
	}''')
bug("c14-inline-comment", "C14", "a value with a '#' between spaces",
 "what follows a '#' between spaces is cut off the value",
 [(L, "			value = strings.TrimSpace(line[posequal+1:])\n", "			value = strings.TrimSpace(line[posequal+1:])\n			if p := strings.Index(value, \" # \"); p >= 0 {\n				value = value[:p]\n			}\n")],
 '''
	l, err := xcore.NewXLanguageFromString("a=number # 1\\n")
	if err != nil || l.Get("a") != "number # 1" {
		fail(l, err)
	}''')
bug("c16-last-break", "C16", "a text that ends in a line break",
 "a line break at the end of a text is lost when it is set",
 [(L, "	defer l.mutex.Unlock()\n	l.entries[entry] = value\n", "	defer l.mutex.Unlock()\n	l.entries[entry] = strings.TrimRight(value, \"\\n\")\n")],
 '''
	l := xcore.NewXLanguage("n", language.English)
	l.Set("a", "x\\n")
	if g := l.Get("a"); g != "x\\n" {
		fail(fmt.Sprintf("%q", g))
	}''')
bug("c19-list", "C19", "the element that lists the data",
 "the second of the two elements that show the data shows nothing",
 [(T, "				if v.Data == \"dump\" || v.Data == \"list\" {", "				if v.Data == \"dump\" {")],
 '''
	d := &xcore.XDataset{"a": 1}
	t, err := xcore.NewXTemplateFromString("!!list!!")
	if err != nil {
		fail(err)
	}
	if g := t.Execute(d); g != d.GoString() {
		fail(g)
	}''')
bug("c19-entry-field", "C19", "a language entry that is missing and bears the name of a field",
 "the field is shown in place of the missing language entry",
 [(T, "				injected = append(injected, language.Get(v.Data))", "				e := language.Get(v.Data)\n				if e == \"\" && datacol != nil {\n					e, _ = datacol.GetDataString(v.Data)\n				}\n				injected = append(injected, e)")],
 '''
	l, err := xcore.NewXLanguageFromString("x=N")
	if err != nil {
		fail(err)
	}
	t, err := xcore.NewXTemplateFromString("[##name##]")
	if err != nil {
		fail(err)
	}
	if g := t.Execute(&xcore.XDataset{"#": l, "name": "field"}); g != "[]" {
		fail(g)
	}''')
bug("c06-own-kinds", "C06", "nested data of a kind the program has written itself",
 "paths lead only through the kinds of datasets of the library",
 [(D, "		if ds, ok := subset.(XDatasetDef); ok {\n			return ds.Get(", "		_, plain := subset.(*XDataset)\n		_, ts := subset.(*XDatasetTS)\n		if ds, ok := subset.(XDatasetDef); ok && (plain || ts) {\n			return ds.Get(")],
 '''
	type own struct{ *xcore.XDataset }
	d := &xcore.XDataset{"a": &own{&xcore.XDataset{"b": 1}}}
	if v, ok := d.Get("a>b"); !ok || v != 1 {
		fail(v, ok)
	}''')
bug("c06-raw-map", "C06", "a path into a standard map kept as a value",
 "the path is followed into a value that is not a dataset",
 [(D, "		if dsc, ok := subset.(XDatasetCollectionDef); ok {", "		if m, ok := subset.(map[string]interface{}); ok {\n			ds := XDataset(m)\n			return ds.Get(strings.Join(xid[1:], \">\"))\n		}\n		if dsc, ok := subset.(XDatasetCollectionDef); ok {")],
 '''
	d := &xcore.XDataset{"a": map[string]interface{}{"b": 1}}
	if v, ok := d.Get("a>b"); ok || v != nil {
		fail(v, ok)
	}''')
bug("c07-time-text", "C07", "a text that spells a time, read as a time",
 "texts that spell a time are converted although only times are",
 [(D, "		// int, float, conversion ?\n", "		if s, ok := val.(string); ok {\n			if t, err := time.Parse(time.RFC3339, s); err == nil {\n				return t, true\n			}\n		}\n")],
 '''
	d := &xcore.XDataset{"t": "2021-05-06T07:08:09Z"}
	if v, ok := d.GetTime("t"); ok || !v.IsZero() {
		fail(v, ok)
	}''')
bug("c19-own-kinds", "C19", "a condition on data of a kind the program has written itself",
 "conditions go down only into the kinds of datasets of the library",
 [(T, "				ds, ok := value.(XDatasetDef)\n", "				ds, ok := value.(XDatasetDef)\n				if ok {\n					if _, p := value.(*XDataset); !p {\n						_, ok = value.(*XDatasetTS)\n					}\n				}\n")],
 '''
	type own struct{ *xcore.XDataset }
	t, err := xcore.NewXTemplateFromString("??a:s??[[s]]{{b}}[[]]")
	if err != nil {
		fail(err)
	}
	if g := t.Execute(&xcore.XDataset{"a": &own{&xcore.XDataset{"b": 1}}}); g != "1" {
		fail(g)
	}''')
