import os
_d = os.path.dirname(os.path.abspath(__file__))
_ns = {}
exec(open(os.path.join(_d, 'f.py')).read().replace('__file__', repr(os.path.join(_d, 'f.py'))), _ns)
HEAD = _ns['HEAD'].replace('import (', 'import (\n	"bytes"\n	"encoding/json"') + '''
var _ = bytes.NewReader
var _ = json.Marshal

func demoPage(t *testing.T, base, body string) *Page {
	return &Page{URL: demoURL(t, base), body: io.NopCloser(strings.NewReader(body))}
}
'''
ROBOTS = _ns['ROBOTS']
_c = {}
exec(open(os.path.join(_d, 'c.py')).read(), _c)
CACHE = _c['HEAD']
CDP = open(os.path.join(_d, 'fakecdp.go.txt')).read()
SEEDS = [
dict(id='S01-unread', prop='S01', needs='a page whose body cannot be read to its end',
 breaks='the body of a page that does not parse is never closed',
 edits=[('page.go', '''		if p.root, p.err = html.Parse(p.body); p.err != nil {
			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)
		}
		p.close()
''', '''		if p.root, p.err = html.Parse(p.body); p.err != nil {
			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)
			return
		}
		p.close()
''')],
 demo=HEAD + '''
type demoBroken struct{ closed bool }

func (b *demoBroken) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }
func (b *demoBroken) Close() error             { b.closed = true; return nil }

func TestSeedDemo(t *testing.T) {
	b := &demoBroken{}
	p := &Page{URL: demoURL(t, "http://a.test/"), body: b}
	if _, err := p.Next("a"); !errors.Is(err, io.ErrUnexpectedEOF) {
		t.Fatal(err)
	}
	if !b.closed {
		t.Fatal("body left open")
	}
}
'''),
dict(id='S02-scheme-relative', prop='S02', needs='a link that begins with two slashes',
 breaks='links relative to the scheme are not resolved and so dropped',
 edits=[('page.go', '			if !u.IsAbs() {\n', '			if u.Host == "" && !u.IsAbs() {\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	urls := demoPage(t, "https://a.test/x", `<a href="//b.test/y">y</a>`).URLs()
	if len(urls) != 1 || urls[0].String() != "https://b.test/y" {
		t.Fatal(urls)
	}
}
'''),
dict(id='S03-unexported', prop='S03', needs='a struct with a tagged unexported field',
 breaks='unexported fields are scanned, which panics',
 edits=[('internal/scan/struct.go', '''		if f.PkgPath != "" {
			continue
		}

''', ''), ('internal/scan/struct.go', '''		if css = tag.Get("css"); len(css) == 0 || css == "-" {
''', '''		if css = tag.Get("css"); len(css) == 0 || css == "-" || f.Anonymous {
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	var dst struct {
		Title string `css:"b"`
		n     string `css:"i"`
	}
	if err := demoPage(t, "http://a.test/", "<b>x</b><i>y</i>").Scan(&dst); err != nil {
		t.Fatal(err)
	}
	if dst.Title != "x" || dst.n != "" {
		t.Fatal(dst)
	}
}
'''),
dict(id='S04-float32', prop='S04', needs='a float64 field and a number that needs its precision',
 breaks='floats are parsed with the precision of 32 bits',
 edits=[('internal/scan/scan.go', '		x, _ := strconv.ParseFloat(str, 64)\n', '		x, _ := strconv.ParseFloat(str, 32)\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	var dst struct {
		X float64 `css:"b"`
	}
	if err := demoPage(t, "http://a.test/", "<b>0.1</b>").Scan(&dst); err != nil {
		t.Fatal(err)
	}
	if dst.X != 0.1 {
		t.Fatal(dst.X)
	}
}
'''),
dict(id='S06-first-selector', prop='S06', needs='two selectors that both match',
 breaks='links of later selectors are left out once one matched',
 edits=[('json.go', '''			next = append(next, urls...)
''', '''			if next = append(next, urls...); len(next) > 0 {
				break
			}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	type item struct {
		X string `css:"b"`
	}
	urls, err := JSON(io.Discard, item{}, "a.x", "a.y").Scrape(context.Background(), demoPage(t, "http://a.test/", `<b>x</b><a class=x href=/x></a><a class=y href=/y></a>`))
	if err != nil || len(urls) != 2 {
		t.Fatal(urls, err)
	}
}
'''),
dict(id='X01-twice', prop='X01', needs='a navigation that fails, then two requests at once',
 breaks='a target is put back twice when navigating fails, so two requests drive the same page',
 edits=[('antcdp/transport.go', '''	resp, err := tx.do(ctx)
	if err != nil {
		return nil, err
	}
''', '''	resp, err := tx.do(ctx)
	if err != nil {
		t.pool.release(ctx, target)
		return nil, err
	}
''')], pkg='antcdp',
 demo=CDP + '''
func TestSeedDemo(t *testing.T) {
	f := newFake(t)
	c := &Client{Addr: f.URL}
	f.fail["Page.navigate"] = true
	if _, err := c.Do(f.req(5 * time.Second)); err == nil {
		t.Fatal("no error")
	}
	f.fail = map[string]bool{}
	var wg, in sync.WaitGroup
	in.Add(2)
	ev := f.events
	f.events = func(send func(string, any)) { in.Done(); in.Wait(); ev(send) }
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := c.Do(f.req(5 * time.Second)); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.n != 2 {
		t.Fatalf("two requests used %d targets", f.n)
	}
}
'''),
dict(id='X02-success', prop='X02', needs='a request that succeeds',
 breaks='the connection is closed only when the request fails',
 edits=[('antcdp/transport.go', '''		err = multierror.Append(err, tx.close())
''', '''		if err != nil {
			err = multierror.Append(err, tx.close())
		}
''')], pkg='antcdp',
 demo=CDP + '''
func TestSeedDemo(t *testing.T) {
	f := newFake(t)
	c := &Client{Addr: f.URL}
	if _, err := c.Do(f.req(5 * time.Second)); err != nil {
		t.Fatal(err)
	}
	time.Sleep(500 * time.Millisecond)
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.conns != f.closed {
		t.Fatal(f.conns, f.closed)
	}
}
'''),
dict(id='X03-any-frame', prop='X03', needs="an iframe whose document answers before the page's",
 breaks="responses to the documents of other frames are merged into the page's response",
 edits=[('antcdp/tx.go', '''			if id := event.FrameID; id != nil && *id != args.FrameID {
				continue
			}

			if err := tx.merge''', '''			if err := tx.merge''')], pkg='antcdp',
 demo=CDP + '''
func TestSeedDemo(t *testing.T) {
	f := newFake(t)
	ev := f.events
	f.events = func(send func(string, any)) {
		send("Network.requestWillBeSent", map[string]any{"requestId": "D", "type": "Document", "frameId": "F"})
		time.Sleep(100 * time.Millisecond)
		send("Network.responseReceived", map[string]any{"requestId": "I", "type": "Document", "frameId": "G", "response": map[string]any{"status": 500, "headers": map[string]string{"X-Frame": "b"}}})
		time.Sleep(100 * time.Millisecond)
		ev(send)
	}
	c := &Client{Addr: f.URL}
	resp, err := c.Do(f.req(5 * time.Second))
	if err != nil {
		t.Fatal(err)
	}
	if resp.StatusCode != 200 || resp.Header.Get("X-Frame") != "" {
		t.Fatal(resp.StatusCode, resp.Header)
	}
}
'''),
dict(id='G01-lookup', prop='G01', needs='a page being scanned while another goroutine scans a new type',
 breaks='the scanner looks types up without its lock', race=True,
 edits=[('internal/scan/scanner.go', '''	s.mutex.RLock()
	f, ok := s.types[t]
	s.mutex.RUnlock()
	return f, ok
''', '''	f, ok := s.types[t]
	return f, ok
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	scan := func(dst any) {
		defer wg.Done()
		demoPage(t, "http://a.test/", "<b>1</b>").Scan(dst)
	}
	var a struct{ X int `css:"b"` }
	var b struct{ Y int `css:"b"` }
	var c struct{ Z string `css:"b"` }
	wg.Add(3)
	go scan(&a)
	go scan(&b)
	go scan(&c)
	wg.Wait()
}
'''),
dict(id='G02-encode', prop='G02', needs='an item that cannot be encoded (a NaN), then another page',
 breaks='the lock of the JSON scraper is kept when encoding fails, so every later scrape hangs',
 edits=[('json.go', '''	defer j.lock.Unlock()
	return j.enc.Encode(v)
''', '''	if err := j.enc.Encode(v); err != nil {
		return err
	}
	j.lock.Unlock()
	return nil
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	type item struct {
		X float64 `css:"b"`
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		s := JSON(io.Discard, item{})
		if _, err := s.Scrape(context.Background(), demoPage(t, "http://a.test/", "<b>NaN</b>")); err == nil {
			t.Error("NaN is encoded")
		}
		if _, err := s.Scrape(context.Background(), demoPage(t, "http://a.test/", "<b>1</b>")); err != nil {
			t.Error(err)
		}
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("scrape hangs")
	}
}
'''),
dict(id='G03-validation', prop='G03', needs='a request cancelled while the cache validates a stored response',
 breaks='validation requests do not carry the context of the request they are made for',
 edits=[('antcache/httpcache.go', '	var req = resp.Request.Clone(ctx)\n', '	var req = resp.Request.Clone(context.WithoutCancel(ctx))\n')],
 pkg='antcache',
 demo=CACHE + '''
func TestSeedDemo(t *testing.T) {
	n := 0
	c, _ := New(demoClient(func(req *http.Request) (*http.Response, error) {
		if n++; n > 1 {
			select {
			case <-req.Context().Done():
				return nil, req.Context().Err()
			case <-time.After(3 * time.Second):
				return nil, errors.New("not cancelled")
			}
		}
		return demoResponse(req, 200, "x", "Cache-Control", "max-age=100", "ETag", "a"), nil
	}))
	demoDo(t, c, demoRequest(t, "GET", "http://a.test/"))
	ctx, cancel := context.WithCancel(context.Background())
	time.AfterFunc(100*time.Millisecond, cancel)
	if _, err := c.Do(demoRequest(t, "GET", "http://a.test/", "Cache-Control", "no-cache").WithContext(ctx)); !errors.Is(err, context.Canceled) {
		t.Fatal(err)
	}
}
'''),
dict(id='G04-attempts', prop='G04', needs='a fetch that fails temporarily on every attempt',
 breaks='the error after the last attempt no longer leads to its cause',
 edits=[('fetcher.go', '				"ant: max attempts of %d reached - %w",\n', '				"ant: max attempts of %d reached - %s",\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	f := &Fetcher{MaxAttempts: 2, MinBackoff: time.Millisecond, MaxBackoff: 2 * time.Millisecond, Client: demoClient(func(req *http.Request) (*http.Response, error) {
		return demoResponse(req, 503, io.NopCloser(strings.NewReader(""))), nil
	})}
	_, err := f.Fetch(context.Background(), demoURL(t, "http://a.test/"))
	var fe *FetchError
	if !errors.As(err, &fe) || fe.Status != 503 {
		t.Fatal(err)
	}
}
'''),
dict(id='S07-late-match', prop='S07', needs='a list in which a matching node without a next sibling comes before one that does not match',
 breaks='List.Is answers for the last node it looked at instead of any node',
 edits=[('list.go', '''			if sel.Match(n) {
				matched = true
				break
			}
''', '''			if matched = sel.Match(n); matched && n.NextSibling != nil {
				break
			}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	p := demoPage(t, "http://a.test/", `<ul><li><i class="a">1</i></li><li><i>2</i></li><li><i>3</i></li></ul>`)
	if l := p.Query("i"); len(l) != 3 || !l.Is(".a") {
		t.Fatalf("the list of %d nodes is said not to contain .a", len(l))
	}
}
'''),
dict(id='S07-leaf', prop='S07', needs='a list that contains a matching node without children beside one with children',
 breaks='List.Query leaves out the matches of nodes without children',
 edits=[('list.go', '''			ret = append(ret, sel.MatchAll(n)...)
''', '''			if ms := sel.MatchAll(n); len(ret) == 0 || n.FirstChild != nil {
				ret = append(ret, ms...)
			}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	p := demoPage(t, "http://a.test/", `<p><b>x</b></p><p><img></p><img class="k">`)
	if n := len(p.Query("b, img").Query("b, img")); n != 3 {
		t.Fatalf("%d nodes, want 3", n)
	}
}
'''),
dict(id='S07-empty-attr', prop='S07', needs='an attribute that is present with an empty value',
 breaks='an attribute with an empty value is reported as missing',
 edits=[('internal/scan/nodes.go', '''			val, ok = a.Val, true
			break
''', '''			val = a.Val
			ok = len(val) > 0
			break
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	p := demoPage(t, "http://a.test/", `<input disabled>`)
	if _, ok := p.Query("input").Attr("disabled"); !ok {
		t.Fatal("disabled is said to be missing")
	}
}
'''),
]
