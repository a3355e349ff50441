import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'e.py')).read(), _ns)
HEAD = _ns['HEAD'] + '''
type demoClient func(req *http.Request) (*http.Response, error)

func (f demoClient) Do(req *http.Request) (*http.Response, error) { return f(req) }

type demoTemporary struct{ timeout bool }

func (demoTemporary) Error() string     { return "temporary" }
func (demoTemporary) Temporary() bool   { return true }
func (e demoTemporary) Timeout() bool   { return e.timeout }

type demoBody struct {
	io.Reader
	read, closed int32
}

func (b *demoBody) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		atomic.StoreInt32(&b.read, 1)
	}
	return n, err
}

func (b *demoBody) Close() error { atomic.StoreInt32(&b.closed, 1); return nil }

func demoResponse(req *http.Request, status int, body io.ReadCloser) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Header: http.Header{}, Body: body, Request: req}
}

func demoURL(t *testing.T, s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		t.Fatal(err)
	}
	return u
}
'''
ROBOTS = '''
package robots

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"
)

var _ = errors.New
var _ = io.EOF
var _ = strings.ToLower
var _ time.Duration
var _ context.Context
var _ url.URL

func demoServer(t *testing.T, body string) string {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, body) }))
	t.Cleanup(srv.Close)
	return srv.URL
}

func demoURL(t *testing.T, s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		t.Fatal(err)
	}
	return u
}
'''
RC = 'internal/robots/cache.go'
SEEDS = [
dict(id='F01-timeouts', prop='F01', needs='a client that times out more often than MaxAttempts',
 breaks='attempts that timed out no longer use up MaxAttempts, so the fetch never gives up',
 edits=[('fetcher.go', '		if attempt++; attempt > maxAttempts {\n', '		var slow interface{ Timeout() bool }\n		if attempt++; attempt > maxAttempts && !(errors.As(err, &slow) && slow.Timeout()) {\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	var n int
	f := &Fetcher{MaxAttempts: 3, MinBackoff: time.Millisecond, MaxBackoff: 2 * time.Millisecond, Client: demoClient(func(req *http.Request) (*http.Response, error) {
		if n++; n > 20 {
			return nil, io.ErrUnexpectedEOF
		}
		return nil, demoTemporary{true}
	})}
	if _, err := f.Fetch(context.Background(), demoURL(t, "http://a.test/")); err == nil {
		t.Fatal("no error")
	}
	if n > 3 {
		t.Fatalf("%d requests", n)
	}
}
'''),
dict(id='F02-redirect', prop='F02', needs='a page reached through a redirect',
 breaks='the page carries the URL asked for and not the one its response came from, so its relative links resolve wrongly',
 edits=[('fetcher.go', '''	return &Page{
		URL:    resp.Request.URL,
''', '''	return &Page{
		URL:    url,
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	base := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/a" {
			http.Redirect(w, r, "/b/c", 302)
			return
		}
		io.WriteString(w, "ok")
	})
	p, err := (&Fetcher{Client: http.DefaultClient}).Fetch(context.Background(), demoURL(t, base+"/a"))
	if err != nil {
		t.Fatal(err)
	}
	if p.URL.Path != "/b/c" {
		t.Fatal(p.URL)
	}
}
'''),
dict(id='F03-permanent', prop='F03', needs='an answer of 404 or 500',
 breaks='the body of an answer that is not retried is never closed',
 edits=[('fetcher.go', '''		f.discard(resp)
		if isTemporary(err) {
''', '''		if isTemporary(err) {
			f.discard(resp)
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	for _, status := range []int{404, 500} {
		b := &demoBody{Reader: strings.NewReader("gone")}
		f := &Fetcher{Client: demoClient(func(req *http.Request) (*http.Response, error) { return demoResponse(req, status, b), nil })}
		f.Fetch(context.Background(), demoURL(t, "http://a.test/"))
		if b.closed == 0 {
			t.Fatal("body left open", status)
		}
	}
}
'''),
dict(id='F03-cancelled', prop='F03', needs='a context cancelled after a temporary answer came back',
 breaks='the body of the answer is left open when the context is cancelled by then',
 edits=[('fetcher.go', '''		f.discard(resp)
		if isTemporary(err) {
''', '''		if ctx.Err() != nil {
			return nil, err
		}

		f.discard(resp)
		if isTemporary(err) {
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	b := &demoBody{Reader: strings.NewReader("busy")}
	f := &Fetcher{Client: demoClient(func(req *http.Request) (*http.Response, error) {
		cancel()
		return demoResponse(req, 503, b), nil
	})}
	if _, err := f.Fetch(ctx, demoURL(t, "http://a.test/")); err == nil {
		t.Fatal("no error")
	}
	if b.closed == 0 {
		t.Fatal("body left open")
	}
}
'''),
dict(id='F04-shift', prop='F04', needs='several failed attempts with a small MinBackoff',
 breaks='half a backoff is added after the limit was applied, so pauses exceed MaxBackoff',
 edits=[('fetcher.go', '	var timer = time.NewTimer(dur)\n', '	var timer = time.NewTimer(dur + dur/2)\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	var last time.Time
	f := &Fetcher{MaxAttempts: 3, MinBackoff: 599 * time.Millisecond, MaxBackoff: 600 * time.Millisecond, Client: demoClient(func(req *http.Request) (*http.Response, error) {
		if !last.IsZero() {
			if d := time.Since(last); d > 850*time.Millisecond {
				t.Error(d)
			}
		}
		last = time.Now()
		return nil, demoTemporary{}
	})}
	f.Fetch(context.Background(), demoURL(t, "http://a.test/"))
}
'''),
dict(id='F05-agent', prop='F05', needs='a user agent that changes between attempts or a default changed by the program',
 breaks='a fetcher with a client of its own sends no user agent unless one is configured',
 edits=[('fetcher.go', '	hdr.Set("User-Agent", f.userAgent())\n', '	if f.Client == nil || f.UserAgent != nil {\n		hdr.Set("User-Agent", f.userAgent())\n	}\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	var ua string
	f := &Fetcher{Client: demoClient(func(req *http.Request) (*http.Response, error) {
		ua = req.UserAgent()
		return demoResponse(req, 200, io.NopCloser(strings.NewReader("ok"))), nil
	})}
	if _, err := f.Fetch(context.Background(), demoURL(t, "http://a.test/")); err != nil {
		t.Fatal(err)
	}
	if ua != UserAgent.String() {
		t.Fatalf("%q", ua)
	}
}
'''),
dict(id='Q01-check-then-store', prop='Q01', needs='two goroutines de-duplicating the same URL at once',
 breaks='looking a URL up and recording it are two steps, so two callers may both be given it',
 edits=[('dedupe.go', '''		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {
''', '''		if _, exists := d.m.Load(u.String()); !exists {
			d.m.Store(u.String(), nil)
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := DedupeMap()
	var urls URLs
	for i := 0; i < 50000; i++ {
		urls = append(urls, demoURL(t, fmt.Sprintf("http://a.test/%d", i)))
	}
	for round := 0; round < 5; round++ {
		d = DedupeMap()
		var n atomic.Int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < len(urls); i += 10 {
					ret, _ := d.Dedupe(context.Background(), urls[i:i+10])
					n.Add(int64(len(ret)))
				}
			}()
		}
		close(start)
		wg.Wait()
		if n.Load() != int64(len(urls)) {
			t.Fatalf("%d URLs returned %d times", len(urls), n.Load())
		}
	}
}
'''),
dict(id='Q02-refused', prop='Q02', needs='an Enqueue after Close, then Wait',
 breaks='URLs the closed queue refuses are counted as outstanding, so Wait never returns',
 edits=[('queue.go', '''	if mq.stopped {
		return io.EOF
	}

	if ctx.Err() != nil {
		return ctx.Err()
	}

	mq.pending = append(mq.pending, urls...)
	mq.wg.Add(len(urls))
''', '''	mq.wg.Add(len(urls))

	if mq.stopped {
		return io.EOF
	}

	if ctx.Err() != nil {
		mq.wg.Add(-len(urls))
		return ctx.Err()
	}

	mq.pending = append(mq.pending, urls...)
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	q := MemoryQueue(1)
	ctx := context.Background()
	q.Close(ctx)
	if err := q.Enqueue(ctx, URLs{demoURL(t, "http://a.test/")}); err != io.EOF {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() { q.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("Wait hangs")
	}
}
'''),
dict(id='Q03-batch', prop='Q03', needs='URLs enqueued while others are still pending',
 breaks='a batch of URLs is queued before those already pending',
 edits=[('queue.go', '	mq.pending = append(mq.pending, urls...)\n', '	mq.pending = append(append(make(URLs, 0, cap(mq.pending)), urls...), mq.pending...)\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	q := MemoryQueue(1)
	ctx := context.Background()
	q.Enqueue(ctx, URLs{demoURL(t, "http://a.test/1")})
	q.Enqueue(ctx, URLs{demoURL(t, "http://a.test/2"), demoURL(t, "http://a.test/3")})
	for _, want := range []string{"/1", "/2", "/3"} {
		if u, err := q.Dequeue(ctx); err != nil || u.Path != want {
			t.Fatal(u, err)
		}
	}
}
'''),
dict(id='R01-ports', prop='R01', needs='two servers on one host name with different rules',
 breaks='rules are remembered by host name without the port, so one server\'s rules are applied to the other',
 edits=[(RC, '	if v, ok := c.lru.Get(url.Host); ok {\n', '	if v, ok := c.lru.Get(url.Hostname()); ok {\n'),
        (RC, '		s := &Host{}\n		c.lru.Set(url.Host, s)\n', '		s := &Host{}\n		c.lru.Set(url.Hostname(), s)\n'),
        (RC, '	s := &Host{data: data}\n	c.lru.Set(url.Host, s)\n', '	s := &Host{data: data}\n	c.lru.Set(url.Hostname(), s)\n')],
 pkg='internal/robots',
 demo=ROBOTS + '''
func TestSeedDemo(t *testing.T) {
	a := demoServer(t, "User-agent: *\\nDisallow:\\n")
	b := demoServer(t, "User-agent: *\\nDisallow: /\\n")
	c := NewCache(http.DefaultClient, 10)
	for _, tc := range []struct {
		u  string
		ok bool
	}{{a, true}, {b, false}} {
		ok, err := c.Allowed(context.Background(), Request{URL: demoURL(t, tc.u+"/x")})
		if err != nil || ok != tc.ok {
			t.Fatal(tc.u, ok, err)
		}
	}
}
'''),
dict(id='R02-remembered', prop='R02', needs='a robots.txt request that fails, then another check of the host',
 breaks='a host whose robots.txt could not be requested is remembered as having none',
 edits=[(RC, '''	if err != nil {
		return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)
	}
''', '''	if err != nil {
		c.lru.Set(url.Host, &Host{})
		return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)
	}
'''), (RC, '	defer resp.Body.Close()\n\n	if resp.StatusCode', '	defer func() { resp.Body.Close() }()\n\n	if resp.StatusCode')],
 pkg='internal/robots',
 demo=ROBOTS + '''
type flaky struct{ n int }

func (f *flaky) RoundTrip(r *http.Request) (*http.Response, error) {
	if f.n++; f.n == 1 {
		return nil, errors.New("reset")
	}
	return http.DefaultTransport.RoundTrip(r)
}

func TestSeedDemo(t *testing.T) {
	a := demoServer(t, "User-agent: *\\nDisallow: /\\n")
	c := NewCache(&http.Client{Transport: &flaky{}}, 10)
	if _, err := c.Allowed(context.Background(), Request{URL: demoURL(t, a+"/x")}); err == nil {
		t.Fatal("no error")
	}
	if ok, err := c.Allowed(context.Background(), Request{URL: demoURL(t, a+"/x")}); err != nil || ok {
		t.Fatal(ok, err)
	}
}
'''),
dict(id='R03-deadline', prop='R03', needs='a context whose deadline is before the crawl delay has passed',
 breaks='the delay is cut to fit the deadline and the wait succeeds early',
 edits=[(RC, '			t := time.NewTimer(d)\n', '			if end, ok := ctx.Deadline(); ok && time.Until(end) < d {\n				d = time.Until(end) / 2 // leave time for the request\n			}\n			t := time.NewTimer(d)\n'),
        (RC, '		if d := g.CrawlDelay; d > 0 {', '		if d := g.CrawlDelay; d != 0 {')],
 pkg='internal/robots',
 demo=ROBOTS + '''
func TestSeedDemo(t *testing.T) {
	a := demoServer(t, "User-agent: *\\nCrawl-delay: 30\\n")
	c := NewCache(http.DefaultClient, 10)
	if _, err := c.Allowed(context.Background(), Request{URL: demoURL(t, a+"/x")}); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	if err := c.Wait(ctx, Request{URL: demoURL(t, a+"/x")}); !errors.Is(err, context.DeadlineExceeded) {
		t.Fatal(err)
	}
}
'''),
dict(id='L01-escaped', prop='L01', needs='a URL whose path has an escaped character the pattern names',
 breaks='the pattern matcher tests the escaped path and the limiter the decoded one, so a pattern that matches a page for crawling does not limit it',
 edits=[('matchers.go', '		return match.Match(url.Host+normalizePath(url.Path), pattern)\n', '		return match.Match(url.Host+normalizePath(url.EscapedPath()), pattern)\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	for _, p := range []string{"a.test/my%20docs/*", "a.test/my docs/*"} {
		u := demoURL(t, "http://a.test/my%20docs/a")
		l := LimitPattern(1, p)
		l.Limit(context.Background(), u)
		ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
		limited := l.Limit(ctx, u) != nil
		cancel()
		if limited != MatchPattern(p).Match(u) {
			t.Fatal(p, limited)
		}
	}
}
'''),
dict(id='L02-per-call', prop='L02', needs='more matching URLs in a second than the limit',
 breaks='the regexp limiter makes a new bucket for every URL, so nothing is ever limited',
 edits=[('limiters.go', '''func LimitRegexp(n int, expr string) LimiterFunc {
	l := rate.NewLimiter(rate.Limit(n), n)

	re, err''', '''func LimitRegexp(n int, expr string) LimiterFunc {
	re, err'''), ('limiters.go', '''		if re.MatchString(u.Host + normalizePath(u.Path)) {
''', '''		if re.MatchString(u.Host + normalizePath(u.Path)) {
			l := rate.NewLimiter(rate.Limit(n), n)
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	u := demoURL(t, "http://a.test/x")
	l := LimitRegexp(1, "a.test/.*")
	l.Limit(context.Background(), u)
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	if err := l.Limit(ctx, u); err == nil {
		t.Fatal("not limited")
	}
}
'''),
dict(id='N01-flags', prop='N01', needs='a query with several parameters one of which has no value',
 breaks='queries with a parameter without a value are left unsorted',
 edits=[('internal/normalize/url.go', '		sort.Strings(parts)\n', '		if strings.Count(query, "=") >= len(parts) {\n			sort.Strings(parts)\n		}\n')],
 pkg='internal/normalize',
 demo='''
package normalize

import "testing"

func TestSeedDemo(t *testing.T) {
	a, err := RawURL("http://a.test/?b&a=1")
	if err != nil || a != "http://a.test/?a=1&b" {
		t.Fatal(a, err)
	}
}
'''),
]
