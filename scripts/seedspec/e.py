HEAD = '''
package ant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = io.EOF
var _ url.URL
var _ sync.Mutex
var _ atomic.Int32
var _ time.Duration
var _ = strings.ToLower

type demoScraper func(ctx context.Context, p *Page) (URLs, error)

func (f demoScraper) Scrape(ctx context.Context, p *Page) (URLs, error) { return f(ctx, p) }

func demoServer(t *testing.T, h http.HandlerFunc) string {
	srv := httptest.NewServer(h)
	t.Cleanup(srv.Close)
	return srv.URL
}

func demoRun(t *testing.T, ctx context.Context, c EngineConfig, urls ...string) error {
	eng, err := NewEngine(c)
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- eng.Run(ctx, urls...) }()
	select {
	case err := <-done:
		return err
	case <-time.After(20 * time.Second):
		t.Fatal("Run hangs")
		return nil
	}
}
'''
SEEDS = [
dict(id='E01-robots', prop='E01', needs='a URL whose robots.txt check fails (connection cut)',
 breaks='the URL is never acknowledged, so Run waits for it forever',
 edits=[('engine.go', '''	defer eng.queue.Done(ctx, url)

''', ''), ('engine.go', '''		if err != nil {
			return err
		}
		if !allowed {''', '''		if err != nil {
			return err
		}
		if !allowed {
			eng.queue.Done(ctx, url)'''), ('engine.go', '''	// Potential limits.
	if err''', '''	defer eng.queue.Done(ctx, url)

	// Potential limits.
	if err''')],
 demo=HEAD+'''
func TestSeedDemo(t *testing.T) {
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/robots.txt" {
			panic(http.ErrAbortHandler)
		}
	})
	err := demoRun(t, context.Background(), EngineConfig{Scraper: demoScraper(func(context.Context, *Page) (URLs, error) { return nil, nil })}, u+"/private")
	if err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='E02-background', prop='E02', needs='a page with more than 64 links, and a queue slow enough for the acknowledgement to come first',
 breaks='a page is acknowledged before its links are queued: the run can end without visiting them',
 edits=[('engine.go', '''	// Enqueue URLs.
	if err''', '''	// Large pages enqueue their links in the background,
	// so that their slot is free for another page.
	if len(urls) > 64 {
		go eng.enqueue(ctx, urls)
		return nil
	}

	// Enqueue URLs.
	if err''')],
 demo=HEAD+'''
type slowQueue struct {
	Queue
	n atomic.Int32
}

func (q *slowQueue) Enqueue(ctx context.Context, us URLs) error {
	if q.n.Add(1) > 1 {
		time.Sleep(200 * time.Millisecond)
	}
	return q.Queue.Enqueue(ctx, us)
}

func TestSeedDemo(t *testing.T) {
	var visited sync.Map
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/robots.txt" {
			w.WriteHeader(404)
			return
		}
		visited.Store(r.URL.Path, true)
		if r.URL.Path == "/" {
			fmt.Fprint(w, strings.Repeat(`<a href="/next">next</a>`, 100))
		}
	})
	demoRun(t, context.Background(), EngineConfig{Queue: &slowQueue{Queue: MemoryQueue(1)}, Scraper: demoScraper(func(_ context.Context, p *Page) (URLs, error) { return p.URLs(), nil })}, u)
	if _, ok := visited.Load("/next"); !ok {
		t.Fatal("the run ended without visiting /next")
	}
}
'''),
dict(id='E03-plain-paths', prop='E03', needs='the same page, without query, linked with and without a fragment',
 breaks='URLs without a query are queued without being normalised, so one page is visited several times',
 edits=[('engine.go', '''		batch[j] = normalize.URL(batch[j])
''', '''		// Plain paths are already in normal form.
		if u := batch[j]; u.Path == "" || u.RawQuery != "" {
			batch[j] = normalize.URL(u)
		}
''')],
 demo=HEAD+'''
func TestSeedDemo(t *testing.T) {
	var n atomic.Int32
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		switch r.URL.Path {
		case "/robots.txt":
			w.WriteHeader(404)
		case "/":
			fmt.Fprint(w, `<a href="/p">x</a><a href="/p#top">y</a>`)
		case "/p":
			n.Add(1)
		}
	})
	err := demoRun(t, context.Background(), EngineConfig{Scraper: demoScraper(func(_ context.Context, p *Page) (URLs, error) { return p.URLs(), nil })}, u)
	if err != nil {
		t.Fatal(err)
	}
	if n.Load() != 1 {
		t.Fatalf("/p visited %d times", n.Load())
	}
}
'''),
dict(id='E04-fail-open', prop='E04', needs='the first robots.txt request fails (connection cut) and a later one would forbid the page',
 breaks='a failed robots.txt check counts as permission',
 edits=[('engine.go', '''		if err != nil {
			return err
		}
		if !allowed {
			return nil
		}''', '''		if err != nil && ctx.Err() != nil {
			return err
		}
		if err == nil && !allowed {
			return nil
		}''')],
 demo=HEAD+'''
func TestSeedDemo(t *testing.T) {
	var n, robots atomic.Int32
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/robots.txt" {
			if robots.Add(1) == 1 {
				panic(http.ErrAbortHandler)
			}
			fmt.Fprint(w, "User-agent: *\\nDisallow: /\\n")
			return
		}
		n.Add(1)
	})
	demoRun(t, context.Background(), EngineConfig{Scraper: demoScraper(func(context.Context, *Page) (URLs, error) { return nil, nil })}, u+"/x")
	if n.Load() != 0 {
		t.Fatal("page fetched although robots.txt could not be checked")
	}
}
'''),
dict(id='E05-impolite-unlimited', prop='E05', needs='an impolite engine with a limiter configured',
 breaks='the configured limiter is not consulted when the engine is impolite',
 edits=[('engine.go', '''	if eng.limiter != nil {
		if err := eng.limiter''', '''	if eng.limiter != nil && !eng.impolite {
		if err := eng.limiter''')],
 demo=HEAD+'''
func TestSeedDemo(t *testing.T) {
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {})
	var n atomic.Int32
	err := demoRun(t, context.Background(), EngineConfig{Impolite: true, Limiter: LimiterFunc(func(context.Context, *URL) error { n.Add(1); return nil }),
		Scraper: demoScraper(func(context.Context, *Page) (URLs, error) { return nil, nil })}, u)
	if err != nil || n.Load() != 1 {
		t.Fatal("limiter calls:", n.Load(), err)
	}
}
'''),
dict(id='E06-one-slot', prop='E06', needs='Concurrency: 1 and a page with several links',
 breaks='a concurrency of one is treated as unlimited',
 edits=[('engine.go', '''n > 0 {''', '''n > 1 {''')],
 demo=HEAD+'''
func TestSeedDemo(t *testing.T) {
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/" {
			fmt.Fprint(w, `<a href="/a">x</a><a href="/b">y</a><a href="/c">y</a>`)
		}
	})
	var in, max atomic.Int32
	err := demoRun(t, context.Background(), EngineConfig{Impolite: true, Concurrency: 1, Scraper: demoScraper(func(_ context.Context, p *Page) (URLs, error) {
		if n := in.Add(1); n > max.Load() {
			max.Store(n)
		}
		defer in.Add(-1)
		time.Sleep(100 * time.Millisecond)
		return p.URLs(), nil
	})}, u)
	if err != nil || max.Load() != 1 {
		t.Fatal("concurrent scrapes:", max.Load(), err)
	}
}
'''),
dict(id='E06-per-worker', prop='E06', needs='several workers with bounded concurrency and enough links',
 breaks='the bound is multiplied by the number of workers',
 edits=[('engine.go', '''		sema = semaphore.NewWeighted(n)''', '''		// Each worker may use all its slots.
		sema = semaphore.NewWeighted(n * int64(c.Workers))''')],
 demo=HEAD+'''
func TestSeedDemo(t *testing.T) {
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/" {
			fmt.Fprint(w, `<a href="/a">x</a><a href="/b">y</a><a href="/c">y</a>`)
		}
	})
	var in, max atomic.Int32
	err := demoRun(t, context.Background(), EngineConfig{Impolite: true, Concurrency: 1, Workers: 3, Scraper: demoScraper(func(_ context.Context, p *Page) (URLs, error) {
		if n := in.Add(1); n > max.Load() {
			max.Store(n)
		}
		defer in.Add(-1)
		time.Sleep(100 * time.Millisecond)
		return p.URLs(), nil
	})}, u)
	if err != nil || max.Load() != 1 {
		t.Fatal("concurrent scrapes:", max.Load(), err)
	}
}
'''),
dict(id='E07-partial', prop='E07', needs='a scraper that returns links together with an error',
 breaks='a scraper error is dropped when links were returned with it',
 edits=[('engine.go', '''	urls, err := eng.scraper.Scrape(ctx, page)
	if err != nil {''', '''	urls, err := eng.scraper.Scrape(ctx, page)
	if err != nil && len(urls) == 0 {''')],
 demo=HEAD+'''
func TestSeedDemo(t *testing.T) {
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {})
	boom := errors.New("boom")
	err := demoRun(t, context.Background(), EngineConfig{Impolite: true, Scraper: demoScraper(func(_ context.Context, p *Page) (URLs, error) {
		v, _ := url.Parse(u + "/next")
		return URLs{v}, boom
	})}, u)
	if !errors.Is(err, boom) {
		t.Fatal("error lost:", err)
	}
}
'''),
dict(id='E08-abandon', prop='E08', needs='the context is cancelled while a page is being scraped',
 breaks='Run returns while a scraper it started is still running',
 edits=[('engine.go', '''		if errors.Is(err, io.EOF) ||
			errors.Is(err, context.Canceled) {
			return eg.Wait()
		}
''', '''		if errors.Is(err, context.Canceled) {
			return err
		}
		if errors.Is(err, io.EOF) {
			return eg.Wait()
		}
''')],
 demo=HEAD+'''
type polling struct{ Queue }

func (q polling) Wait() { time.Sleep(300 * time.Millisecond) }

func (q polling) Dequeue(ctx context.Context) (*URL, error) {
	stop := context.AfterFunc(ctx, func() { q.Queue.Close(ctx) })
	defer stop()
	u, err := q.Queue.Dequeue(ctx)
	if err == io.EOF && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	return u, err
}

func TestSeedDemo(t *testing.T) {
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {})
	ctx, cancel := context.WithCancel(context.Background())
	var in atomic.Int32
	demoRun(t, ctx, EngineConfig{Impolite: true, Queue: polling{MemoryQueue(1)}, Scraper: demoScraper(func(context.Context, *Page) (URLs, error) {
		in.Add(1)
		defer in.Add(-1)
		cancel()
		time.Sleep(time.Second)
		return nil, nil
	})}, u)
	if in.Load() != 0 {
		t.Fatal("Run returned while a scraper is running")
	}
}
'''),

dict(id='E09-redirected', prop='E09', needs='a page whose address redirects to another one',
 breaks='the page is fetched but never scraped, so neither it nor anything it links to appears in the crawl',
 edits=[('engine.go', '''	if page == nil {
		return nil, nil
	}
''', '''	// Nothing to scrape, or a page that is known
	// under another address.
	if page == nil || page.URL.String() != url.String() {
		return nil, nil
	}
''')],
 demo=HEAD+'''
func TestSeedDemo(t *testing.T) {
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		switch r.URL.Path {
		case "/old":
			http.Redirect(w, r, "/new", http.StatusFound)
		case "/new":
			io.WriteString(w, "<p>hello</p>")
		default:
			w.WriteHeader(404)
		}
	})
	var n atomic.Int32
	err := demoRun(t, context.Background(), EngineConfig{Scraper: demoScraper(func(context.Context, *Page) (URLs, error) {
		n.Add(1)
		return nil, nil
	})}, u+"/old")
	if err != nil {
		t.Fatal(err)
	}
	if n.Load() != 1 {
		t.Fatalf("scraped %d pages, want 1", n.Load())
	}
}
'''),
dict(id='E09-fetcher', prop='E09', needs='a fetcher that is configured without a client of its own',
 breaks='the configured fetcher (its user agent, attempts and backoffs) is replaced by the default one',
 edits=[('engine.go', '''	if c.Fetcher == nil {
''', '''	if c.Fetcher == nil || c.Fetcher.Client == nil {
''')],
 demo=HEAD+'''
func TestSeedDemo(t *testing.T) {
	var agent atomic.Value
	u := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/robots.txt" {
			w.WriteHeader(404)
			return
		}
		agent.Store(r.UserAgent())
	})
	err := demoRun(t, context.Background(), EngineConfig{
		Fetcher: &Fetcher{UserAgent: StaticAgent("custom")},
		Scraper: demoScraper(func(context.Context, *Page) (URLs, error) { return nil, nil }),
	}, u+"/")
	if err != nil {
		t.Fatal(err)
	}
	if agent.Load() != "custom" {
		t.Fatalf("fetched as %v", agent.Load())
	}
}
'''),
dict(id='E03-partial', prop='E03', needs='several start URLs of which a later one is not http or https',
 breaks='the URLs before the refused one are already queued when Enqueue returns its error',
 edits=[('engine.go', '''		batch = append(batch, u)
	}

	return eng.enqueue(ctx, batch)
''', '''		if err := eng.enqueue(ctx, append(batch[:0], u)); err != nil {
			return err
		}
	}

	return nil
''')],
 demo=HEAD+'''
type countQueue struct {
	Queue
	n atomic.Int32
}

func (q *countQueue) Enqueue(ctx context.Context, us URLs) error {
	q.n.Add(int32(len(us)))
	return q.Queue.Enqueue(ctx, us)
}

func TestSeedDemo(t *testing.T) {
	q := &countQueue{Queue: MemoryQueue(1)}
	eng, err := NewEngine(EngineConfig{Queue: q, Scraper: demoScraper(func(context.Context, *Page) (URLs, error) { return nil, nil })})
	if err != nil {
		t.Fatal(err)
	}
	if err := eng.Enqueue(context.Background(), "http://a.example/", "ftp://b.example/"); err == nil {
		t.Fatal("no error")
	}
	if q.n.Load() != 0 {
		t.Fatalf("%d URLs were queued", q.n.Load())
	}
}
'''),
dict(id='E07-worker', prop='E07', needs='a queue whose Dequeue fails while other URLs are still unacknowledged',
 breaks='the worker that could not take a URL ends without closing the queue: Run waits for URLs that nobody takes any more',
 edits=[('engine.go', '''			defer eng.queue.Close(ctx)
			return eng.run(subctx)
''', '''			err := eng.run(subctx)
			if err == nil {
				eng.queue.Close(ctx)
			}
			return err
''')],
 demo=HEAD+'''
type brokenQueue struct{ Queue }

func (q *brokenQueue) Dequeue(ctx context.Context) (*URL, error) { return nil, errors.New("broken") }

func TestSeedDemo(t *testing.T) {
	err := demoRun(t, context.Background(), EngineConfig{
		Queue:   &brokenQueue{MemoryQueue(1)},
		Scraper: demoScraper(func(context.Context, *Page) (URLs, error) { return nil, nil }),
	}, "http://127.0.0.1:1/")
	if err == nil {
		t.Fatal("no error")
	}
}
'''),
]
