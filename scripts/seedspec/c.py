HEAD = '''
package antcache

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = io.EOF
var _ = strings.ToLower
var _ = bytes.NewReader
var _ = os.Remove
var _ = filepath.Join
var _ time.Duration
var _ sync.Mutex
var _ context.Context

type demoClient func(req *http.Request) (*http.Response, error)

func (f demoClient) Do(req *http.Request) (*http.Response, error) { return f(req) }

func demoResponse(req *http.Request, status int, body string, hdr ...string) *http.Response {
	h := http.Header{"Date": {time.Now().UTC().Format(http.TimeFormat)}}
	for i := 0; i < len(hdr); i += 2 {
		h.Add(hdr[i], hdr[i+1])
	}
	return &http.Response{StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req}
}

func demoRequest(t *testing.T, method, url string, hdr ...string) *http.Request {
	req, err := http.NewRequest(method, url, nil)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < len(hdr); i += 2 {
		req.Header.Add(hdr[i], hdr[i+1])
	}
	return req
}

// demoDo performs the request and returns the body read to its end.
func demoDo(t *testing.T, c *Cache, req *http.Request) (int, string) {
	resp, err := c.Do(req)
	if err != nil {
		t.Fatal(err)
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		t.Fatal(err)
	}
	if err := resp.Body.Close(); err != nil {
		t.Fatal(err)
	}
	return resp.StatusCode, string(b)
}

func demoDisk(t *testing.T, opts ...DiskOption) *Diskstore {
	d, err := Open(t.TempDir(), opts...)
	if err != nil {
		t.Fatal(err)
	}
	if err := d.Wait(context.Background()); err != nil {
		t.Fatal(err)
	}
	return d
}
'''
DK = 'antcache/disk.go'
HC = 'antcache/httpcache.go'
CR = 'antcache/cachereader.go'
RF = 'antcache/rfc7234.go'
SEEDS = [
dict(id='C01-nostore-first', prop='C01', needs='no-store after another directive in the request',
 breaks='only a Cache-Control that begins with no-store keeps a request away from the cache',
 edits=[('antcache/utils.go', '	for _, v := range split(c, ",") {\n		if v == "no-store" {\n			return true\n		}\n	}\n\n	return false\n', '	for _, v := range split(c, ",") {\n		return v == "no-store"\n	}\n\n	return false\n')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	n := 0
	c, _ := New(demoClient(func(req *http.Request) (*http.Response, error) {
		n++
		return demoResponse(req, 200, "x", "Cache-Control", "max-age=100"), nil
	}))
	demoDo(t, c, demoRequest(t, "GET", "http://a.test/"))
	demoDo(t, c, demoRequest(t, "GET", "http://a.test/", "Cache-Control", "max-age=50, no-store"))
	if n != 2 {
		t.Fatal("answered from storage")
	}
}
'''),
dict(id='C02-expires-only', prop='C02', needs='a response with max-age=0 and a later Expires',
 breaks='a zero max-age is ignored in favour of Expires when deciding what to store',
 edits=[(RF, '''		if maxage, ok := resd.duration("max-age"); ok {
			return maxage > 0
		}
''', '''		if maxage, _ := resd.duration("max-age"); maxage > 0 {
			return true
		}
''')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	n := 0
	store := &memstore{}
	c, _ := New(demoClient(func(req *http.Request) (*http.Response, error) {
		n++
		return demoResponse(req, 200, "x", "Cache-Control", "max-age=0", "Expires", time.Now().Add(time.Hour).UTC().Format(http.TimeFormat)), nil
	}), WithStorage(store))
	demoDo(t, c, demoRequest(t, "GET", "http://a.test/"))
	store.c.Range(func(k, v any) bool { t.Error("stored"); return false })
}
'''),
dict(id='C03-server-error', prop='C03', needs='a validation answered with a server error',
 breaks='a stale response is returned after a server error although the request does not allow it',
 edits=[(HC, '		if reqd.has("stale-if-error") {', '		if reqd.has("stale-if-error") || newresp.StatusCode == 504 {')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	n := 0
	c, _ := New(demoClient(func(req *http.Request) (*http.Response, error) {
		if n++; n > 1 {
			return demoResponse(req, 504, "gateway"), nil
		}
		return demoResponse(req, 200, "x", "Cache-Control", "max-age=100", "ETag", "a"), nil
	}))
	demoDo(t, c, demoRequest(t, "GET", "http://a.test/"))
	if s, b := demoDo(t, c, demoRequest(t, "GET", "http://a.test/", "Cache-Control", "no-cache")); s != 504 {
		t.Fatal(s, b)
	}
}
'''),
dict(id='C04-minfresh', prop='C04', needs='min-fresh together with max-stale',
 breaks='max-stale cancels min-fresh, so a response about to expire counts as fresh',
 edits=[(RF, '''		if minfresh, ok := reqd.duration("min-fresh"); ok {
			age += minfresh
		}
''', '''		if minfresh, ok := reqd.duration("min-fresh"); ok && !reqd.has("max-stale") {
			age += minfresh
		}
''')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	req := demoRequest(t, "GET", "http://a.test/", "Cache-Control", "max-stale=10, min-fresh=200")
	if (rfc7234{}).fresh(demoResponse(req, 200, "x", "Cache-Control", "max-age=100")) == fresh {
		t.Fatal("fresh")
	}
}
'''),
dict(id='C05-merge-missing', prop='C05', needs='a 304 that changes a header the stored response has',
 breaks='headers of a 304 are merged only where the stored response lacks them, so a renewed response keeps its old Date and expires at once',
 edits=[('antcache/utils.go', '''		default:
			a[key] = b[key]
''', '''		default:
			if len(b[key]) > len(a[key]) {
				a[key] = b[key]
			}
''')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	n := 0
	c, _ := New(demoClient(func(req *http.Request) (*http.Response, error) {
		if n++; n > 1 {
			return demoResponse(req, 304, "", "ETag", "b"), nil
		}
		return demoResponse(req, 200, "x", "Cache-Control", "max-age=100", "ETag", "a"), nil
	}))
	demoDo(t, c, demoRequest(t, "GET", "http://a.test/"))
	resp, err := c.Do(demoRequest(t, "GET", "http://a.test/", "Cache-Control", "no-cache"))
	if err != nil {
		t.Fatal(err)
	}
	defer resp.Body.Close()
	if resp.Header.Get("ETag") != "b" {
		t.Fatal(resp.Header)
	}
}
'''),
dict(id='C06-close-twice', prop='C06', needs='a body closed twice, the second time after something else was stored',
 breaks='every Close stores the response again',
 edits=[(CR, '	cr.once.Do(func() {\n', '	func() {\n'), (CR, '''				err,
			))
		}
	})
''', '''				err,
			))
		}
	}()
''')],
 pkg='antcache',
 demo=HEAD + '''
type demoStore struct{ n int }

func (s *demoStore) Store(context.Context, uint64, []byte) error { s.n++; return nil }
func (s *demoStore) Load(context.Context, uint64) ([]byte, error) { return nil, nil }

func TestSeedDemo(t *testing.T) {
	s := &demoStore{}
	c, _ := New(demoClient(func(req *http.Request) (*http.Response, error) {
		return demoResponse(req, 200, "x", "Cache-Control", "max-age=100"), nil
	}), WithStorage(s))
	resp, err := c.Do(demoRequest(t, "GET", "http://a.test/"))
	if err != nil {
		t.Fatal(err)
	}
	io.ReadAll(resp.Body)
	resp.Body.Close()
	resp.Body.Close()
	if s.n != 1 {
		t.Fatal(s.n)
	}
}
'''),
dict(id='C07-path-key', prop='C07', needs='two URLs that differ only in their query',
 breaks='the query is not part of the key',
 edits=[('antcache/utils.go', '		req.Method + ":" + req.URL.String(),\n', '		req.Method + ":" + req.URL.Scheme + "://" + req.URL.Host + req.URL.EscapedPath(),\n')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	c, _ := New(demoClient(func(req *http.Request) (*http.Response, error) {
		return demoResponse(req, 200, req.URL.RawQuery, "Cache-Control", "max-age=100"), nil
	}))
	demoDo(t, c, demoRequest(t, "GET", "http://a.test/?a"))
	if _, b := demoDo(t, c, demoRequest(t, "GET", "http://a.test/?b")); b != "b" {
		t.Fatal(b)
	}
}
'''),
dict(id='D01-index-first', prop='D01', needs='a rename that fails',
 breaks='an entry is published before its file is in place, and stays so when the rename fails',
 edits=[(DK, '	if err := os.Rename(f.Name(), newpath); err != nil {\n		return fmt.Errorf("antcache: disk rename - %w", err)\n	}\n', '	d.ready[key] = file{\n		key:   key,\n		path:  newpath,\n		size:  stat.Size(),\n		mtime: stat.ModTime(),\n	}\n\n	if err := os.Rename(f.Name(), newpath); err != nil {\n		return fmt.Errorf("antcache: disk rename - %w", err)\n	}\n'),
  (DK, '\n	d.ready[key] = file{\n		key:   key,\n		path:  newpath,\n		size:  stat.Size(),\n		mtime: stat.ModTime(),\n	}\n\n	return nil\n', '\n	return nil\n')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := demoDisk(t)
	defer d.Close()
	if err := os.MkdirAll(filepath.Join(d.path, "7", "x"), 0o755); err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	if err := d.Store(ctx, 7, []byte("x")); err == nil {
		t.Fatal("no error")
	}
	if v, err := d.Load(ctx, 7); v != nil || err != nil {
		t.Fatal("published", v, err)
	}
}
'''),
dict(id='D02-read-unlocked', prop='D02', needs='a sweep that removes an entry between its lookup and its read by a load',
 breaks='the lookup and the read of a load are two critical sections, so a load of an entry that is being removed fails instead of missing',
 edits=[(DK, '	d.readymu.RLock()\n	defer d.readymu.RUnlock()\n\n	if f, ok := d.ready[key]; ok {\n', '	d.readymu.RLock()\n	f, ok := d.ready[key]\n	d.readymu.RUnlock()\n\n	if ok {\n')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := demoDisk(t, Maxage(time.Hour), SweepEvery(time.Hour))
	defer d.Close()
	ctx := context.Background()
	stop := make(chan struct{})
	d.now = func() time.Time { return time.Now().Add(2 * time.Hour) }
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			d.Store(ctx, 1, []byte("x"))
			d.sweep()
		}
	}()
	var failed error
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if _, err := d.Load(ctx, 1); err != nil {
					d.readymu.Lock()
					failed = err
					d.readymu.Unlock()
					return
				}
			}
		}()
	}
	time.Sleep(6 * time.Second)
	close(stop)
	wg.Wait()
	if failed != nil {
		t.Fatal(failed)
	}
}
'''),
dict(id='D03-equal-sizes', prop='D03', needs='an entry that alone exceeds the maximum size, followed by ones that fit',
 breaks='the size of an entry too large to keep still counts, so everything older is removed with it',
 edits=[(DK, '''				remove = append(remove, f)
				sum -= f.size
''', '''				remove = append(remove, f)
''')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := demoDisk(t, Maxage(0), Maxsize(100), SweepEvery(time.Hour))
	defer d.Close()
	ctx := context.Background()
	d.Store(ctx, 1, make([]byte, 10))
	time.Sleep(20 * time.Millisecond)
	d.Store(ctx, 2, make([]byte, 500))
	if _, err := d.sweep(); err != nil {
		t.Fatal(err)
	}
	if v, err := d.Load(ctx, 1); err != nil || len(v) != 10 {
		t.Fatal("the entry that fits is gone")
	}
}
'''),
dict(id='D04-close-early', prop='D04', needs='Close while the sweeper is sweeping',
 breaks='the sweeper signs off before it ends, so Close returns and closes the directory under it',
 edits=[(DK, '''		case <-d.ticker.C:
			if _, err := d.sweep(); err != nil {
				log.Printf("antcache: disk sweep - %s", err)
			}
''', '''		case <-d.ticker.C:
			go func() {
				if _, err := d.sweep(); err != nil {
					log.Printf("antcache: disk sweep - %s", err)
				}
			}()
''')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := demoDisk(t, SweepEvery(10*time.Millisecond), func(d *Diskstore) error {
		return nil
	})
	_ = d
	began, end := make(chan struct{}), make(chan struct{})
	var once sync.Once
	var mu sync.Mutex
	ended := false
	d.readymu.Lock() // the sweeper lists the entries under this lock
	d.now = func() time.Time {
		once.Do(func() { close(began) })
		<-end
		mu.Lock()
		ended = true
		mu.Unlock()
		return time.Now()
	}
	d.readymu.Unlock()
	<-began
	go func() { time.Sleep(300 * time.Millisecond); close(end) }()
	d.Close()
	mu.Lock()
	defer mu.Unlock()
	if !ended {
		t.Fatal("Close returned before the sweep ended")
	}
}
'''),
dict(id='D05-signed', prop='D05', needs='a key of 2^63 or above and a store opened again',
 breaks='names of large keys are negative numbers, which warm-up does not accept, so those entries are lost when the store is opened again',
 edits=[(DK, '	var newname = strconv.FormatUint(key, 10)\n', '	var newname = strconv.FormatInt(int64(key), 10)\n')],
 pkg='antcache',
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := demoDisk(t)
	ctx := context.Background()
	if err := d.Store(ctx, 1<<63+5, []byte("x")); err != nil {
		t.Fatal(err)
	}
	d.Close()
	e, err := Open(d.path)
	if err != nil {
		t.Fatal(err)
	}
	defer e.Close()
	e.Wait(ctx)
	if v, err := e.Load(ctx, 1<<63+5); err != nil || string(v) != "x" {
		t.Fatal(v, err)
	}
}
'''),
]
