From 425b00f461d8284089190aa6075b9c7d626313a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 01/30] fix: acknowledge a URL when no concurrency slot can be
 obtained

The worker returned without calling Queue.Done for the URL it had just
dequeued, so Queue.Wait - and with it Engine.Run - never returned when the
context was canceled while waiting for a slot.
---
 engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine.go b/engine.go
index eda6204..c519795 100644
--- a/engine.go
+++ b/engine.go
@@ -229,6 +229,7 @@ func (eng *Engine) run(ctx context.Context) error {
 
 		if eng.sema != nil {
 			if err := eng.sema.Acquire(ctx, 1); err != nil {
+				eng.queue.Done(ctx, url)
 				return err
 			}
 		}
-- 
2.43.0


From a37f1403878c96b0620bf74f1e553c28375e1101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 02/30] fix: wait for the goroutines already started when a
 worker or Run fails

A worker whose Dequeue or Acquire failed, and Run when closing the queue
failed, returned at once and abandoned the goroutines they had started.
---
 engine.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/engine.go b/engine.go
index c519795..7bbe458 100644
--- a/engine.go
+++ b/engine.go
@@ -153,7 +153,7 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 	// Wait until all URLs are handled.
 	eng.queue.Wait()
 	if err := eng.queue.Close(ctx); err != nil {
-		return err
+		eg.Go(func() error { return err })
 	}
 
 	// Wait until all workers shutdown.
@@ -224,13 +224,15 @@ func (eng *Engine) run(ctx context.Context) error {
 			return eg.Wait()
 		}
 		if err != nil {
-			return err
+			eg.Go(func() error { return err })
+			return eg.Wait()
 		}
 
 		if eng.sema != nil {
 			if err := eng.sema.Acquire(ctx, 1); err != nil {
 				eng.queue.Done(ctx, url)
-				return err
+				eg.Go(func() error { return err })
+				return eg.Wait()
 			}
 		}
 
-- 
2.43.0


From 9982841224b4c6b65992c08c639823fd06099839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 03/30] fix: a URL that fails stops every worker

Only the worker that was processing the URL learnt of the failure; with more
than one worker the others carried on with the crawl. Close the queue, so
that all workers stop, as they do when a worker itself fails.
---
 engine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 7bbe458..1aab4f1 100644
--- a/engine.go
+++ b/engine.go
@@ -240,7 +240,12 @@ func (eng *Engine) run(ctx context.Context) error {
 			if eng.sema != nil {
 				defer eng.sema.Release(1)
 			}
-			return eng.process(subctx, url)
+			err := eng.process(subctx, url)
+			if err != nil {
+				// Stop the other workers too.
+				eng.queue.Close(ctx)
+			}
+			return err
 		})
 	}
 }
-- 
2.43.0


From b8089e272b20c8588a5e84a319a4efcf1f1abdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 04/30] fix: retry temporary client errors

isTemporary asserted on the error wrapped by fetch, which never has a
Temporary method, so network errors were never retried.
---
 fetcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index fc56b88..863f01c 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -2,6 +2,7 @@ package ant
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -287,6 +288,6 @@ func (f *Fetcher) maxBackoff() time.Duration {
 
 // IsTemporary returns true if the error is temporary.
 func isTemporary(err error) bool {
-	t, ok := err.(interface{ Temporary() bool })
-	return ok && t.Temporary()
+	var t interface{ Temporary() bool }
+	return errors.As(err, &t) && t.Temporary()
 }
-- 
2.43.0


From c0482a7e6ef7cc8bd4272c1e882e7341a177ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 05/30] fix: match robots.txt rules against the query and the
 root path

---
 internal/robots/cache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index a379cd0..1f847a0 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -95,10 +95,15 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 	var path = req.URL.Path
 	var ua = req.userAgent()
 
-	if len(path) > 0 && path[0] != '/' {
+	if len(path) == 0 || path[0] != '/' {
 		path = "/" + path
 	}
 
+	// Rules may match on the query.
+	if q := req.URL.RawQuery; q != "" {
+		path += "?" + q
+	}
+
 	host, err := c.lookup(ctx, req.URL)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 87114ab361bbb80e5b146e4b627d5b26b2df3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 06/30] fix: request robots.txt with the user agent it is
 evaluated for

---
 internal/robots/cache.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index 1f847a0..07e3841 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -104,7 +104,7 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 		path += "?" + q
 	}
 
-	host, err := c.lookup(ctx, req.URL)
+	host, err := c.lookup(ctx, req.URL, req.UserAgent)
 	if err != nil {
 		return false, err
 	}
@@ -119,7 +119,7 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 func (c *Cache) Wait(ctx context.Context, req Request) error {
 	var ua = req.userAgent()
 
-	host, err := c.lookup(ctx, req.URL)
+	host, err := c.lookup(ctx, req.URL, req.UserAgent)
 	if err != nil {
 		return err
 	}
@@ -144,7 +144,9 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 //
 // Note that there's a logical race, the method may send multiple requests
 // for the same robots.txt URL, this is intentional to speed up lookups.
-func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
+//
+// The robots.txt is requested with the given user agent, if any.
+func (c *Cache) lookup(ctx context.Context, url *url.URL, ua string) (*Host, error) {
 	if v, ok := c.lru.Get(url.Host); ok {
 		return v.(*Host), nil
 	}
@@ -155,6 +157,10 @@ func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
 		return nil, fmt.Errorf("robots: new request - %w", err)
 	}
 
+	if ua != "" {
+		req.Header.Set("User-Agent", ua)
+	}
+
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)
-- 
2.43.0


From 68d1c51988d494d14ebe9c5ed2f36c27627bea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 07/30] fix: make the bloom filter de-duplicator safe for
 concurrent use

---
 dedupe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedupe.go b/dedupe.go
index 738bcb4..abb1c00 100644
--- a/dedupe.go
+++ b/dedupe.go
@@ -57,6 +57,7 @@ func (d *deduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 
 // Dedupebf implements a bloom filter deduper.
 type dedupebf struct {
+	mtx    sync.Mutex
 	filter *bloom.BloomFilter
 }
 
@@ -77,6 +78,9 @@ func DedupeBF(k, m uint) Deduper {
 func (d *dedupebf) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 	var ret = make(URLs, 0, len(urls))
 
+	d.mtx.Lock()
+	defer d.mtx.Unlock()
+
 	for _, u := range urls {
 		v := []byte(u.String())
 		if !d.filter.Test(v) {
-- 
2.43.0


From 330bcade2d693ef0b8d38a273d74356046c2cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 08/30] fix: keep the stored body when a response is validated

On 304 the stored response was drained and closed and the 304 itself was
left open, so the caller got a response without its body and stored that.
---
 antcache/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index dc68224..37b67a8 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -248,7 +248,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// A 304 (Not Modified) response status code indicates that the
 	// stored response can be updated and reused; see Section 4.3.4.
 	if newresp.StatusCode == 304 {
-		c.discard(resp)
+		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		c.store(key, resp)
 		return resp, nil
-- 
2.43.0


From a2bed0a3ac38db7bcc82078988f517552b654dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 09/30] fix: close the failed validation when a stale response
 is used instead

---
 antcache/httpcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 37b67a8..4727a94 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -240,6 +240,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
+			c.discard(newresp)
 			return resp, nil
 		}
 		return newresp, nil
-- 
2.43.0


From 1522a85eb7e39eb3b336ac1965b8d76d501195b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 10/30] fix: never store a response whose body was not read to
 the end

A body that was closed early, or that a read error cut short, was stored
as if it were complete and then served from the cache.
---
 antcache/cachereader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 69a47cd..d08128d 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -20,6 +20,7 @@ type cachereader struct {
 	rc    io.ReadCloser
 	buf   bytes.Buffer
 	once  sync.Once
+	eof   bool
 	ctx   context.Context
 	store func(ctx context.Context, key uint64, v []byte) error
 }
@@ -29,6 +30,9 @@ func (cr *cachereader) Read(p []byte) (n int, err error) {
 	if n, err = cr.rc.Read(p); n > 0 {
 		cr.buf.Write(p[:n])
 	}
+	if err == io.EOF {
+		cr.eof = true
+	}
 	return n, err
 }
 
@@ -37,6 +41,12 @@ func (cr *cachereader) Close() error {
 	cerr := cr.rc.Close()
 
 	cr.once.Do(func() {
+		// The rest of the body is unknown, a truncated response
+		// must not be stored.
+		if !cr.eof && cr.rc != http.NoBody {
+			return
+		}
+
 		resp := *cr.resp
 
 		r := bytes.NewReader(cr.buf.Bytes())
-- 
2.43.0


From 74fc369c092495bc17ab9d9e80c12b9cd6555296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 11/30] fix: read every Cache-Control header line

Only the first line was looked at, so a no-store or no-cache on another
line was ignored.
---
 antcache/directives.go | 2 +-
 antcache/utils.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 10192f5..5d2a8b1 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -12,7 +12,7 @@ type directives map[string]string
 
 // DirectivesFrom returns directives from h.
 func directivesFrom(h http.Header) directives {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 	var d directives
 
 	for _, item := range split(c, ",") {
diff --git a/antcache/utils.go b/antcache/utils.go
index 3f340d3..0a4821e 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -52,7 +52,7 @@ func matches(req *http.Request, resp *http.Response) bool {
 
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 
 	for _, v := range split(c, ",") {
 		if v == "no-store" {
-- 
2.43.0


From 19f135f18c85945c02d9d8578c083385ceaf52e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 12/30] fix: a request max-age never extends the lifetime of a
 response

---
 antcache/rfc7234.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 6d0ffb8..cc5de1d 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -111,15 +111,18 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	if d, ok := date(resp.Header); ok {
 		var age = time.Since(d)
 		var lifetime time.Duration
+		var explicit bool
 
 		if maxage, ok := resd.duration("max-age"); ok {
-			lifetime = maxage
+			lifetime, explicit = maxage, true
 		} else if exp, ok := expires(resp.Header); ok {
-			lifetime = exp.Sub(d)
+			lifetime, explicit = exp.Sub(d), true
 		}
 
 		if maxage, ok := reqd.duration("max-age"); ok {
-			lifetime = maxage
+			if !explicit || maxage < lifetime {
+				lifetime = maxage
+			}
 		}
 
 		if minfresh, ok := reqd.duration("min-fresh"); ok {
-- 
2.43.0


From 3c7e84a1aa06da4cd4079d3fad7a7c215fcbefbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 13/30] fix: bypass the aggressive cache when the request says
 no-cache

As its documentation says.
---
 antcache/aggressive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/antcache/aggressive.go b/antcache/aggressive.go
index 253e076..55cef76 100644
--- a/antcache/aggressive.go
+++ b/antcache/aggressive.go
@@ -67,6 +67,10 @@ func (a aggressive) store(resp *http.Response) bool {
 
 // Fresh implementation.
 func (a aggressive) fresh(resp *http.Response) freshness {
+	if directivesFrom(resp.Request.Header).has("no-cache") {
+		return transparent
+	}
+
 	if date, ok := date(resp.Header); ok {
 		if time.Since(date) < a.lifetime() {
 			return fresh
-- 
2.43.0


From 06ef3c03e072bd0a382dc7cce21384f4fb6ce426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 14/30] fix: change the disk index and its directory together

A store renamed its file and indexed it in two steps, so a sweep in
between left an entry without a file, and every load of it failed. The
sweep also removed entries stored again since it looked, and never
dropped an entry whose file was gone.
---
 antcache/disk.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index d2646e8..e8cc499 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -359,8 +359,8 @@ func (d *Diskstore) sweep() (int, error) {
 	defer d.readymu.Unlock()
 
 	for _, f := range remove {
-		if _, ok := d.ready[f.key]; ok {
-			if err := os.Remove(f.path); err != nil {
+		if cur, ok := d.ready[f.key]; ok && cur == f {
+			if err := os.Remove(f.path); err != nil && !errors.Is(err, os.ErrNotExist) {
 				log.Printf("antcache: disk remove - %s", err)
 				continue
 			}
@@ -462,6 +462,9 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)
 	}
 
+	d.readymu.Lock()
+	defer d.readymu.Unlock()
+
 	if err := os.Rename(f.Name(), newpath); err != nil {
 		return fmt.Errorf("antcache: disk rename - %w", err)
 	}
@@ -470,14 +473,12 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: disk fsync - %w", err)
 	}
 
-	d.readymu.Lock()
 	d.ready[key] = file{
 		key:   key,
 		path:  newpath,
 		size:  stat.Size(),
 		mtime: stat.ModTime(),
 	}
-	d.readymu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From 71fd5c7116777fc5477f085153519e6e25efad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 15/30] fix: sweep the oldest entries, and do not count the
 expired ones

With a maximum size the sweep kept the oldest entries and removed the
newest, and expired entries it was removing anyway used up the space.
---
 antcache/disk.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index e8cc499..a145c89 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -337,13 +337,14 @@ func (d *Diskstore) sweep() (int, error) {
 	sort.Slice(files, func(i, j int) bool {
 		a := files[i].mtime
 		b := files[j].mtime
-		return a.Before(b)
+		return b.Before(a)
 	})
 
 	for _, f := range files {
 		if d.maxage > 0 {
 			if now.Sub(f.mtime) > d.maxage {
 				remove = append(remove, f)
+				continue
 			}
 		}
 
-- 
2.43.0


From 30f467e59d30bea9ed3e616a22affce66b7a0c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 16/30] fix: end the warm-up when the directory cannot be read

Any error other than io.EOF made it loop for ever, so Wait and Close
never returned.
---
 antcache/disk.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index a145c89..bc9fae5 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -255,10 +255,6 @@ func (d *Diskstore) warmup() {
 	for {
 		names, err := d.dir.Readdirnames(5)
 
-		if errors.Is(err, io.EOF) {
-			break
-		}
-
 		for _, name := range names {
 			var path = filepath.Join(d.path, name)
 
@@ -285,6 +281,13 @@ func (d *Diskstore) warmup() {
 				mtime: stat.ModTime(),
 			})
 		}
+
+		if err != nil {
+			if !errors.Is(err, io.EOF) {
+				log.Printf("antcache: disk read dir %s - %s", d.path, err)
+			}
+			break
+		}
 	}
 
 	d.readymu.Lock()
-- 
2.43.0


From 74a2b4514aacf37a48ff4fe3f6d29b594042cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 17/30] fix: do not sweep the disk before its warm-up is done

---
 antcache/disk.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/antcache/disk.go b/antcache/disk.go
index bc9fae5..949227f 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -316,6 +316,14 @@ func (d *Diskstore) sweeper() {
 		d.wg.Done()
 	}()
 
+	// An entry swept while warming up would be indexed
+	// again without its file.
+	select {
+	case <-d.stop:
+		return
+	case <-d.warm:
+	}
+
 	for {
 		select {
 		case <-d.stop:
-- 
2.43.0


From d6a23ce65e8187387e8fab3362113b77333cefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 18/30] fix: limit the same text of a URL that is matched

---
 limiters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/limiters.go b/limiters.go
index 7ec08e0..e29b3ff 100644
--- a/limiters.go
+++ b/limiters.go
@@ -60,7 +60,7 @@ func LimitHostname(n int, name string) LimiterFunc {
 func LimitPattern(n int, pattern string) LimiterFunc {
 	l := rate.NewLimiter(rate.Limit(n), n)
 	return func(ctx context.Context, u *url.URL) error {
-		if match.Match(u.Host+u.Path, pattern) {
+		if match.Match(u.Host+normalizePath(u.Path), pattern) {
 			return l.Wait(ctx)
 		}
 		return nil
@@ -80,7 +80,7 @@ func LimitRegexp(n int, expr string) LimiterFunc {
 	}
 
 	return func(ctx context.Context, u *url.URL) error {
-		if re.MatchString(u.Host + u.Path) {
+		if re.MatchString(u.Host + normalizePath(u.Path)) {
 			return l.Wait(ctx)
 		}
 		return nil
-- 
2.43.0


From 36bd7de2ad2e70b2dfd7cef5e27dadc3869058f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 19/30] fix: report a parse error from Page.Next

---
 page.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/page.go b/page.go
index 3974753..7320df2 100644
--- a/page.go
+++ b/page.go
@@ -101,6 +101,9 @@ func (p *Page) URLs() URLs {
 
 // Next all URLs matching the given selector.
 func (p *Page) Next(selector string) (URLs, error) {
+	if err := p.parse(); err != nil {
+		return nil, err
+	}
 	return p.resolve(selector), nil
 }
 
-- 
2.43.0


From 76afcea37be0123b2a33b9e113495a20aeacdef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 20/30] fix: report a nil scan destination as an error

---
 internal/scan/scanner.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/scan/scanner.go b/internal/scan/scanner.go
index 99101eb..10d133f 100644
--- a/internal/scan/scanner.go
+++ b/internal/scan/scanner.go
@@ -49,12 +49,17 @@ func NewScanner() *Scanner {
 // Scan scans from src node into dst value.
 func (s *Scanner) Scan(dst any, src *html.Node, opts Options) error {
 	var v = reflect.ValueOf(dst)
-	var t = v.Type()
 
-	if t.Kind() != reflect.Ptr {
+	if v.Kind() != reflect.Ptr {
 		return fmt.Errorf("scan: cannot scan into non ptr %T", dst)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("scan: cannot scan into nil %T", dst)
+	}
+
+	t := v.Type()
+
 	f, ok := s.lookup(t)
 	if !ok {
 		scanFunc, err := s.register(t.Elem(), opts)
-- 
2.43.0


From 358ad3887a0fcf3cc84742ed9215d0295307f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 21/30] fix: report a slice destination without a selector as
 an error

---
 internal/scan/slice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index ae02771..91072e7 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -1,6 +1,7 @@
 package scan
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/andybalholm/cascadia"
@@ -18,6 +19,10 @@ type sliceScanner struct {
 func Slice(opts Options, t reflect.Type) (ScanFunc, error) {
 	var eltype = t.Elem()
 
+	if opts.Selector == nil {
+		return nil, fmt.Errorf("scan: cannot scan into type %s without a selector", t)
+	}
+
 	f, err := ScannerOf(eltype, Options{
 		Selector: nil,
 		Attr:     opts.Attr,
-- 
2.43.0


From 92a1117508b6ea4f057a3c086dfbcca7c2c94723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 22/30] fix: clear a scanned slice when nothing matches its
 selector

---
 internal/scan/slice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index 91072e7..fde2096 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -43,6 +43,7 @@ func (ss sliceScanner) scan(dst reflect.Value, src *html.Node) error {
 	var nodes = ss.selector.MatchAll(src)
 
 	if len(nodes) == 0 {
+		dst.Set(reflect.Zero(ss.sliceType))
 		return nil
 	}
 
-- 
2.43.0


From eb1d53da5d0e23ba61aa60fc0e01b18eb5aff8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 23/30] fix: scan a nested struct from the node its selector
 matches

---
 internal/scan/struct.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 093dbb9..5d5880a 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -17,7 +17,8 @@ type field struct {
 
 // StructScanner implements a struct scanner.
 type structScanner struct {
-	fields []field
+	selector cascadia.Selector
+	fields   []field
 }
 
 // Struct returns a scanfunc for a struct or an error.
@@ -75,13 +76,21 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		return nil, fmt.Errorf("scan: struct %v has no css tags", t)
 	}
 
-	return (structScanner{fields}).scan, nil
+	return (structScanner{opts.Selector, fields}).scan, nil
 }
 
 // Scan implements a scan func.
 func (ss structScanner) scan(dst reflect.Value, src *html.Node) error {
+	if ss.selector != nil {
+		src = ss.selector.MatchFirst(src)
+	}
+
 	for _, f := range ss.fields {
 		v := dst.FieldByIndex(f.index)
+		if src == nil {
+			v.Set(reflect.Zero(v.Type()))
+			continue
+		}
 		if err := f.scan(v, src); err != nil {
 			return err
 		}
-- 
2.43.0


From 413668cffde601f2baf73c8409ffd6ce2db5ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 24/30] fix: normalize: keep no dot segments and no empty path,
 whatever the path

---
 internal/normalize/url.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index aef861b..403743f 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -35,6 +35,7 @@ func URL(u *url.URL) *url.URL {
 	u.Scheme = strings.ToLower(u.Scheme)
 	u.Host = hostname(u)
 	u.Path = pathname(u)
+	u.RawPath = ""
 	u.RawQuery = query(u.RawQuery)
 	u.ForceQuery = false
 	u.Fragment = ""
@@ -59,13 +60,7 @@ func hostname(u *url.URL) string {
 
 // Pathname normalizes the pathname.
 func pathname(u *url.URL) string {
-	switch u.Path {
-	case "", "/":
-		return "/"
-	default:
-		parts := strings.Split(u.Path, "/")
-		return path.Join(parts...)
-	}
+	return path.Clean("/" + u.Path)
 }
 
 // Query sorts the given query.
-- 
2.43.0


From 6cb5f238fa69d916d804af73851b1ce5464b520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 25/30] fix: normalize: remove the default port of IPv6 hosts

---
 internal/normalize/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index 403743f..f73ad8a 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -46,7 +46,7 @@ func URL(u *url.URL) *url.URL {
 func hostname(u *url.URL) string {
 	var host = strings.ToLower(u.Host)
 
-	if j := strings.IndexByte(host, ':'); j != -1 {
+	if j := strings.LastIndexByte(host, ':'); j != -1 {
 		switch port := host[j+1:]; {
 		case u.Scheme == "http" && port == "80":
 			return host[:j]
-- 
2.43.0


From f9a4f446795ba3d4b421cbea0eabc98c07fb44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 26/30] fix: a directive's number of seconds never wraps around

---
 antcache/directives.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/antcache/directives.go b/antcache/directives.go
index 5d2a8b1..285e436 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -1,12 +1,16 @@
 package antcache
 
 import (
+	"errors"
 	"net/http"
 	"strconv"
 	"strings"
 	"time"
 )
 
+// Maxseconds is the largest number of seconds a directive may have.
+const maxseconds = 1 << 31
+
 // Directives represents cache-control directives.
 type directives map[string]string
 
@@ -42,6 +46,19 @@ func (d directives) has(name string) bool {
 func (d directives) duration(name string) (td time.Duration, ok bool) {
 	if v, has := d[name]; has {
 		n, err := strconv.ParseInt(v, 10, 64)
+
+		// A number too large to be represented counts as
+		// the largest one, see RFC 7234 Section 1.2.1.
+		if errors.Is(err, strconv.ErrRange) {
+			err = nil
+		}
+		if n > maxseconds {
+			n = maxseconds
+		}
+		if n < -maxseconds {
+			n = -maxseconds
+		}
+
 		td, ok = (time.Duration(n) * time.Second), err == nil
 	}
 	return
-- 
2.43.0


From 5d69e2845b3b51e03574bdef42a2d6b510d85d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 27/30] fix: never merge the Connection and Trailer headers of
 a 304

---
 antcache/utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/antcache/utils.go b/antcache/utils.go
index 0a4821e..7ef01be 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -12,10 +12,12 @@ import (
 func merge(a http.Header, b http.Header) {
 	for key := range b {
 		switch key {
+		case "Connection":
 		case "Keep-Alive":
 		case "Proxy-Authenticate":
 		case "Proxy-Authorization":
 		case "Te":
+		case "Trailer":
 		case "Trailers":
 		case "Transfer-Encoding":
 		case "Upgrade":
-- 
2.43.0


From d5844a250968dedb67e50acd2be4cf1031dc4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 28/30] fix: close the debugger connection when setting a
 transaction up fails

The transaction was closed only once it had been set up, so a failing
step leaked the connection and the streams that were already open.
---
 antcdp/transport.go |  8 ++++----
 antcdp/tx.go        | 11 ++++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/antcdp/transport.go b/antcdp/transport.go
index edc59c6..b96e55f 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -34,14 +34,14 @@ func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
 		target:  target,
 	}
 
-	if err := tx.init(ctx); err != nil {
-		return nil, err
-	}
-
 	defer func() {
 		err = multierror.Append(err, tx.close())
 	}()
 
+	if err := tx.init(ctx); err != nil {
+		return nil, err
+	}
+
 	resp, err := tx.do(ctx)
 	if err != nil {
 		return nil, err
diff --git a/antcdp/tx.go b/antcdp/tx.go
index 34f948f..3634e43 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -66,20 +66,20 @@ func (tx *tx) init(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
+	tx.events.req = reqc
 
 	resc, err := tx.client.Network.ResponseReceived(ctx)
 	if err != nil {
 		return err
 	}
+	tx.events.res = resc
 
 	ready, err := tx.client.Page.DOMContentEventFired(ctx)
 	if err != nil {
 		return err
 	}
-
-	tx.events.req = reqc
-	tx.events.res = resc
 	tx.events.ready = ready
+
 	return nil
 }
 
@@ -294,6 +294,11 @@ func (tx *tx) setCookies(ctx context.Context) error {
 
 // Close closes the transaction.
 func (tx *tx) close() (err error) {
+	// The transaction may have failed before it was connected.
+	if tx.conn == nil {
+		return nil
+	}
+
 	var closers = [...]io.Closer{
 		tx.conn,
 		tx.events.req,
-- 
2.43.0


From 229def6b9e79aae2f801524f942da10ae5fd977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 29/30] fix: close browser targets that do not fit into the
 pool

A target released while the pool was full was dropped, its page stayed
open in the browser forever.
---
 antcdp/targets.go   | 17 ++++++++++++++++-
 antcdp/transport.go |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/antcdp/targets.go b/antcdp/targets.go
index 3fcb334..644bc44 100644
--- a/antcdp/targets.go
+++ b/antcdp/targets.go
@@ -3,10 +3,14 @@ package antcdp
 import (
 	"context"
 	"fmt"
+	"time"
 
 	"github.com/mafredri/cdp/devtool"
 )
 
+// CloseTimeout is how long closing a target may take.
+const closeTimeout = 5 * time.Second
+
 // Targets represents a pool of targets.
 type targets struct {
 	client  *devtool.DevTools
@@ -45,10 +49,21 @@ func (t *targets) acquire(ctx context.Context) (*devtool.Target, error) {
 }
 
 // Release releases the given target.
-func (t *targets) release(target *devtool.Target) error {
+//
+// When the pool is full the target is closed, even if the
+// given context is canceled.
+func (t *targets) release(ctx context.Context, target *devtool.Target) error {
 	select {
 	case t.targets <- target:
+		return nil
 	default:
 	}
+
+	ctx, cancel := context.WithTimeout(context.WithoutCancel(ctx), closeTimeout)
+	defer cancel()
+
+	if err := t.client.Close(ctx, target); err != nil {
+		return fmt.Errorf("antcdp: close target - %w", err)
+	}
 	return nil
 }
diff --git a/antcdp/transport.go b/antcdp/transport.go
index b96e55f..0e2a824 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -27,7 +27,7 @@ func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	defer t.pool.release(target)
+	defer t.pool.release(ctx, target)
 
 	tx := &tx{
 		request: req,
-- 
2.43.0


From d1d5b2acd3c450d9fccdd96718e699aacd361a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 30/30] fix: wait only for the document of the navigated frame

Requests of subresources and of other frames were waited for, but their
responses ignored: Do blocked until the context was done.
---
 antcdp/tx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 3634e43..34817db 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -128,6 +128,14 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 			if err != nil {
 				return fmt.Errorf("antcdp: request recv - %w", err)
 			}
+
+			if event.Type != network.ResourceTypeDocument {
+				continue
+			}
+			if id := event.FrameID; id != nil && *id != args.FrameID {
+				continue
+			}
+
 			ids[event.RequestID] = struct{}{}
 
 		case <-resc.Ready():
-- 
2.43.0

