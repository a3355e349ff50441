# Behaviour-preserving edits: every check has to stay quiet on each of them.
MUT = []
def ok(*edits): MUT.append(('', 'ok', list(edits)))
E, F, Q = 'engine.go', 'fetcher.go', 'queue.go'
# --- engine
ok((E, '''	// Spawn workers.
	for i := 0; i < eng.workers; i++ {
		eg.Go(func() error {
			defer eng.queue.Close(ctx)
			return eng.run(subctx)
		})
	}
''', '''	eng.spawn(ctx, subctx, eg)
'''), (E, '''// Enqueue enqueues the given set of URLs.
''', '''// Spawn starts the workers.
func (eng *Engine) spawn(ctx, subctx context.Context, eg *errgroup.Group) {
	for n := eng.workers; n > 0; n-- {
		eg.Go(func() error {
			err := eng.run(subctx)
			eng.queue.Close(ctx)
			return err
		})
	}
}

// Enqueue enqueues the given set of URLs.
'''))
ok((E, '''	for i := 0; i < eng.workers; i++ {
		eg.Go(func() error {
			defer eng.queue.Close(ctx)
			return eng.run(subctx)
		})
	}
''', '''	worker := func() error {
		defer eng.queue.Close(ctx)
		return eng.run(subctx)
	}
	for range eng.workers {
		eg.Go(worker)
	}
'''))
ok((E, '''		u, err := url.Parse(rawurl)
		if err != nil {
			return fmt.Errorf("ant: parse url %q - %w", rawurl, err)
		}

		switch u.Scheme {
		case "https", "http":
		default:
			return fmt.Errorf("ant: cannot enqueue invalid URL %q", u)
		}

		batch = append(batch, u)
	}
''', '''		u, err := parse(rawurl)
		if err != nil {
			return err
		}
		batch = append(batch, u)
	}
'''), (E, '''// Enqueue enqueues the given parsed urls.
''', '''// Parse parses a URL that can be enqueued.
func parse(rawurl string) (*URL, error) {
	u, err := url.Parse(rawurl)
	if err != nil {
		return nil, fmt.Errorf("ant: parse url %q - %w", rawurl, err)
	}
	if u.Scheme != "https" && u.Scheme != "http" {
		return nil, fmt.Errorf("ant: cannot enqueue invalid URL %q", u)
	}
	return u, nil
}

// Enqueue enqueues the given parsed urls.
'''))
ok((E, '''	for j := range batch {
		batch[j] = normalize.URL(batch[j])
	}

	next, err := eng.dedupe(ctx, eng.matches(batch))
	if err != nil {
		return err
	}

	if err := eng.queue.Enqueue(ctx, next); err != nil {
		return err
	}

	return nil
}
''', '''	normal := make(URLs, 0, len(batch))
	for _, u := range batch {
		normal = append(normal, normalize.URL(u))
	}

	next, err := eng.dedupe(ctx, eng.matches(normal))
	if err == nil {
		err = eng.queue.Enqueue(ctx, next)
	}
	return err
}
'''))
ok((E, '''	next, err := eng.dedupe(ctx, eng.matches(batch))
	if err != nil {
		return err
	}

	if err := eng.queue.Enqueue(ctx, next); err != nil {
		return err
	}

	return nil
}
''', '''	matched := eng.matches(batch)

	next, err := eng.deduper.Dedupe(ctx, matched)
	if err != nil {
		return fmt.Errorf("ant: dedupe - %w", err)
	}

	return eng.queue.Enqueue(ctx, next)
}
'''), (E, '''// Dedupe de-duplicates the given slice of URLs.
func (eng *Engine) dedupe(ctx context.Context, urls URLs) (URLs, error) {
	deduped, err := eng.deduper.Dedupe(ctx, urls)
	if err != nil {
		return nil, fmt.Errorf("ant: dedupe - %w", err)
	}

	return deduped, nil
}

''', ''))
ok((E, '''		if eng.sema != nil {
			if err := eng.sema.Acquire(ctx, 1); err != nil {
				eng.queue.Done(ctx, url)
				eg.Go(func() error { return err })
				return eg.Wait()
			}
		}

		eg.Go(func() error {
			if eng.sema != nil {
				defer eng.sema.Release(1)
			}
			err := eng.process(subctx, url)
			if err != nil {
				// Stop the other workers too.
				eng.queue.Close(ctx)
			}
			return err
		})
	}
}
''', '''		if err := eng.acquire(ctx); err != nil {
			eng.queue.Done(ctx, url)
			eg.Go(func() error { return err })
			return eg.Wait()
		}

		eg.Go(func() error {
			defer eng.release()
			return eng.handle(ctx, subctx, url)
		})
	}
}

// Acquire acquires a slot.
func (eng *Engine) acquire(ctx context.Context) error {
	if eng.sema == nil {
		return nil
	}
	return eng.sema.Acquire(ctx, 1)
}

// Release releases a slot.
func (eng *Engine) release() {
	if eng.sema != nil {
		eng.sema.Release(1)
	}
}

// Handle processes the url and stops the other workers if it fails.
func (eng *Engine) handle(ctx, subctx context.Context, url *URL) error {
	err := eng.process(subctx, url)
	if err != nil {
		eng.queue.Close(ctx)
	}
	return err
}
'''))
ok((E, '''		if errors.Is(err, io.EOF) ||
			errors.Is(err, context.Canceled) {
			return eg.Wait()
		}
		if err != nil {
			eg.Go(func() error { return err })
			return eg.Wait()
		}
''', '''		if err != nil {
			if !errors.Is(err, io.EOF) && !errors.Is(err, context.Canceled) {
				eg.Go(func() error { return err })
			}
			return eg.Wait()
		}
'''))
ok((E, '''		if errors.Is(err, io.EOF) ||
			errors.Is(err, context.Canceled) {
			return eg.Wait()
		}
		if err != nil {
			eg.Go(func() error { return err })
			return eg.Wait()
		}
''', '''		switch {
		case err == nil:
		case finished(err):
			return eg.Wait()
		default:
			eg.Go(func() error { return err })
			return eg.Wait()
		}
'''), (E, '''// Process processes a single url.
''', '''// Finished returns true if the error says that there is nothing left to do.
func finished(err error) bool {
	return errors.Is(err, io.EOF) || errors.Is(err, context.Canceled)
}

// Process processes a single url.
'''))
ok((E, '''	if !eng.impolite {
		allowed, err := eng.robots.Allowed(ctx, robots.Request{
			URL:       url,
			UserAgent: UserAgent.String(),
		})
		if err != nil {
			return err
		}
		if !allowed {
			return nil
		}
	}
''', '''	if allowed, err := eng.allowed(ctx, url); err != nil || !allowed {
		return err
	}
'''), (E, '''	err := eng.robots.Wait(ctx, robots.Request{
		URL:       url,
		UserAgent: UserAgent.String(),
	})
	if err != nil {
		return fmt.Errorf("ant: robots wait - %w", err)
	}

	return nil
}
''', '''	if err := eng.robots.Wait(ctx, request(url)); err != nil {
		return fmt.Errorf("ant: robots wait - %w", err)
	}

	return nil
}

// Allowed returns true if the URL may be fetched.
func (eng *Engine) allowed(ctx context.Context, url *URL) (bool, error) {
	if eng.impolite {
		return true, nil
	}
	return eng.robots.Allowed(ctx, request(url))
}

// Request returns the robots request for the url.
func request(url *URL) robots.Request {
	return robots.Request{URL: url, UserAgent: UserAgent.String()}
}
'''))
ok((E, '''	// Potential limits.
	if err := eng.limit(ctx, url); err != nil {
		return err
	}

	// Scrape the URL.
	urls, err := eng.scrape(ctx, url)
	if err != nil {
		return err
	}

	// Enqueue URLs.
	if err := eng.enqueue(ctx, urls); err != nil {
		return fmt.Errorf("ant: enqueue - %w", err)
	}

	return nil
}
''', '''	err := eng.limit(ctx, url)
	if err != nil {
		return err
	}

	var urls URLs
	if urls, err = eng.scrape(ctx, url); err != nil {
		return err
	}

	if err = eng.enqueue(ctx, urls); err == nil {
		return nil
	}
	return fmt.Errorf("ant: enqueue - %w", err)
}
'''))
ok((E, '''	page, err := eng.fetcher.Fetch(ctx, url)

	if err != nil {
		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
	}

	if page == nil {
		return nil, nil
	}

	defer page.close()

	urls, err := eng.scraper.Scrape(ctx, page)
	if err != nil {
		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
	}

	return urls, nil
}
''', '''	page, err := eng.fetcher.Fetch(ctx, url)
	switch {
	case err != nil:
		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
	case page != nil:
		return eng.visit(ctx, url, page)
	default:
		return nil, nil
	}
}

// Visit scrapes the page and closes it.
func (eng *Engine) visit(ctx context.Context, url *URL, page *Page) (URLs, error) {
	defer func() {
		page.close()
	}()

	urls, err := eng.scraper.Scrape(ctx, page)
	if err != nil {
		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
	}
	return urls, nil
}
'''))
ok((E, '''	if eng.limiter != nil {
		if err := eng.limiter.Limit(ctx, url); err != nil {
			return fmt.Errorf("limit %q - %w", url, err)
		}
	}

	if eng.impolite {
		return nil
	}

	err := eng.robots.Wait(ctx, robots.Request{
		URL:       url,
		UserAgent: UserAgent.String(),
	})
	if err != nil {
		return fmt.Errorf("ant: robots wait - %w", err)
	}

	return nil
}
''', '''	if l := eng.limiter; l != nil {
		err := l.Limit(ctx, url)
		if err != nil {
			return fmt.Errorf("limit %q - %w", url, err)
		}
	}

	if !eng.impolite {
		err := eng.robots.Wait(ctx, robots.Request{
			URL:       url,
			UserAgent: UserAgent.String(),
		})
		if err != nil {
			return fmt.Errorf("ant: robots wait - %w", err)
		}
	}

	return nil
}
'''))
ok((E, '''	if eng.matcher != nil {
		ret := make(URLs, 0, len(urls))
		for _, u := range urls {
			if eng.matcher.Match(u) {
				ret = append(ret, u)
			}
		}
		return ret
	}
	return urls
}''', '''	var m = eng.matcher

	if m == nil {
		return urls
	}

	var ret URLs
	for i := 0; i < len(urls); i++ {
		if !m.Match(urls[i]) {
			continue
		}
		ret = append(ret, urls[i])
	}
	return ret
}'''))
ok((E, '''	if c.Deduper == nil {
		c.Deduper = DedupeMap()
	}

	if c.Fetcher == nil {
		c.Fetcher = &Fetcher{}
	}

	if c.Workers <= 0 {
		c.Workers = 1
	}

	if c.Queue == nil {
		c.Queue = MemoryQueue(c.Workers)
	}

	var sema *semaphore.Weighted
	if n := int64(c.Concurrency); n > 0 {
		sema = semaphore.NewWeighted(n)
	}

	return &Engine{
''', '''	c = c.defaults()

	var sema *semaphore.Weighted
	if c.Concurrency > 0 {
		sema = semaphore.NewWeighted(int64(c.Concurrency))
	}

	return &Engine{
'''), (E, '''// Run runs the engine with the given start urls.
''', '''// Defaults returns the configuration with all defaults.
func (c EngineConfig) defaults() EngineConfig {
	if c.Workers < 1 {
		c.Workers = 1
	}
	if c.Fetcher == nil {
		c.Fetcher = new(Fetcher)
	}
	if c.Queue == nil {
		c.Queue = MemoryQueue(c.Workers)
	}
	if c.Deduper == nil {
		c.Deduper = DedupeMap()
	}
	return c
}

// Run runs the engine with the given start urls.
'''))
# --- fetcher
ok((F, '''	var maxAttempts = f.maxAttempts()
	var attempt int
	var resp *http.Response
	var err error

	for {
		if attempt++; attempt > maxAttempts {
			return nil, fmt.Errorf(
				"ant: max attempts of %d reached - %w",
				maxAttempts,
				err,
			)
		}

		if resp, err = f.fetch(ctx, url); err == nil {
			break
		}

		f.discard(resp)
		if isTemporary(err) {
			if err := f.backoff(ctx, attempt); err != nil {
				return nil, err
			}
			continue
		}

		if err, ok := err.(*FetchError); ok {
			if err.Status == 404 {
				return nil, nil
			}
		}

		return nil, err
	}

	return &Page{
		URL:    resp.Request.URL,
		Header: resp.Header,
		body:   resp.Body,
	}, nil
}
''', '''	var maxAttempts = f.maxAttempts()
	var last error

	for attempt := 1; attempt <= maxAttempts; attempt++ {
		resp, err := f.fetch(ctx, url)
		if err == nil {
			return newPage(resp), nil
		}

		f.discard(resp)
		last = err

		if !isTemporary(err) {
			if notFound(err) {
				return nil, nil
			}
			return nil, err
		}

		if err := f.backoff(ctx, attempt); err != nil {
			return nil, err
		}
	}

	return nil, fmt.Errorf("ant: max attempts of %d reached - %w", maxAttempts, last)
}

// NewPage returns a page of the response.
func newPage(resp *http.Response) *Page {
	return &Page{
		URL:    resp.Request.URL,
		Header: resp.Header,
		body:   resp.Body,
	}
}

// NotFound returns true if the page does not exist.
func notFound(err error) bool {
	ferr, ok := err.(*FetchError)
	return ok && ferr.Status == http.StatusNotFound
}
'''))
ok((F, '''		f.discard(resp)
		if isTemporary(err) {
			if err := f.backoff(ctx, attempt); err != nil {
				return nil, err
			}
			continue
		}

		if err, ok := err.(*FetchError); ok {
			if err.Status == 404 {
				return nil, nil
			}
		}

		return nil, err
	}
''', '''		f.discard(resp)

		var ferr *FetchError
		switch {
		case isTemporary(err):
			if err := f.backoff(ctx, attempt); err != nil {
				return nil, err
			}
		case errors.As(err, &ferr) && ferr.Status == 404:
			return nil, nil
		default:
			return nil, err
		}
	}
'''))
ok((F, '''	var client = f.client()

	req, err := http.NewRequestWithContext(ctx, "GET", url.String(), nil)
	if err != nil {
		return nil, fmt.Errorf("ant: new request - %w", err)
	}

	for k, v := range f.headers() {
		req.Header[k] = v
	}

	resp, err := client.Do(req)

	if err != nil {
		return resp, fmt.Errorf("ant: %s %q - %w", req.Method, req.URL, err)
	}

	if resp.StatusCode >= 400 {
		return resp, &FetchError{
			URL:    resp.Request.URL,
			Status: resp.StatusCode,
		}
	}

	return resp, nil
}
''', '''	req, err := f.request(ctx, url)
	if err != nil {
		return nil, err
	}

	resp, err := f.client().Do(req)
	if err != nil {
		return resp, fmt.Errorf("ant: %s %q - %w", req.Method, req.URL, err)
	}

	return resp, check(resp)
}

// Request returns a new request for the URL.
func (f *Fetcher) request(ctx context.Context, url *URL) (*http.Request, error) {
	req, err := http.NewRequestWithContext(ctx, http.MethodGet, url.String(), nil)
	if err != nil {
		return nil, fmt.Errorf("ant: new request - %w", err)
	}
	req.Header = f.headers()
	return req, nil
}

// Check returns an error if the response is one.
func check(resp *http.Response) error {
	if resp.StatusCode < 400 {
		return nil
	}
	return &FetchError{URL: resp.Request.URL, Status: resp.StatusCode}
}
'''))
ok((F, '''	var hdr = make(http.Header)

	hdr.Set("Accept", "text/html; charset=UTF-8")
	hdr.Set("User-Agent", f.userAgent())

	return hdr
}
''', '''	return http.Header{
		"Accept":     []string{"text/html; charset=UTF-8"},
		"User-Agent": []string{f.userAgent()},
	}
}
'''))
ok((F, '''	for k, v := range f.headers() {
		req.Header[k] = v
	}
''', '''	req.Header.Set("Accept", "text/html; charset=UTF-8")
	req.Header.Set("User-Agent", f.userAgent())
'''), (F, '''// Headers returns all headers.
func (f *Fetcher) headers() http.Header {
	var hdr = make(http.Header)

	hdr.Set("Accept", "text/html; charset=UTF-8")
	hdr.Set("User-Agent", f.userAgent())

	return hdr
}

''', ''))
ok((F, '''	var min = f.minBackoff()
	var max = f.maxBackoff()
	var dur = time.Duration(attempt*attempt) * min

	if min >= max {
		return fmt.Errorf("ant: min backoff must be greater than max backoff")
	}

	if dur > max {
		dur = max
	}

	var timer = time.NewTimer(dur)
''', '''	dur, err := f.delay(attempt)
	if err != nil {
		return err
	}

	var timer = time.NewTimer(dur)
'''), (F, '''// MinBackoff returns the min backoff.
func (f *Fetcher) minBackoff''', '''// Delay returns how long to wait after attempt.
func (f *Fetcher) delay(attempt int) (time.Duration, error) {
	lo, hi := f.minBackoff(), f.maxBackoff()
	if lo >= hi {
		return 0, fmt.Errorf("ant: min backoff must be greater than max backoff")
	}
	return min(hi, lo*time.Duration(attempt*attempt)), nil
}

// MinBackoff returns the min backoff.
func (f *Fetcher) minBackoff'''))
ok((F, '''	return err.Status == 503 || // Service Unavailable.
		err.Status == 504 || // Gateway Timeout.
		err.Status == 429 // Too many requests.
}
''', '''	switch err.Status {
	case http.StatusServiceUnavailable, http.StatusGatewayTimeout, http.StatusTooManyRequests:
		return true
	}
	return false
}
'''))
ok((F, '''	if ua := f.UserAgent; ua != nil {
		return ua.String()
	}
	return UserAgent.String()
}
''', '''	ua := f.UserAgent
	if ua == nil {
		ua = UserAgent
	}
	return ua.String()
}
'''), (F, '''	if f.Client != nil {
		return f.Client
	}
	return DefaultClient
}
''', '''	var c Client = DefaultClient
	if f.Client != nil {
		c = f.Client
	}
	return c
}
'''))
# --- queue
ok((Q, '''	if mq.stopped {
		return io.EOF
	}

	if ctx.Err() != nil {
		return ctx.Err()
	}

	mq.pending = append(mq.pending, urls...)
	mq.wg.Add(len(urls))
	mq.cond.Broadcast()

	return nil
}
''', '''	if mq.stopped {
		return io.EOF
	}

	if err := ctx.Err(); err != nil {
		return err
	}

	mq.wg.Add(len(urls))
	mq.pending = append(mq.pending, urls...)

	defer mq.cond.Broadcast()
	return nil
}
'''))
ok((Q, '''	for len(mq.pending) == 0 {
		if mq.stopped {
			return nil, io.EOF
		}
		if err := ctx.Err(); err != nil {
			return nil, err
		}
		mq.cond.Wait()
	}

	url := mq.pending[0]
	mq.pending = mq.pending[1:]

	return url, nil
}
''', '''	for {
		switch {
		case len(mq.pending) > 0:
			url := mq.pending[0]
			mq.pending = mq.pending[1:]
			return url, nil
		case mq.stopped:
			return nil, io.EOF
		case ctx.Err() != nil:
			return nil, ctx.Err()
		}
		mq.cond.Wait()
	}
}
'''))
ok((Q, '''	for range mq.pending {
		mq.wg.Done()
	}

	mq.stopped = true
	mq.pending = mq.pending[:0]
	mq.cond.Broadcast()
	return nil
}''', '''	mq.stopped = true
	for n := len(mq.pending); n > 0; n-- {
		mq.wg.Done()
	}
	mq.pending = nil
	mq.cond.Broadcast()
	return nil
}'''))
ok((Q, '''	for range mq.pending {
		mq.wg.Done()
	}

	mq.stopped = true
	mq.pending = mq.pending[:0]
	mq.cond.Broadcast()
	return nil
}''', '''	mq.stopped = true
	mq.discard()
	mq.cond.Broadcast()
	return nil
}

// Discard discards all pending URLs.
func (mq *memoryQueue) discard() {
	for len(mq.pending) > 0 {
		mq.pending = mq.pending[1:]
		mq.wg.Done()
	}
}'''))
# --- dedupe, limiters, matchers
ok(('dedupe.go', '''	for _, u := range urls {
		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {
			ret = append(ret, u)
		}
	}

	return ret, nil
}
''', '''	for _, u := range urls {
		_, exists := d.m.LoadOrStore(u.String(), struct{}{})
		if exists {
			continue
		}
		ret = append(ret, u)
	}

	return ret, nil
}
'''), ('dedupe.go', '''	for _, u := range urls {
		v := []byte(u.String())
		if !d.filter.Test(v) {
			d.filter.Add(v)
			ret = append(ret, u)
		}
	}

	return ret, nil
}
''', '''	for i := range urls {
		if v := []byte(urls[i].String()); !d.filter.TestAndAdd(v) {
			ret = append(ret, urls[i])
		}
	}

	return ret, nil
}
'''))
ok(('limiters.go', '''	re, err := regexp.Compile(expr)
	if err != nil {
		panic(fmt.Sprintf("ant: regexp %q - %s", expr, err))
	}

	return func(ctx context.Context, u *url.URL) error {
		if re.MatchString(u.Host + normalizePath(u.Path)) {
			return l.Wait(ctx)
		}
		return nil
	}
}
''', '''	re := compile(expr)

	return func(ctx context.Context, u *url.URL) error {
		if !re.MatchString(text(u)) {
			return nil
		}
		return l.Wait(ctx)
	}
}

// Compile compiles the expression.
func compile(expr string) *regexp.Regexp {
	re, err := regexp.Compile(expr)
	if err != nil {
		panic(fmt.Sprintf("ant: regexp %q - %s", expr, err))
	}
	return re
}

// Text returns what patterns are matched against.
func text(u *url.URL) string {
	return u.Host + normalizePath(u.Path)
}
'''), ('matchers.go', '''	re, err := regexp.Compile(expr)
	if err != nil {
		panic(fmt.Sprintf("ant: regexp %q - %s", expr, err))
	}
	return func(url *url.URL) bool {
		return re.MatchString(url.Host + normalizePath(url.Path))
	}
''', '''	re := compile(expr)
	return func(url *url.URL) bool { return re.MatchString(text(url)) }
'''), ('matchers.go', '''	"fmt"
''', ''), ('matchers.go', '''	"regexp"
''', ''))
# --- robots
ok(('internal/robots/cache.go', '''	if v, ok := c.lru.Get(url.Host); ok {
		return v.(*Host), nil
	}

	rawurl := url.Scheme + "://" + url.Host + "/robots.txt"
	req, err := http.NewRequestWithContext(ctx, "GET", rawurl, nil)
	if err != nil {
		return nil, fmt.Errorf("robots: new request - %w", err)
	}

	if ua != "" {
		req.Header.Set("User-Agent", ua)
	}

	resp, err := c.client.Do(req)
	if err != nil {
		return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)
	}
	defer resp.Body.Close()

	if resp.StatusCode >= 400 {
		s := &Host{}
		c.lru.Set(url.Host, s)
		return s, nil
	}

	data, err := robotstxt.FromResponse(resp)
	if err != nil {
		return nil, fmt.Errorf("robots: parse robots.txt - %w", err)
	}

	s := &Host{data: data}
	c.lru.Set(url.Host, s)
	return s, nil
}
''', '''	if v, ok := c.lru.Get(url.Host); ok {
		return v.(*Host), nil
	}

	data, err := c.fetch(ctx, url, ua)
	if err != nil {
		return nil, err
	}

	s := &Host{data: data}
	c.lru.Set(url.Host, s)
	return s, nil
}

// Fetch fetches the robots.txt of the url's host, it is nil if there is none.
func (c *Cache) fetch(ctx context.Context, url *url.URL, ua string) (*robotstxt.RobotsData, error) {
	rawurl := url.Scheme + "://" + url.Host + "/robots.txt"

	req, err := http.NewRequestWithContext(ctx, "GET", rawurl, nil)
	if err != nil {
		return nil, fmt.Errorf("robots: new request - %w", err)
	}

	if len(ua) > 0 {
		req.Header.Set("User-Agent", ua)
	}

	resp, err := c.client.Do(req)
	if err != nil {
		return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)
	}
	defer resp.Body.Close()

	if resp.StatusCode >= 400 {
		return nil, nil
	}

	data, err := robotstxt.FromResponse(resp)
	if err != nil {
		return nil, fmt.Errorf("robots: parse robots.txt - %w", err)
	}
	return data, nil
}
'''))
ok(('internal/robots/cache.go', '''	var path = req.URL.Path
	var ua = req.userAgent()

	if len(path) == 0 || path[0] != '/' {
		path = "/" + path
	}

	// Rules may match on the query.
	if q := req.URL.RawQuery; q != "" {
		path += "?" + q
	}

	host, err := c.lookup(ctx, req.URL, req.UserAgent)
	if err != nil {
		return false, err
	}

	return host.test(path, ua), nil
}
''', '''	host, err := c.lookup(ctx, req.URL, req.UserAgent)
	if err != nil {
		return false, err
	}
	return host.test(req.path(), req.userAgent()), nil
}

// Path returns the path that rules are matched against.
func (r Request) path() string {
	var path = r.URL.Path

	if !strings.HasPrefix(path, "/") {
		path = "/" + path
	}

	if r.URL.RawQuery == "" {
		return path
	}
	return path + "?" + r.URL.RawQuery
}
'''), ('internal/robots/cache.go', '''	"net/url"
''', '''	"net/url"
	"strings"
'''))
ok(('internal/robots/cache.go', '''	if g, ok := host.find(ua); ok {
		if d := g.CrawlDelay; d > 0 {
			t := time.NewTimer(d)
			defer t.Stop()
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-t.C:
				return nil
			}
		}
	}

	return nil
}
''', '''	d := host.delay(ua)
	if d <= 0 {
		return nil
	}

	t := time.NewTimer(d)
	defer t.Stop()

	select {
	case <-t.C:
	case <-ctx.Done():
		return ctx.Err()
	}
	return nil
}

// Delay returns the crawl delay of the user agent.
func (h *Host) delay(ua string) time.Duration {
	if g, ok := h.find(ua); ok {
		return g.CrawlDelay
	}
	return 0
}
'''))
# --- memstore
ok(('antcache/memstore.go', '''	c sync.Map
}
''', '''	mutex sync.RWMutex
	items map[uint64][]byte
}
'''), ('antcache/memstore.go', '''	m.c.Store(key, value)
	return nil
''', '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	if m.items == nil {
		m.items = make(map[uint64][]byte)
	}
	m.items[key] = value
	return nil
'''), ('antcache/memstore.go', '''	if v, ok := m.c.Load(key); ok {
		return v.([]byte), nil
	}
	return nil, nil
''', '''	m.mutex.RLock()
	defer m.mutex.RUnlock()
	return m.items[key], nil
'''))
# --- disk
D = 'antcache/disk.go'
ok((D, '''		names, err := d.dir.Readdirnames(5)

		for _, name := range names {
			var path = filepath.Join(d.path, name)

			if filepath.Ext(path) == "tmp" {
				continue
			}

			n, err := strconv.ParseUint(name, 10, 64)
			if err != nil {
				log.Printf("antcache: disk cache invalid entry - %s", name)
				continue
			}

			stat, err := os.Stat(path)
			if err != nil {
				log.Printf("antcache: disk stat %s - %s", path, err)
				continue
			}

			files = append(files, file{
				key:   n,
				path:  path,
				size:  stat.Size(),
				mtime: stat.ModTime(),
			})
		}
''', '''		names, err := d.dir.Readdirnames(5)

		for _, name := range names {
			f, err := d.stat(name)
			if err != nil {
				log.Printf("antcache: disk cache entry %s - %s", name, err)
				continue
			}
			files = append(files, f)
		}
'''), (D, '''// Sweeper sweeps the directory.
//
// Every''', '''// Stat returns the file of the given name.
func (d *Diskstore) stat(name string) (file, error) {
	key, err := strconv.ParseUint(name, 10, 64)
	if err != nil {
		return file{}, err
	}

	path := filepath.Join(d.path, name)
	stat, err := os.Stat(path)
	if err != nil {
		return file{}, err
	}

	return newFile(key, path, stat), nil
}

// NewFile returns a new file.
func newFile(key uint64, path string, stat os.FileInfo) file {
	return file{
		key:   key,
		path:  path,
		size:  stat.Size(),
		mtime: stat.ModTime(),
	}
}

// Sweeper sweeps the directory.
//
// Every'''), (D, '''	d.ready[key] = file{
		key:   key,
		path:  newpath,
		size:  stat.Size(),
		mtime: stat.ModTime(),
	}

	return nil
''', '''	d.ready[key] = newFile(key, newpath, stat)
	return nil
'''))
ok((D, '''	var files = d.files()
	var now = d.now()
	var removed int
	var remove []file
	var sum int64

	sort.Slice(files, func(i, j int) bool {
		a := files[i].mtime
		b := files[j].mtime
		return b.Before(a)
	})

	for _, f := range files {
		if d.maxage > 0 {
			if now.Sub(f.mtime) > d.maxage {
				remove = append(remove, f)
				continue
			}
		}

		if d.maxsize > 0 {
			if sum += f.size; sum > d.maxsize {
				remove = append(remove, f)
				sum -= f.size
			}
		}
	}

	d.readymu.Lock()
''', '''	var removed int
	var remove = d.expired()

	d.readymu.Lock()
'''), (D, '''// Files returns the files.
''', '''// Expired returns the files to remove.
func (d *Diskstore) expired() (remove []file) {
	var now = d.now()
	var files = d.files()
	var sum int64

	sort.Slice(files, func(i, j int) bool {
		return files[j].mtime.Before(files[i].mtime)
	})

	for _, f := range files {
		switch {
		case d.maxage > 0 && now.Sub(f.mtime) > d.maxage:
			remove = append(remove, f)
		case d.maxsize <= 0:
		case sum+f.size > d.maxsize:
			remove = append(remove, f)
		default:
			sum += f.size
		}
	}
	return remove
}

// Files returns the files.
'''))
ok((D, '''	for _, f := range remove {
		if cur, ok := d.ready[f.key]; ok && cur == f {
			if err := os.Remove(f.path); err != nil && !errors.Is(err, os.ErrNotExist) {
				log.Printf("antcache: disk remove - %s", err)
				continue
			}
			delete(d.ready, f.key)
			removed++
		}
	}
''', '''	for _, f := range remove {
		cur, ok := d.ready[f.key]
		if !ok || cur != f {
			continue
		}

		err := os.Remove(f.path)
		if err != nil && !errors.Is(err, os.ErrNotExist) {
			log.Printf("antcache: disk remove - %s", err)
			continue
		}

		removed++
		delete(d.ready, f.key)
	}
'''))
ok((D, '''	d.readymu.RLock()
	defer d.readymu.RUnlock()

	if f, ok := d.ready[key]; ok {
		if v, err = os.ReadFile(f.path); err != nil {
			return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, err)
		}
		d.debugf("load %d %s", key)
	}

	if v != nil && d.compress {
		if v, err = snappy.Decode(nil, v); err != nil {
			err = fmt.Errorf(
				"antcache: compress is on but snappy can't decode %s/%d - %w",
				d.path,
				key,
				err,
			)
		}
	}

	return
}
''', '''	v, err = d.read(key)
	if err != nil || v == nil || !d.compress {
		return v, err
	}

	dec, err := snappy.Decode(nil, v)
	if err != nil {
		return nil, fmt.Errorf(
			"antcache: compress is on but snappy can't decode %s/%d - %w",
			d.path,
			key,
			err,
		)
	}
	return dec, nil
}

// Read reads the file of the key, if any.
func (d *Diskstore) read(key uint64) ([]byte, error) {
	d.readymu.RLock()
	defer d.readymu.RUnlock()

	f, ok := d.ready[key]
	if !ok {
		return nil, nil
	}

	v, err := os.ReadFile(f.path)
	if err != nil {
		return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, err)
	}

	d.debugf("load %d", key)
	return v, nil
}
'''))
ok((D, '''	cleanup := func() {
		f.Close()
		os.Remove(f.Name())
	}

	if d.compress {
		v = snappy.Encode(nil, v)
	}

	if _, err := f.Write(v); err != nil {
		cleanup()
		return fmt.Errorf("antcache: disk write - %w", err)
	}

	if err := f.Sync(); err != nil {
		cleanup()
		return fmt.Errorf("antcache: disk fsync - %w", err)
	}

	if err := d.add(key, f); err != nil {
		cleanup()
		return fmt.Errorf("antcache: add - %w", err)
	}

	d.debugf("store %d", key)
	return nil
}
''', '''	if err := d.write(key, f, v); err != nil {
		f.Close()
		os.Remove(f.Name())
		return err
	}

	d.debugf("store %d", key)
	return nil
}

// Write writes the value to the file and adds it.
func (d *Diskstore) write(key uint64, f *os.File, v []byte) error {
	if d.compress {
		v = snappy.Encode(nil, v)
	}

	if _, err := f.Write(v); err != nil {
		return fmt.Errorf("antcache: disk write - %w", err)
	}

	if err := f.Sync(); err != nil {
		return fmt.Errorf("antcache: disk fsync - %w", err)
	}

	if err := d.add(key, f); err != nil {
		return fmt.Errorf("antcache: add - %w", err)
	}
	return nil
}
'''))
ok((D, '''	f, err := os.Open(d.path)
	if err != nil {
		return fmt.Errorf("antcache: disk %w", err)
	}

	stat, err := f.Stat()
	if err != nil {
		f.Close()
		return fmt.Errorf("antcache: disk stat %q - %w", d.path, err)
	}

	if !stat.IsDir() {
		f.Close()
		return fmt.Errorf("antcache: disk expected a directory")
	}

	d.debugf("opened root %s", d.path)
	d.dir = f
	return nil
}
''', '''	f, err := os.Open(d.path)
	if err != nil {
		return fmt.Errorf("antcache: disk %w", err)
	}

	if err := isDir(f); err != nil {
		f.Close()
		return err
	}

	d.dir = f
	d.debugf("opened root %s", d.path)
	return nil
}

// IsDir returns an error if f is no directory.
func isDir(f *os.File) error {
	stat, err := f.Stat()
	if err != nil {
		return fmt.Errorf("antcache: disk stat %q - %w", f.Name(), err)
	}
	if !stat.IsDir() {
		return fmt.Errorf("antcache: disk expected a directory")
	}
	return nil
}
'''))
# --- http cache
H = 'antcache/httpcache.go'
ok((H, '''	if !c.strategy.cache(req) {
		return c.client.Do(req)
	}

	var key = keyof(req)

	resp, err := c.load(key, req)
	if err != nil {
		return nil, err
	}
	if resp != nil {
		resp.Header.Set("X-From-Cache", "1")
		return resp, nil
	}

	resp, err = c.client.Do(req)
	if err != nil {
		return nil, err
	}

	if c.strategy.store(resp) {
		c.store(key, resp)
	}

	return resp, nil
}
''', '''	if !c.strategy.cache(req) {
		return c.client.Do(req)
	}

	var key = keyof(req)

	if resp, err := c.load(key, req); err != nil {
		return nil, err
	} else if resp != nil {
		resp.Header.Set("X-From-Cache", "1")
		return resp, nil
	}

	return c.fetch(key, req)
}

// Fetch fetches and stores a response.
func (c *Cache) fetch(key uint64, req *http.Request) (*http.Response, error) {
	resp, err := c.client.Do(req)
	if err == nil && c.strategy.store(resp) {
		c.store(key, resp)
	}
	if err != nil {
		return nil, err
	}
	return resp, nil
}
'''))
ok((H, '''	if etag := hdr.Get("ETag"); etag != "" {
		if req.Header.Get("If-None-Match") == "" {
			req.Header.Set("If-None-Match", etag)
		}
	}

	if t := hdr.Get("Last-Modified"); t != "" {
		if req.Header.Get("If-Modified-Since") == "" {
			req.Header.Set("If-Modified-Since", t)
		}
	}
''', '''	for _, v := range [...]struct{ from, to string }{
		{"ETag", "If-None-Match"},
		{"Last-Modified", "If-Modified-Since"},
	} {
		if s := hdr.Get(v.from); s != "" && req.Header.Get(v.to) == "" {
			req.Header.Set(v.to, s)
		}
	}
'''))
ok((H, '''	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
		reqd := directivesFrom(req.Header)
		if reqd.has("stale-if-error") {
			c.discard(newresp)
			return resp, nil
		}
		return newresp, nil
	}

	// A 304 (Not Modified) response status code indicates that the
	// stored response can be updated and reused; see Section 4.3.4.
	if newresp.StatusCode == 304 {
		c.discard(newresp)
		merge(resp.Header, newresp.Header)
		c.store(key, resp)
		return resp, nil
	}

	// A full response (i.e., one with a payload body) indicates that
	// none of the stored responses nominated in the conditional request
	// is suitable.  Instead, the cache MUST use the full response to
	// satisfy the request and MAY replace the stored response(s).
	if c.strategy.store(newresp) {
		c.discard(resp)
		c.store(key, newresp)
		return newresp, nil
	}

	// Verification failed, cleanup and close the response readers.
	c.discard(newresp)
	c.discard(resp)
	return nil, nil
}
''', '''	switch code := newresp.StatusCode; {
	case code >= 500 && code <= 599:
		if !directivesFrom(req.Header).has("stale-if-error") {
			return newresp, nil
		}
		c.discard(newresp)
		return resp, nil

	case code == http.StatusNotModified:
		merge(resp.Header, newresp.Header)
		c.discard(newresp)
		c.store(key, resp)
		return resp, nil

	case c.strategy.store(newresp):
		c.store(key, newresp)
		c.discard(resp)
		return newresp, nil

	default:
		c.discard(resp)
		c.discard(newresp)
		return nil, nil
	}
}
'''))
ok((H, '''	b := bytes.NewBuffer(buf)
	r := bufio.NewReader(b)

	resp, err := http.ReadResponse(r, req)
	if err != nil {
		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
	}

	switch c.strategy.fresh(resp) {
	case fresh:
		return resp, nil

	case stale:
		return c.verify(ctx, key, resp)
	}

	return nil, nil
}
''', '''	resp, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(buf)), req)
	if err != nil {
		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
	}

	f := c.strategy.fresh(resp)
	if f == transparent {
		return nil, nil
	}
	if f == stale {
		return c.verify(ctx, key, resp)
	}
	return resp, nil
}
'''))
R = 'antcache/rfc7234.go'
ok((R, '''	// The request method is cacheable.
	switch req.Method {
	case "GET":
	case "HEAD":
	default:
		return false
	}

	// The response status code is cacheable.
	switch resp.StatusCode {
	case 200, 203, 204, 206:
	case 300, 301:
	case 404, 405, 410, 414:
	case 501:
	default:
		return false
	}
''', '''	if !storable(req.Method, resp.StatusCode) {
		return false
	}
'''), ('antcache/aggressive.go', '''	switch req.Method {
	case "GET":
	case "HEAD":
	default:
		return false
	}
''', '''	if !storable(req.Method, resp.StatusCode) {
		return false
	}
'''), ('antcache/utils.go', '''package antcache
''', '''package antcache

// Storable returns true if responses may be stored.
func storable(method string, status int) bool {
	if method != "GET" && method != "HEAD" {
		return false
	}
	switch status {
	case 200, 203, 204, 206, 300, 301, 404, 405, 410, 414, 501:
		return true
	}
	return false
}
''') if False else ('antcache/directives.go', '''const maxseconds = 1 << 31
''', '''const maxseconds = 1 << 31

// Storable returns true if responses may be stored.
func storable(method string, status int) bool {
	if method != "GET" && method != "HEAD" {
		return false
	}
	switch status {
	case 200, 203, 204, 206, 300, 301, 404, 405, 410, 414, 501:
		return true
	}
	return false
}
'''))
ok((R, '''	if d, ok := date(resp.Header); ok {
		if maxage, ok := resd.duration("max-age"); ok {
			return maxage > 0
		}

		if exp, ok := expires(resp.Header); ok {
			return exp.Sub(d) > 0
		}
	}

	// The response has an explicit "lifetime" duration.
	return false
}
''', '''	d, ok := date(resp.Header)
	if !ok {
		return false
	}
	lifetime, ok := explicit(resp.Header, resd, d)
	return ok && lifetime > 0
}

// Explicit returns the explicit lifetime of a response.
func explicit(h http.Header, d directives, date time.Time) (time.Duration, bool) {
	if maxage, ok := d.duration("max-age"); ok {
		return maxage, true
	}
	if exp, ok := expires(h); ok {
		return exp.Sub(date), true
	}
	return 0, false
}
'''), (R, '''		var lifetime time.Duration
		var explicit bool

		if maxage, ok := resd.duration("max-age"); ok {
			lifetime, explicit = maxage, true
		} else if exp, ok := expires(resp.Header); ok {
			lifetime, explicit = exp.Sub(d), true
		}

		if maxage, ok := reqd.duration("max-age"); ok {
			if !explicit || maxage < lifetime {
				lifetime = maxage
			}
		}
''', '''		lifetime, known := explicit(resp.Header, resd, d)

		if maxage, ok := reqd.duration("max-age"); ok && (!known || maxage < lifetime) {
			lifetime = maxage
		}
'''))
ok((R, '''		if reqd.has("max-stale") {
			ms, ok := reqd.duration("max-stale")

			if !ok {
				return fresh
			}

			age -= ms
		}

		if lifetime > age {
			return fresh
		}
	}
''', '''		if ms, ok := reqd.duration("max-stale"); ok {
			age -= ms
		} else if reqd.has("max-stale") {
			return fresh
		}

		if age < lifetime {
			return fresh
		}
	}
'''))
U = 'antcache/utils.go'
ok((U, '''	var c = strings.Join(h.Values("Cache-Control"), ",")

	for _, v := range split(c, ",") {
		if v == "no-store" {
			return true
		}
	}

	return false
}
''', '''	return directivesFrom(h).has("no-store")
}
'''))
ok((U, '''	if v := h.Get("Expires"); v != "" {
		t, err := time.Parse(time.RFC1123, v)
		expires, ok = t, (err == nil && !t.IsZero())
	}
	return
}
''', '''	return parseTime(h.Get("Expires"))
}

// ParseTime parses the time of a header.
func parseTime(v string) (time.Time, bool) {
	if v == "" {
		return time.Time{}, false
	}
	t, err := time.Parse(time.RFC1123, v)
	return t, err == nil && !t.IsZero()
}
'''), (U, '''	if v := h.Get("Date"); v != "" {
		t, err := time.Parse(time.RFC1123, v)
		date, ok = t, (err == nil && !t.IsZero())
	}
	return
}
''', '''	return parseTime(h.Get("Date"))
}
'''))
C = 'antcache/cachereader.go'
ok((C, '''	cr.once.Do(func() {
		// The rest of the body is unknown, a truncated response
		// must not be stored.
		if !cr.eof && cr.rc != http.NoBody {
			return
		}

		resp := *cr.resp

		r := bytes.NewReader(cr.buf.Bytes())
		resp.Body = io.NopCloser(r)

		buf, err := httputil.DumpResponse(&resp, true)
		if err != nil {
			cerr = multierror.Append(cerr, fmt.Errorf(
				`antcache: dump response %q - %w`,
				resp.Request.URL,
				err,
			))
			return
		}

		if err := cr.store(cr.ctx, cr.key, buf); err != nil {
			cerr = multierror.Append(cerr, fmt.Errorf(
				`antcache: store %d - %w`,
				cr.key,
				err,
			))
		}
	})

	return cerr
}
''', '''	cr.once.Do(func() {
		if cr.complete() {
			if err := cr.save(); err != nil {
				cerr = multierror.Append(cerr, err)
			}
		}
	})

	return cerr
}

// Complete returns true if the body was read to its end.
func (cr *cachereader) complete() bool {
	return cr.eof || cr.rc == http.NoBody
}

// Save stores the response.
func (cr *cachereader) save() error {
	buf, err := cr.dump()
	if err != nil {
		return fmt.Errorf(`antcache: dump response %q - %w`, cr.resp.Request.URL, err)
	}

	if err := cr.store(cr.ctx, cr.key, buf); err != nil {
		return fmt.Errorf(`antcache: store %d - %w`, cr.key, err)
	}
	return nil
}

// Dump dumps the response with the body that was read.
func (cr *cachereader) dump() ([]byte, error) {
	resp := *cr.resp
	resp.Body = io.NopCloser(bytes.NewReader(cr.buf.Bytes()))
	return httputil.DumpResponse(&resp, true)
}
'''))
# --- normalize
N = 'internal/normalize/url.go'
ok((N, '''	if j := strings.LastIndexByte(host, ':'); j != -1 {
		switch port := host[j+1:]; {
		case u.Scheme == "http" && port == "80":
			return host[:j]
		case u.Scheme == "https" && port == "443":
			return host[:j]
		}
	}

	return host
}
''', '''	switch u.Scheme {
	case "http":
		return strings.TrimSuffix(host, ":80")
	case "https":
		return strings.TrimSuffix(host, ":443")
	}
	return host
}
'''), (N, '''	if query != "" {
		parts := strings.Split(query, "&")
		sort.Strings(parts)
		return strings.Join(parts, "&")
	}
	return ""
}''', '''	parts := strings.Split(query, "&")
	sort.Strings(parts)
	return strings.Join(parts, "&")
}'''))
# --- scan
S = 'internal/scan/scan.go'
_read = '''		var str string

		if opts.Selector != nil {
			src = opts.Selector.MatchFirst(src)
		}

		if opts.Attr != "" {
			str, _ = Attr(src, opts.Attr)
		} else {
			str = Text(src)
		}

'''
_s = open('/repo/internal/scan/scan.go').read()
def scan_ok():
    out = _s.replace(_read, '		str := opts.read(src)\n').replace('''		if opts.Selector != nil {
			src = opts.Selector.MatchFirst(src)
		}

		if opts.Attr != "" {
			t, _ := Attr(src, opts.Attr)
			dst.SetString(t)
		} else {
			dst.SetString(Text(src))
		}

		return nil
''', '''		dst.SetString(opts.read(src))
		return nil
''') + '''
// read reads the string to scan.
func (o Options) read(src *html.Node) string {
	if o.Selector != nil {
		src = o.Selector.MatchFirst(src)
	}
	if o.Attr == "" {
		return Text(src)
	}
	s, _ := Attr(src, o.Attr)
	return s
}
'''
    return (S, _s, out)
ok(scan_ok())
ok(('internal/scan/scanner.go', '''	var v = reflect.ValueOf(dst)

	if v.Kind() != reflect.Ptr {
		return fmt.Errorf("scan: cannot scan into non ptr %T", dst)
	}

	if v.IsNil() {
		return fmt.Errorf("scan: cannot scan into nil %T", dst)
	}

	t := v.Type()

	f, ok := s.lookup(t)
	if !ok {
		scanFunc, err := s.register(t.Elem(), opts)
		if err != nil {
			return err
		}
		f = scanFunc
	}

	return f(v.Elem(), src)
}
''', '''	v := reflect.ValueOf(dst)

	switch {
	case v.Kind() != reflect.Ptr:
		return fmt.Errorf("scan: cannot scan into non ptr %T", dst)
	case v.IsNil():
		return fmt.Errorf("scan: cannot scan into nil %T", dst)
	}

	f, err := s.scanFunc(v.Type(), opts)
	if err != nil {
		return err
	}
	return f(v.Elem(), src)
}

// ScanFunc returns the function for a pointer of type t.
func (s *Scanner) scanFunc(t reflect.Type, opts Options) (ScanFunc, error) {
	if f, ok := s.lookup(t); ok {
		return f, nil
	}
	return s.register(t.Elem(), opts)
}
'''))
ok(('internal/scan/struct.go', '''	if ss.selector != nil {
		src = ss.selector.MatchFirst(src)
	}

	for _, f := range ss.fields {
		v := dst.FieldByIndex(f.index)
		if src == nil {
			v.Set(reflect.Zero(v.Type()))
			continue
		}
		if err := f.scan(v, src); err != nil {
			return err
		}
	}
	return nil
}''', '''	if ss.selector != nil {
		src = ss.selector.MatchFirst(src)
	}

	if src == nil {
		ss.zero(dst)
		return nil
	}

	for _, f := range ss.fields {
		if err := f.scan(dst.FieldByIndex(f.index), src); err != nil {
			return err
		}
	}
	return nil
}

// Zero sets all scanned fields to their zero value.
func (ss structScanner) zero(dst reflect.Value) {
	for _, f := range ss.fields {
		v := dst.FieldByIndex(f.index)
		v.Set(reflect.Zero(v.Type()))
	}
}'''))
# --- selectors
ok(('internal/selectors/selectors.go', '''	v, err := cascadia.Compile(selector)
	if err != nil {
		return nil, err
	}

	c.m.Store(selector, v)
	return v, nil
}''', '''	v, err := cascadia.Compile(selector)
	if err == nil {
		c.m.Store(selector, v)
	}
	return v, err
}'''))
# --- antcdp
T = 'antcdp/tx.go'
ok((T, '''			if event.Type != network.ResourceTypeDocument {
				continue
			}
			if id := event.FrameID; id != nil && *id != args.FrameID {
				continue
			}

			ids[event.RequestID] = struct{}{}
''', '''			if isMain(event.Type, event.FrameID, args.FrameID) {
				ids[event.RequestID] = struct{}{}
			}
'''), (T, '''			if event.Type != network.ResourceTypeDocument {
				continue
			}
			if id := event.FrameID; id != nil && *id != args.FrameID {
				continue
			}

			if err := tx.merge''', '''			if !isMain(event.Type, event.FrameID, args.FrameID) {
				continue
			}

			if err := tx.merge'''), (T, '''// Readbody''', '''// IsMain returns true if the event is about the document of the frame.
func isMain(typ network.ResourceType, id *page.FrameID, frame page.FrameID) bool {
	return typ == network.ResourceTypeDocument && (id == nil || *id == frame)
}

// Readbody'''))
ok((T, '''	if err := tx.client.Page.Enable(ctx); err != nil {
		return err
	}

	if err := tx.client.Network.Enable(ctx, nil); err != nil {
		return err
	}

	if err := tx.setHeaders(ctx); err != nil {
		return err
	}

	if err := tx.setCookies(ctx); err != nil {
		return err
	}

	reqc, err := tx.client.Network.RequestWillBeSent(ctx)
	if err != nil {
		return err
	}
	tx.events.req = reqc

	resc, err := tx.client.Network.ResponseReceived(ctx)
	if err != nil {
		return err
	}
	tx.events.res = resc

	ready, err := tx.client.Page.DOMContentEventFired(ctx)
	if err != nil {
		return err
	}
	tx.events.ready = ready

	return nil
}
''', '''	if err := tx.enable(ctx); err != nil {
		return err
	}

	if err := tx.setHeaders(ctx); err != nil {
		return err
	}

	if err := tx.setCookies(ctx); err != nil {
		return err
	}

	return tx.subscribe(ctx)
}

// Enable enables the domains.
func (tx *tx) enable(ctx context.Context) error {
	if err := tx.client.Page.Enable(ctx); err != nil {
		return err
	}
	return tx.client.Network.Enable(ctx, nil)
}

// Subscribe subscribes to the events.
func (tx *tx) subscribe(ctx context.Context) error {
	reqc, err := tx.client.Network.RequestWillBeSent(ctx)
	if err != nil {
		return err
	}
	tx.events.req = reqc

	resc, err := tx.client.Network.ResponseReceived(ctx)
	if err != nil {
		return err
	}
	tx.events.res = resc

	ready, err := tx.client.Page.DOMContentEventFired(ctx)
	if err != nil {
		return err
	}
	tx.events.ready = ready

	return nil
}
'''))
ok(('antcdp/transport.go', '''	defer t.pool.release(ctx, target)

	tx := &tx{
		request: req,
		target:  target,
	}

	defer func() {
		err = multierror.Append(err, tx.close())
	}()

	if err := tx.init(ctx); err != nil {
		return nil, err
	}

	resp, err := tx.do(ctx)
	if err != nil {
		return nil, err
	}

	return resp, nil
}''', '''	defer t.pool.release(ctx, target)

	return run(ctx, &tx{request: req, target: target})
}

// Run runs the transaction and closes it.
func run(ctx context.Context, tx *tx) (*http.Response, error) {
	defer tx.close()

	if err := tx.init(ctx); err != nil {
		return nil, err
	}
	return tx.do(ctx)
}'''), ('antcdp/transport.go', '''	"net/http"

	"github.com/hashicorp/go-multierror"
''', '''	"context"
	"net/http"
'''))
ok((T, '''	if tx.resp.Header == nil {
		tx.resp.Header = make(http.Header)
	}

	var (
		content = reply.OuterHTML
		size    = len(content)
		length  = strconv.Itoa(size)
		body    = io.NopCloser(strings.NewReader(content))
	)

	tx.resp.Body = body
	tx.resp.ContentLength = int64(size)
	tx.resp.Header.Set("Content-Length", length)
	return nil
}
''', '''	content := reply.OuterHTML
	hdr := tx.header()
	hdr.Set("Content-Length", strconv.Itoa(len(content)))

	tx.resp.ContentLength = int64(len(content))
	tx.resp.Body = io.NopCloser(strings.NewReader(content))
	return nil
}

// Header returns the header of the response.
func (tx *tx) header() http.Header {
	if tx.resp.Header == nil {
		tx.resp.Header = make(http.Header)
	}
	return tx.resp.Header
}
'''), (T, '''		if tx.resp.Header == nil {
			tx.resp.Header = make(http.Header)
		}
		tx.resp.Header.Set(k, v)
	}
''', '''		tx.header().Set(k, v)
	}
'''))
ok(('antcdp/targets.go', '''	select {
	case v := <-t.targets:
		return v, nil

	case <-ctx.Done():
		return nil, ctx.Err()

	default:
		v, err := t.client.Create(ctx)
		if err != nil {
			return nil, fmt.Errorf("antcdp: create target - %w", err)
		}
		return v, nil
	}
}
''', '''	select {
	case v := <-t.targets:
		return v, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	default:
	}
	return t.create(ctx)
}

// Create creates a new target.
func (t *targets) create(ctx context.Context) (*devtool.Target, error) {
	v, err := t.client.Create(ctx)
	if err != nil {
		return nil, fmt.Errorf("antcdp: create target - %w", err)
	}
	return v, nil
}
'''))
# --- json, page
ok(('json.go', '''	if len(j.selectors) > 0 {
		var next URLs
		for _, sel := range j.selectors {
			urls, err := p.Next(sel)
			if err != nil {
				return nil, err
			}
			next = append(next, urls...)
		}
		return next, nil
	}

	return p.URLs(), nil
}
''', '''	return j.next(p)
}

// Next returns the next URLs.
func (j *jsonscraper) next(p *Page) (next URLs, err error) {
	if len(j.selectors) == 0 {
		return p.URLs(), nil
	}
	for i := 0; i < len(j.selectors); i++ {
		var urls URLs
		if urls, err = p.Next(j.selectors[i]); err != nil {
			return nil, err
		}
		next = append(next, urls...)
	}
	return next, nil
}
'''))
ok(('page.go', '''		if href, ok := scan.Attr(a, "href"); ok {
			u, err := url.Parse(href)
			if err != nil {
				continue
			}

			if !u.IsAbs() {
				u = p.URL.ResolveReference(u)
			}

			switch u.Scheme {
			case "https", "http":
				ret = append(ret, u)
			}
		}
	}
''', '''		href, ok := scan.Attr(a, "href")
		if !ok {
			continue
		}
		if u, err := p.URL.Parse(href); err == nil && isHTTP(u) {
			ret = append(ret, u)
		}
	}
'''), ('page.go', '''// Close closes the page's body.
''', '''// IsHTTP returns true if the scheme is http or https.
func isHTTP(u *url.URL) bool {
	return u.Scheme == "http" || u.Scheme == "https"
}

// Close closes the page's body.
'''))
ok(('page.go', '''	p.once.Do(func() {
		if p.root, p.err = html.Parse(p.body); p.err != nil {
			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)
		}
		p.close()
	})
	return p.err
}
''', '''	p.once.Do(func() {
		defer p.close()
		root, err := html.Parse(p.body)
		if err != nil {
			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, err)
			return
		}
		p.root = root
	})
	return p.err
}
'''))
