Q='queue.go'; J='json.go'; DK='antcache/disk.go'; F='fetcher.go'; L='limiters.go'; E='engine.go'; PG='page.go'; RC='internal/robots/cache.go'; TG='antcdp/targets.go'; TX='antcdp/tx.go'; TR='antcdp/transport.go'; H='antcache/httpcache.go'; CR='antcache/cachereader.go'
def m(kind, *edits):
    return ('G03', kind, list(edits))
IMPC=(E,'import (\n','import (\n	"time"\n')
MUT=[
 m('bad',(F,'http.NewRequestWithContext(ctx, "GET", url.String(), nil)','http.NewRequest("GET", url.String(), nil)')),
 m('bad',(RC,'http.NewRequestWithContext(ctx, "GET", rawurl, nil)','http.NewRequest("GET", rawurl, nil)')),
 m('bad',(RC,'http.NewRequestWithContext(ctx, "GET", rawurl, nil)','http.NewRequestWithContext(context.Background(), "GET", rawurl, nil)')),
 m('bad',(RC,'http.NewRequestWithContext(ctx, "GET", rawurl, nil)','http.NewRequestWithContext(context.WithoutCancel(ctx), "GET", rawurl, nil)')),
 m('bad',(F,'	var timer = time.NewTimer(dur)\n	defer timer.Stop()\n\n	select {\n	case <-timer.C:\n		return nil\n	case <-ctx.Done():\n		return ctx.Err()\n	}','	time.Sleep(dur)\n	return ctx.Err()')),
 m('bad',(F,'	var timer = time.NewTimer(dur)\n	defer timer.Stop()\n\n	select {\n	case <-timer.C:\n		return nil\n	case <-ctx.Done():\n		return ctx.Err()\n	}','	<-time.After(dur)\n	return ctx.Err()')),
 m('bad',(RC,'			select {\n			case <-ctx.Done():\n				return ctx.Err()\n			case <-t.C:\n				return nil\n			}','			<-t.C\n			return ctx.Err()')),
 m('bad',(L,'			return l.Wait(ctx)\n		}\n		return nil\n	}\n}\n\n// LimitPattern','			return l.Wait(context.Background())\n		}\n		return nil\n	}\n}\n\n// LimitPattern')),
 m('bad',(L,'			return l.Wait(ctx)\n		}\n		return nil\n	}\n}\n\n// LimitPattern','			time.Sleep(l.Reserve().Delay())\n		}\n		return nil\n	}\n}\n\n// LimitPattern'),(L,'	"regexp"\n','	"regexp"\n	"time"\n')),
 m('bad',(E,'eng.sema.Acquire(ctx, 1)','eng.sema.Acquire(context.Background(), 1)')),
 m('bad',(E,'eng.process(subctx, url)','eng.process(context.WithoutCancel(subctx), url)')),
 m('bad',(E,'	var eg, subctx = errgroup.WithContext(ctx)','	var eg, subctx = errgroup.WithContext(context.Background())')),
 m('bad',(E,'	eg, subctx := errgroup.WithContext(ctx)\n	for','	eg, subctx := errgroup.WithContext(context.WithoutCancel(ctx))\n	for')),
 m('bad',(E,'eng.queue.Enqueue(ctx, next)','eng.queue.Enqueue(context.TODO(), next)')),
 m('bad',(E,'	impolite bool\n','	impolite bool\n	ctx      context.Context\n'),(E,'	// Enqueue initial URLs.\n','	eng.ctx = ctx\n\n	// Enqueue initial URLs.\n'),(E,'eng.fetcher.Fetch(ctx, url)','eng.fetcher.Fetch(eng.ctx, url)')),
 m('bad',(H,'		ctx:   resp.Request.Context(),','		ctx:   context.Background(),')),
 m('bad',(H,'c.storage.Load(ctx, key)','c.storage.Load(context.Background(), key)')),
 m('bad',(H,'resp.Request.Clone(ctx)','resp.Request.Clone(context.Background())')),
 m('bad',(H,'http.ReadResponse(r, req)','http.ReadResponse(r, &http.Request{Method: req.Method, URL: req.URL, Header: req.Header})')),
 m('bad',(TR,'	var ctx = req.Context()','	var ctx = context.Background()'),(TR,'import (\n','import (\n	"context"\n')),
 m('bad',(TX,'rpcc.DialContext(ctx, url)','rpcc.Dial(url)')),
 m('bad',(TX,'tx.client.Page.Navigate(ctx, args)','tx.client.Page.Navigate(context.Background(), args)')),
 m('bad',(TG,'context.WithTimeout(context.WithoutCancel(ctx), closeTimeout)','context.WithCancel(context.WithoutCancel(ctx))')),
 m('bad',(TG,'t.client.Create(ctx)','t.client.Create(detach(ctx))'),(TG,'// Acquire attempts','func detach(ctx context.Context) context.Context {\n	c, _ := context.WithTimeout(context.Background(), time.Minute)\n	return c\n}\n\n// Acquire attempts')),
 m('bad',(TG,'t.client.Create(ctx)','t.create()'),(TG,'// Acquire attempts','func (t *targets) create() (*devtool.Target, error) {\n	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)\n	defer cancel()\n	return t.client.Create(ctx)\n}\n\n// Acquire attempts')),
 m('bad',(F,'	case <-ctx.Done():\n		return ctx.Err()\n	}','	case <-context.Background().Done():\n		return ctx.Err()\n	}')),
 m('bad',(CR,'cr.store(cr.ctx, cr.key, buf)','cr.store(context.WithoutCancel(cr.ctx), cr.key, buf)')),
 m('bad',(E,'	if err := eng.limit(ctx, url); err != nil {','	lctx := ctx\n	if eng.impolite {\n		lctx = context.Background()\n	}\n	if err := eng.limit(lctx, url); err != nil {')),
 m('bad',(E,'		eg.Go(func() error {\n			if eng.sema','		pctx := context.Background()\n		if url.Scheme == "http" {\n			pctx = subctx\n		}\n		eg.Go(func() error {\n			if eng.sema'),(E,'eng.process(subctx, url)','eng.process(pctx, url)')),
 m('bad',(RC,'	resp, err := c.client.Do(req)','	resp, err := c.client.Get(rawurl)')),
 # ok
 m('ok',(RC,'http.NewRequestWithContext(ctx, "GET", rawurl, nil)','http.NewRequest("GET", rawurl, nil)'),(RC,'	resp, err := c.client.Do(req)','	resp, err := c.client.Do(req.WithContext(ctx))')),
 m('ok',(F,'http.NewRequestWithContext(ctx, "GET", url.String(), nil)','newRequest(ctx, url)'),(F,'// Fetch fetches a new page','func newRequest(ctx context.Context, u *URL) (*http.Request, error) {\n	req, err := http.NewRequest("GET", u.String(), nil)\n	if err != nil {\n		return nil, err\n	}\n	return req.WithContext(ctx), nil\n}\n\n// Fetch fetches a new page')),
 m('ok',(F,'	var timer = time.NewTimer(dur)\n	defer timer.Stop()\n\n	select {\n	case <-timer.C:\n		return nil\n	case <-ctx.Done():\n		return ctx.Err()\n	}','	return sleep(ctx, dur)'),(F,'// MinBackoff returns','func sleep(ctx context.Context, d time.Duration) error {\n	done := ctx.Done()\n	timer := time.NewTimer(d)\n	defer timer.Stop()\n	select {\n	case <-done:\n		return ctx.Err()\n	case <-timer.C:\n		return nil\n	}\n}\n\n// MinBackoff returns')),
 m('ok',(F,'	var timer = time.NewTimer(dur)\n	defer timer.Stop()\n\n	select {\n	case <-timer.C:\n		return nil\n	case <-ctx.Done():\n		return ctx.Err()\n	}','	tctx, cancel := context.WithTimeout(ctx, dur)\n	defer cancel()\n	<-tctx.Done()\n	return ctx.Err()')),
 m('ok',(E,'eng.fetcher.Fetch(ctx, url)','eng.fetch(ctx, url)'),(E,'// Dedupe de-dup','func (eng *Engine) fetch(ctx context.Context, u *URL) (*Page, error) {\n	ctx, cancel := context.WithCancel(ctx)\n	_ = cancel\n	return eng.fetcher.Fetch(ctx, u)\n}\n\n// Dedupe de-dup')),
 m('ok',(TG,'context.WithTimeout(context.WithoutCancel(ctx), closeTimeout)','context.WithTimeout(context.Background(), closeTimeout)')),
 m('ok',(TG,'	ctx, cancel := context.WithTimeout(context.WithoutCancel(ctx), closeTimeout)\n	defer cancel()\n\n	if err := t.client.Close(ctx, target); err != nil {','	ctx, cancel := bounded(ctx)\n	defer cancel()\n\n	if err := t.client.Close(ctx, target); err != nil {'),(TG,'// Release releases','func bounded(ctx context.Context) (context.Context, context.CancelFunc) {\n	return context.WithTimeout(context.WithoutCancel(ctx), closeTimeout)\n}\n\n// Release releases')),
 m('ok',(H,'		ctx:   resp.Request.Context(),','		ctx:   req.Context(),'),(H,'func (c *Cache) store(key uint64, resp *http.Response) {\n','func (c *Cache) store(key uint64, resp *http.Response) {\n	req := resp.Request\n')),
 m('ok',(TR,'	var ctx = req.Context()\n','	ctx, cancel := context.WithCancel(req.Context())\n	defer cancel()\n'),(TR,'import (\n','import (\n	"context"\n')),
 m('ok',(H,'resp.Request.Clone(ctx)','resp.Request.WithContext(ctx)')),
 m('ok',(E,'		eg.Go(func() error {\n			if eng.sema','		pctx := subctx\n		eg.Go(func() error {\n			if eng.sema'),(E,'eng.process(subctx, url)','eng.process(pctx, url)')),
 m('ok',(TX,'rpcc.DialContext(ctx, url)','tx.dial(ctx, url)'),(TX,'// Do ','func (tx *tx) dial(ctx context.Context, url string) (*rpcc.Conn, error) {\n	return rpcc.DialContext(ctx, url)\n}\n\n// Do ')) if False else
 m('ok',(H,'	var ctx = req.Context()\n\n	buf, err := c.storage.Load(ctx, key)','	var ctx = req.Context()\n\n	buf, err := c.storage.Load(req.Context(), key)')),
]
