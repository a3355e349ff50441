Q='queue.go'; J='json.go'; DK='antcache/disk.go'; F='fetcher.go'; L='limiters.go'; E='engine.go'; PG='page.go'; RC='internal/robots/cache.go'; TG='antcdp/targets.go'; TX='antcdp/tx.go'; TR='antcdp/transport.go'; H='antcache/httpcache.go'; CR='antcache/cachereader.go'; SS='internal/scan/slice.go'; ST='internal/scan/struct.go'; N='internal/normalize/url.go'
def m(kind, *edits):
    return ('G04', kind, list(edits))
MUT=[
 m('bad',(E,'		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)','		return nil, fmt.Errorf("ant: fetch %q - %s", url, err)')),
 m('bad',(E,'		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)','		return nil, fmt.Errorf("ant: scrape %q - %v", url, err)')),
 m('bad',(E,'	if err != nil {\n		return nil, fmt.Errorf("ant: dedupe - %w", err)\n	}\n','	if err != nil {\n		return urls, nil\n	}\n')),
 m('bad',(E,'	if err := eng.queue.Enqueue(ctx, next); err != nil {\n		return err\n	}\n','	eng.queue.Enqueue(ctx, next)\n')),
 m('bad',(E,'	if err := eng.queue.Enqueue(ctx, next); err != nil {\n		return err\n	}\n','	if err := eng.queue.Enqueue(ctx, next); err != nil {\n		return io.ErrClosedPipe\n	}\n')),
 m('bad',(E,'		if err != nil {\n			return err\n		}\n		if !allowed {','		if err != nil {\n			return nil\n		}\n		if !allowed {')),
 m('bad',(E,'		if err != nil {\n			return err\n		}\n		if !allowed {','		if errors.Is(err, context.DeadlineExceeded) {\n			return nil\n		}\n		if err != nil {\n			return err\n		}\n		if !allowed {')),
 m('bad',(E,'			return fmt.Errorf("limit %q - %w", url, err)','			return nil')),
 m('bad',(E,'		if err != nil {\n			eg.Go(func() error { return err })\n			return eg.Wait()\n		}\n','		if err != nil {\n			return eg.Wait()\n		}\n')),
 m('bad',(E,'		if err != nil {\n			return fmt.Errorf("ant: parse url %q - %w", rawurl, err)\n		}\n','		if err != nil {\n			continue\n		}\n')),
 m('bad',(E,'			err := eng.process(subctx, url)\n			if err != nil {\n				// Stop the other workers too.\n				eng.queue.Close(ctx)\n			}\n			return err\n','			err := eng.process(subctx, url)\n			if err != nil {\n				// Stop the other workers too.\n				eng.queue.Close(ctx)\n			}\n			return nil\n')),
 m('bad',(F,'		return resp, fmt.Errorf("ant: %s %q - %w", req.Method, req.URL, err)','		return resp, fmt.Errorf("ant: %s %q - %s", req.Method, req.URL, err.Error())')),
 m('bad',(F,'	u, err := url.Parse(rawurl)\n	if err != nil {\n		return nil, err\n	}\n','	u, _ := url.Parse(rawurl)\n')),
 m('bad',(J,'		return nil, fmt.Errorf("ant: json encode %s - %w", j.typ, err)','		return nil, fmt.Errorf("ant: json encode %s", j.typ)')),
 m('bad',(J,'			if err != nil {\n				return nil, err\n			}\n			next =','			if err != nil {\n				continue\n			}\n			next =')),
 m('bad',(J,'	if err := p.Scan(v.Interface()); err != nil {\n		return nil, err\n	}\n','	if err := p.Scan(v.Interface()); err != nil {\n		return p.URLs(), nil\n	}\n')),
 m('bad',(H,'		return nil, fmt.Errorf("antcache: load %d - %w", key, err)','		return nil, nil')),
 m('bad',(H,'		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)','		return nil, nil')),
 m('bad',(H,'		return nil, fmt.Errorf("antcache: validate %d - %w", key, err)','		return resp, nil')),
 m('bad',(CR,'		if err := cr.store(cr.ctx, cr.key, buf); err != nil {\n			cerr = multierror.Append(cerr, fmt.Errorf(\n				`antcache: store %d - %w`,\n				cr.key,\n				err,\n			))\n		}\n','		cr.store(cr.ctx, cr.key, buf)\n')),
 m('bad',(CR,'				`antcache: store %d - %w`','				`antcache: store %d - %s`')),
 m('bad',(CR,'				`antcache: dump response %q - %w`','				`antcache: dump response %q - %v`')),
 m('bad',(DK,'		return fmt.Errorf("antcache: disk rename - %w", err)','		return fmt.Errorf("antcache: disk rename - %s", err)')),
 m('bad',(DK,'			return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, err)','			return nil, nil')),
 m('bad',(DK,'			return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, err)','			log.Printf("antcache: disk read - %s", err)\n			return nil, nil')),
 m('bad',(DK,'	if err := f.Sync(); err != nil {\n		cleanup()\n		return fmt.Errorf("antcache: disk fsync - %w", err)\n	}\n','	f.Sync()\n')),
 m('bad',(DK,'	if err := opt(disk); err != nil {\n			return nil, err\n		}\n','	opt(disk)\n')),
 m('bad',(DK,'			if !errors.Is(err, io.EOF) {\n				log.Printf("antcache: disk read dir %s - %s", d.path, err)\n			}\n','			_ = io.EOF\n')),
 m('bad',(DK,'			if _, err := d.sweep(); err != nil {\n				log.Printf("antcache: disk sweep - %s", err)\n			}\n','			d.sweep()\n')),
 m('bad',(RC,'		return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)','		s := &Host{}\n		c.lru.Set(url.Host, s)\n		return s, nil')),
 m('bad',(RC,'		return nil, fmt.Errorf("robots: parse robots.txt - %w", err)','		return &Host{}, nil')),
 m('bad',(RC,'	host, err := c.lookup(ctx, req.URL, req.UserAgent)\n	if err != nil {\n		return err\n	}\n','	host, err := c.lookup(ctx, req.URL, req.UserAgent)\n	if err != nil {\n		return ctx.Err()\n	}\n')),
 m('bad',(SS,'		if err := ss.scanFunc(slice.Index(j), node); err != nil {\n			return err\n		}\n','		ss.scanFunc(slice.Index(j), node)\n')),
 m('bad',(TX,'		return fmt.Errorf("antcdp: set cookies - %w", err)','		return fmt.Errorf("antcdp: set cookies - %s", err)')),
 m('bad',(TX,'	if err := tx.readcookies(ctx); err != nil {\n		return nil, err\n	}\n','	tx.readcookies(ctx)\n')),
 m('bad',(TX,'	buf, err := json.Marshal(dst)\n	if err != nil {\n		return fmt.Errorf("antcdp: marshal headers - %w", err)\n	}\n','	var err error\n	buf, _ := json.Marshal(dst)\n')),
 m('bad',(TG,'			return nil, fmt.Errorf("antcdp: create target - %w", err)','			return nil, fmt.Errorf("antcdp: create target - %s", err)')),
 m('bad',(PG,'			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)','			p.err = fmt.Errorf("ant: parse html %q - %s", p.URL, p.err)')),
 m('bad',(PG,'	if err := p.parse(); err != nil {\n		return nil, err\n	}\n','	p.parse()\n')),
 m('bad',(E,'	if err := eng.queue.Close(ctx); err != nil {\n		eg.Go(func() error { return err })\n	}\n\n	// Wait until all workers shutdown.\n	if err := eg.Wait(); err != nil {\n		return fmt.Errorf("ant: run - %w", err)\n	}\n','	eng.queue.Close(ctx)\n	eg.Wait()\n')),
 # ok
 m('ok',(E,'	if err := eng.queue.Enqueue(ctx, next); err != nil {\n		return err\n	}\n\n	return nil','	return eng.queue.Enqueue(ctx, next)')),
 m('ok',(E,'		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)','		return nil, wrap("fetch", url, err)'),(E,'// Dedupe de-dup','func wrap(op string, u *URL, err error) error {\n	return fmt.Errorf("ant: %s %q - %w", op, u, err)\n}\n\n// Dedupe de-dup')),
 m('ok',(E,'			err := eng.process(subctx, url)\n			if err != nil {\n				// Stop the other workers too.\n				eng.queue.Close(ctx)\n			}\n			return err\n','			if err := eng.process(subctx, url); err != nil {\n				// Stop the other workers too.\n				eng.queue.Close(ctx)\n				return err\n			}\n			return nil\n')),
 m('ok',(E,'func (eng *Engine) scrape(ctx context.Context, url *URL) (URLs, error) {\n','func (eng *Engine) scrape(ctx context.Context, url *URL) (ret URLs, err error) {\n'),(E,'	page, err := eng.fetcher.Fetch(ctx, url)\n\n	if err != nil {\n		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)\n	}\n','	page, err := eng.fetcher.Fetch(ctx, url)\n\n	if err != nil {\n		err = fmt.Errorf("ant: fetch %q - %w", url, err)\n		return\n	}\n')),
 m('ok',(DK,'		if v, err = os.ReadFile(f.path); err != nil {\n			return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, err)\n		}\n','		b, rerr := os.ReadFile(f.path)\n		if rerr != nil {\n			return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, rerr)\n		}\n		v = b\n')),
 m('ok',(DK,'	if _, err := f.Write(v); err != nil {\n		cleanup()\n		return fmt.Errorf("antcache: disk write - %w", err)\n	}\n\n	if err := f.Sync(); err != nil {\n		cleanup()\n		return fmt.Errorf("antcache: disk fsync - %w", err)\n	}\n','	_, err = f.Write(v)\n	if err == nil {\n		err = f.Sync()\n	}\n	if err != nil {\n		cleanup()\n		return fmt.Errorf("antcache: disk write - %w", err)\n	}\n')),
 m('ok',(CR,'			cerr = multierror.Append(cerr, fmt.Errorf(\n				`antcache: store %d - %w`,\n				cr.key,\n				err,\n			))\n','			cerr = errors.Join(cerr, fmt.Errorf(\n				`antcache: store %d - %w`,\n				cr.key,\n				err,\n			))\n'),(CR,'import (\n','import (\n	"errors"\n')),
 m('ok',(DK,'			if _, err := d.sweep(); err != nil {\n				log.Printf("antcache: disk sweep - %s", err)\n			}\n','			d.sweepLogged()\n'),(DK,'// Files returns','func (d *Diskstore) sweepLogged() {\n	if _, err := d.sweep(); err != nil {\n		log.Printf("antcache: disk sweep - %s", err)\n	}\n}\n\n// Files returns')),
 m('ok',(DK,'			if !errors.Is(err, io.EOF) {\n				log.Printf("antcache: disk read dir %s - %s", d.path, err)\n			}\n			break\n','			if errors.Is(err, io.EOF) {\n				break\n			}\n			log.Printf("antcache: disk read dir %s - %s", d.path, err)\n			break\n')),
 m('ok',(PG,'			u, err := url.Parse(href)\n			if err != nil {\n				continue\n			}\n\n			if !u.IsAbs() {\n				u = p.URL.ResolveReference(u)\n			}\n','			u := p.link(href)\n			if u == nil {\n				continue\n			}\n'),(PG,'// Close closes','func (p *Page) link(href string) *url.URL {\n	u, err := url.Parse(href)\n	if err != nil {\n		return nil\n	}\n	if !u.IsAbs() {\n		u = p.URL.ResolveReference(u)\n	}\n	return u\n}\n\n// Close closes')),
 m('ok',(PG,'			u, err := url.Parse(href)\n			if err != nil {\n				continue\n			}\n\n			if !u.IsAbs() {\n				u = p.URL.ResolveReference(u)\n			}\n','			u, ok := absolute(p.URL, href)\n			if !ok {\n				continue\n			}\n'),(PG,'// Close closes','func absolute(base *url.URL, href string) (*url.URL, bool) {\n	u, err := base.Parse(href)\n	return u, err == nil\n}\n\n// Close closes')),
 m('ok',(F,'		if resp, err = f.fetch(ctx, url); err == nil {\n			break\n		}\n\n		f.discard(resp)\n','		resp, err = f.fetch(ctx, url)\n		if err == nil {\n			break\n		}\n\n		f.discard(resp)\n')),
 m('ok',(J,'	if err := j.encode(v.Interface()); err != nil {\n		return nil, fmt.Errorf("ant: json encode %s - %w", j.typ, err)\n	}\n','	err := j.encode(v.Interface())\n	switch {\n	case err != nil:\n		return nil, fmt.Errorf("ant: json encode %s - %w", j.typ, err)\n	}\n')),
 m('ok',(TX,'	if err := tx.readbody(ctx); err != nil {\n		return nil, err\n	}\n\n	if err := tx.readcookies(ctx); err != nil {\n		return nil, err\n	}\n','	for _, f := range []func(context.Context) error{tx.readbody, tx.readcookies} {\n		if err := f(ctx); err != nil {\n			return nil, err\n		}\n	}\n')),
 m('ok',(E,'	if err := eng.queue.Close(ctx); err != nil {\n		eg.Go(func() error { return err })\n	}\n\n	// Wait until all workers shutdown.\n	if err := eg.Wait(); err != nil {\n		return fmt.Errorf("ant: run - %w", err)\n	}\n','	cerr := eng.queue.Close(ctx)\n\n	// Wait until all workers shutdown.\n	if err := eg.Wait(); err != nil {\n		return fmt.Errorf("ant: run - %w", err)\n	}\n	if cerr != nil {\n		return fmt.Errorf("ant: run - %w", cerr)\n	}\n')),
]

MUT += [('G04', 'bad', [('antcache/disk.go', '\tif err := os.Rename(f.Name(), newpath); err != nil {\n\t\treturn fmt.Errorf("antcache: disk rename - %w", err)\n\t}\n', '\tif !moved(f.Name(), newpath) {\n\t\treturn errors.New("antcache: disk rename")\n\t}\n'), ('antcache/disk.go', '// Close closes', 'func moved(p, q string) bool {\n\treturn os.Rename(p, q) == nil\n}\n\n// Close closes')])]
