F='fetcher.go'; E='engine.go'
MUT=[
# F01
('F01','bad',[(F,'if attempt++; attempt > maxAttempts {','if attempt++; attempt > maxAttempts+1 {')]),
('F01','bad',[(F,'if attempt++; attempt > maxAttempts {','if attempt++; attempt >= maxAttempts {')]),
('F01','bad',[(F,'	if f.MaxAttempts > 0 {\n		return f.MaxAttempts\n	}\n	return 5','	if f.MaxAttempts > 1 {\n		return f.MaxAttempts\n	}\n	return 5')]),
('F01','bad',[(F,'"ant: max attempts of %d reached - %w",\n				maxAttempts,\n				err,','"ant: max attempts of %d reached - %v",\n				maxAttempts,\n				err,')]),
('F01','bad',[(F,'		if isTemporary(err) {\n','		if isTemporary(err) && resp != nil {\n')]),
('F01','bad',[(F,'		if isTemporary(err) {\n','		if isTemporary(err) && resp == nil {\n')]),
('F01','bad',[(F,'	return errors.As(err, &t) && t.Temporary()','	return errors.As(err, &t)')]),
('F01','bad',[(F,'	return errors.As(err, &t) && t.Temporary()','	if u := errors.Unwrap(err); u != nil {\n		err = u\n	}\n	t, _ = err.(interface{ Temporary() bool })\n	return t != nil && t.Temporary()')]),
('F01','bad',[(F,'return resp, fmt.Errorf("ant: %s %q - %w", req.Method, req.URL, err)','return resp, fmt.Errorf("ant: %s %q - %v", req.Method, req.URL, err)')]),
('F01','bad',[(F,'			if err := f.backoff(ctx, attempt); err != nil {\n				return nil, err\n			}\n			continue','			if err := f.backoff(ctx, attempt); err != nil {\n				return nil, err\n			}\n			if attempt == 1 {\n				attempt--\n			}\n			continue')]),
('F01','bad',[(F,'	resp, err := client.Do(req)\n','	resp, err := client.Do(req)\n	if err != nil && isTemporary(err) {\n		resp, err = client.Do(req)\n	}\n')]),
# F02
('F02','bad',[(F,'if resp.StatusCode >= 400 {','if resp.StatusCode > 400 {')]),
('F02','bad',[(F,'if resp.StatusCode >= 400 {','if resp.StatusCode >= 300 {')]),
('F02','bad',[(F,'if err.Status == 404 {','if err.Status == 404 || err.Status == 410 {')]),
('F02','bad',[(F,'			if err.Status == 404 {\n				return nil, nil\n			}','			if err.Status == 404 && attempt == 1 {\n				return nil, nil\n			}')]),
('F02','bad',[(F,'err.Status == 504 || // Gateway Timeout.','err.Status == 502 || // Gateway Timeout.')]),
('F02','bad',[(F,'URL:    resp.Request.URL,\n		Header','URL:    url,\n		Header')]),
('F02','bad',[(F,'			Status: resp.StatusCode,\n','			Status: 400,\n')]),
('F02','bad',[(F,'err.Status == 503 ||','err.Status >= 500 && err.Status <= 503 ||')]),
('F02','bad',[(F,'		Header: resp.Header,\n','		Header: resp.Request.Header,\n')]),
('F02','bad',[(F,'		return nil, err\n	}\n\n	return &Page{','		return nil, fmt.Errorf("ant: fetch %s failed", url)\n	}\n\n	return &Page{')]),
# F04
('F04','bad',[(F,'	if dur > max {\n		dur = max\n	}\n','	if dur > 2*max {\n		dur = max\n	}\n')]),
('F04','bad',[(F,'time.Duration(attempt*attempt) * min','time.Duration((attempt-1)*(attempt-1)) * min')]),
('F04','bad',[(F,'time.Duration(attempt*attempt) * min','time.Duration(attempt%3+1) * min')]),
('F04','bad',[(F,'if min >= max {','if min > max {')]),
('F04','bad',[(F,'	case <-ctx.Done():\n		return ctx.Err()','	case <-ctx.Done():\n		return nil')]),
('F04','bad',[(F,'if f.MinBackoff > 0 {','if f.MinBackoff > minBackoff {')]),
('F04','bad',[(F,'	return maxBackoff\n','	return 2 * maxBackoff\n')]),
('F04','bad',[(F,'			if err := f.backoff(ctx, attempt); err != nil {','			if err := f.backoff(context.Background(), attempt); err != nil {')]),
('F04','bad',[(F,'	var timer = time.NewTimer(dur)\n	defer timer.Stop()\n\n	select {\n	case <-timer.C:\n		return nil\n	case <-ctx.Done():\n		return ctx.Err()\n	}','	time.Sleep(dur)\n	return ctx.Err()')]),
('F04','bad',[(F,'			if err := f.backoff(ctx, attempt); err != nil {\n				return nil, err\n			}','			if attempt > 1 {\n			if err := f.backoff(ctx, attempt); err != nil {\n				return nil, err\n			}\n			}')]),
# F05
('F05','bad',[(F,'"GET", url.String(), nil)','"GET", url.Scheme+"://"+url.Host+url.RequestURI(), nil)')]),
('F05','bad',[(F,'http.NewRequestWithContext(ctx, "GET"','http.NewRequestWithContext(context.Background(), "GET"')]),
('F05','bad',[(F,'hdr.Set("User-Agent", f.userAgent())','hdr.Set("User-Agent", UserAgent.String())')]),
('F05','bad',[(F,'		return ua.String()\n	}\n	return UserAgent.String()','		if s := ua.String(); len(s) > 8 {\n			return s\n		}\n	}\n	return UserAgent.String()')]),
('F05','bad',[(F,'hdr.Set("Accept", "text/html; charset=UTF-8")','hdr.Set("Accept", "*/*")')]),
('F05','bad',[(F,'	for k, v := range f.headers() {\n		req.Header[k] = v\n	}','	for k, v := range f.headers() {\n		if len(k) > 6 {\n		req.Header[k] = v\n		}\n	}')]),
('F05','bad',[(F,'	for k, v := range f.headers() {\n		req.Header[k] = v\n	}','	if f.UserAgent != nil {\n	for k, v := range f.headers() {\n		req.Header[k] = v\n	}\n	}')]),
('F05','bad',[(F,'	if f.Client != nil {\n		return f.Client','	if f.Client != nil && f.MaxAttempts >= 0 {\n		return f.Client')]),
('F05','ok',[(F,'	if f.Client != nil {\n		return f.Client\n	}\n	return DefaultClient','	client := f.Client\n	if client == nil {\n		client = DefaultClient\n	}\n	return client')]),
# E01
('E01','bad',[(E,'				eng.queue.Done(ctx, url)\n				eg.Go(func() error { return err })','				eg.Go(func() error { return err })')]),
('E01','bad',[(E,'			err := eng.process(subctx, url)\n			if err != nil {\n','			err := eng.process(subctx, url)\n			if err != nil {\n				eng.queue.Done(ctx, url)\n')]),
('E01','bad',[(E,'	defer eng.queue.Done(ctx, url)\n\n	// Check robots.txt.\n	if !eng.impolite {','	if ctx.Err() != nil {\n		return ctx.Err()\n	}\n	defer eng.queue.Done(ctx, url)\n\n	// Check robots.txt.\n	if !eng.impolite {')]),
('E01','bad',[(E,'			err := eng.process(subctx, url)\n','			if subctx.Err() != nil {\n				return nil\n			}\n			err := eng.process(subctx, url)\n')]),
('E01','bad',[(E,'	defer eng.queue.Done(ctx, url)\n\n	// Check robots.txt.','	defer eng.queue.Done(ctx, normalize.URL(url))\n\n	// Check robots.txt.')]),
# E02
('E02','bad',[(E,'	// Enqueue URLs.\n	if err := eng.enqueue(ctx, urls); err != nil {\n		return fmt.Errorf("ant: enqueue - %w", err)\n	}\n\n	return nil','	// Enqueue URLs.\n	if len(urls) > 100 {\n		go eng.enqueue(ctx, urls)\n		return nil\n	}\n	if err := eng.enqueue(ctx, urls); err != nil {\n		return fmt.Errorf("ant: enqueue - %w", err)\n	}\n\n	return nil')]),
('E02','bad',[(E,'	eng.queue.Wait()\n	if err := eng.queue.Close(ctx)','	if eng.workers > 1 {\n		eng.queue.Wait()\n	}\n	if err := eng.queue.Close(ctx)')]),
('E09','bad',[(E,'	defer page.close()\n\n	urls, err := eng.scraper','	defer page.close()\n	if page.URL.String() != url.String() {\n		return nil, nil\n	}\n\n	urls, err := eng.scraper')]),
(['E07'],'bad',[(E,'			defer eng.queue.Close(ctx)\n			return eng.run(subctx)','			err := eng.run(subctx)\n			if err == nil {\n				eng.queue.Close(ctx)\n			}\n			return err')]),
('E02','bad',[(E,'	if err := eng.queue.Enqueue(ctx, next); err != nil {','	if len(next) > 1 {\n		next = next[:1]\n	}\n	if err := eng.queue.Enqueue(ctx, next); err != nil {')]),
# E03
('E03','bad',[(E,'	for j := range batch {\n		batch[j] = normalize','	for j := range batch[:len(batch)/2] {\n		batch[j] = normalize')]),
('E03','bad',[(E,'eng.dedupe(ctx, eng.matches(batch))\n	if err != nil {\n		return err\n	}\n','eng.dedupe(ctx, batch)\n	if err != nil {\n		return err\n	}\n	next = eng.matches(next)\n')]),
('E03','bad',[(E,'			if eng.matcher.Match(u) {','			if eng.matcher.Match(u) || len(urls) == 1 {')]),
('E03','bad',[(E,'case "https", "http":','case "https", "http", "":')]),
('E03','bad',[(E,'	return eng.enqueue(ctx, batch)\n','	if len(batch) == 1 {\n		return eng.queue.Enqueue(ctx, batch)\n	}\n	return eng.enqueue(ctx, batch)\n')]),
('E03','bad',[(E,'		batch = append(batch, u)\n	}\n\n	return eng.enqueue(ctx, batch)','		if err := eng.enqueue(ctx, URLs{u}); err != nil {\n			return err\n		}\n	}\n\n	return eng.enqueue(ctx, batch)')]),
('E03','bad',[(E,'	if eng.matcher != nil {\n		ret := make','	if eng.matcher != nil && !eng.impolite {\n		ret := make')]),
# E04
('E04','bad',[(E,'	if !eng.impolite {\n		allowed','	if !eng.impolite && url.RawQuery == "" {\n		allowed')]),
('E04','bad',[(E,'		if !allowed {\n			return nil\n		}','		if !allowed && url.Path != "/" {\n			return nil\n		}')]),
('E04','bad',[(E,'		if err != nil {\n			return err\n		}\n		if !allowed','		if err != nil && !isTemporary(err) {\n			return err\n		}\n		if err == nil && !allowed')]),
('E04','bad',[(E,'			URL:       url,\n			UserAgent: UserAgent.String(),\n		})\n		if err','			URL:       url,\n			UserAgent: eng.fetcher.userAgent(),\n		})\n		if err')]),
('E04','bad',[(E,'		if !allowed {\n			return nil\n		}','		if !allowed {\n			return errors.New("ant: disallowed")\n		}')]),
('E04','bad',[(E,'		impolite: c.Impolite,','		impolite: c.Impolite || c.Limiter != nil,')]),
('E04','bad',[(E,'	// Scrape the URL.\n	urls, err := eng.scrape(ctx, url)','	// Scrape the URL.\n	url = &URL{Scheme: url.Scheme, Host: url.Host, Path: url.Path}\n	urls, err := eng.scrape(ctx, url)')]),
# E05
('E05','bad',[(E,'	if eng.impolite {\n		return nil\n	}\n\n	err := eng','	if eng.impolite || eng.limiter != nil {\n		return nil\n	}\n\n	err := eng')]),
('E05','bad',[(E,'	// Potential limits.\n	if err := eng.limit(ctx, url); err != nil {\n		return err\n	}\n\n	// Scrape the URL.\n	urls, err := eng.scrape(ctx, url)\n	if err != nil {\n		return err\n	}\n','	// Scrape the URL.\n	urls, err := eng.scrape(ctx, url)\n	if err != nil {\n		return err\n	}\n\n	// Potential limits.\n	if err := eng.limit(ctx, url); err != nil {\n		return err\n	}\n')]),
('E05','bad',[(E,'	if err := eng.limit(ctx, url); err != nil {\n		return err','	if err := eng.limit(ctx, url); errors.Is(err, context.Canceled) {\n		return err')]),
('E05','bad',[(E,'		limiter:  c.Limiter,\n','')]),
('E05','bad',[(E,'	// Potential limits.\n	if err := eng.limit(ctx, url); err != nil {\n		return err\n	}\n','	// Potential limits.\n	if eng.sema == nil {\n	if err := eng.limit(ctx, url); err != nil {\n		return err\n	}\n	}\n')]),
# E06
('E06','bad',[(E,'				defer eng.sema.Release(1)\n			}','				eng.sema.Release(1)\n			}')]),
('E06','bad',[(E,'	if n := int64(c.Concurrency); n > 0 {','	if n := int64(c.Concurrency); n > 1 {')]),
('E06','bad',[(E,'semaphore.NewWeighted(n)','semaphore.NewWeighted(n * int64(c.Workers))')]),
('E06','bad',[(E,'if err := eng.sema.Acquire(ctx, 1); err != nil {\n				eng','if err := eng.sema.Acquire(ctx, 1); err != nil && ctx.Err() == nil {\n				eng')]),
('E06','bad',[(E,'		if eng.sema != nil {\n			if err := eng.sema.Acquire(ctx, 1); err != nil {','		if sema := semaphore.NewWeighted(1); eng.sema != nil {\n			if err := sema.Acquire(ctx, 1); err != nil {')]),
('E06','bad',[(E,'defer eng.sema.Release(1)\n			}\n			err := eng.process(subctx, url)\n			if err != nil {\n','defer eng.sema.Release(1)\n			}\n			err := eng.process(subctx, url)\n			if err != nil {\n				if eng.sema != nil {\n					eng.sema.Release(1)\n				}\n')]),
# E07
('E07','bad',[(E,'			if err != nil {\n				// Stop the other workers too.\n','			if err != nil && ctx.Err() == nil && !isTemporary(err) {\n				// Stop the other workers too.\n')]),
('E07','bad',[(E,'		if err != nil {\n			eg.Go(func() error { return err })\n			return eg.Wait()\n		}\n','		if err != nil {\n			return eg.Wait()\n		}\n')]),
('E07','bad',[(E,'	if err := eng.queue.Close(ctx); err != nil {\n		eg.Go(func() error { return err })\n	}\n','	eng.queue.Close(ctx)\n')]),
('E07','bad',[(E,'	if err := eg.Wait(); err != nil {\n		return fmt','	if err := eg.Wait(); err != nil && ctx.Err() == nil {\n		return fmt')]),
('E07','bad',[(E,'		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)','		return urls, fmt.Errorf("ant: scrape %q - %v", url, err)')]),
('E07','bad',[(E,'	if err != nil {\n		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)\n	}','	if err != nil && page != nil {\n		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)\n	}')]),
('E07','bad',[(E,'		if errors.Is(err, io.EOF) ||\n			errors.Is(err, context.Canceled) {\n			return eg.Wait()\n		}\n','		if errors.Is(err, io.EOF) ||\n			errors.Is(err, context.Canceled) {\n			return err\n		}\n')]),
('E07','bad',[(E,'errors.Is(err, context.Canceled) {','errors.Is(err, context.Canceled) || subctx.Err() != nil {\n			eg.Go(func() error { return err })')]),
('E07','bad',[(E,'	if err := eng.Enqueue(ctx, urls...); err != nil {\n		return','	if err := eng.Enqueue(ctx, urls...); err != nil && len(urls) == 1 {\n		return')]),
# E08
('E08','bad',[(E,'i < eng.workers; i++','i <= eng.workers; i++')]),
('E08','bad',[(E,'	eng.queue.Wait()\n','	eng.queue.Wait()\n	if ctx.Err() != nil {\n		return ctx.Err()\n	}\n')]),
('E08','bad',[(E,'				eng.queue.Done(ctx, url)\n				eg.Go(func() error { return err })\n				return eg.Wait()','				eng.queue.Done(ctx, url)\n				return err')]),
('E08','bad',[(E,'		workers:  c.Workers,','		workers:  min(c.Workers, 8),')]),
# E09
('E09','bad',[(E,'	// Potential limits.\n','	if len(url.String()) > 2000 {\n		return nil\n	}\n\n	// Potential limits.\n')]),
('E09','bad',[(E,'	if page == nil {\n		return nil, nil\n	}','	if page == nil || page.Header.Get("Content-Type") == "" {\n		return nil, nil\n	}')]),
('E09','bad',[(E,'		c.Queue = MemoryQueue(c.Workers)\n	}\n','		c.Queue = MemoryQueue(c.Workers)\n	}\n	if c.Workers == 1 && c.Concurrency == 1 {\n		c.Queue = MemoryQueue(1)\n	}\n')]),
('E09','bad',[(E,'	if c.Fetcher == nil {','	if c.Fetcher == nil || c.Fetcher.Client == nil {')]),
('E09','bad',[(E,'	urls, err := eng.scraper.Scrape(ctx, page)\n','	urls, err := eng.scraper.Scrape(ctx, page)\n	if err != nil && isTemporary(err) {\n		urls, err = eng.scraper.Scrape(ctx, page)\n	}\n')]),
('E09','bad',[(E,'	page, err := eng.fetcher.Fetch(ctx, url)\n','	page, err := eng.fetcher.Fetch(ctx, url)\n	if errors.Is(err, io.ErrUnexpectedEOF) {\n		page, err = eng.fetcher.Fetch(ctx, url)\n	}\n')]),
('E09','bad',[(E,'	page, err := eng.fetcher.Fetch(ctx, url)\n','	page, err := Fetch(ctx, url.String())\n')]),
('E07','bad',[(E,'	page, err := eng.fetcher.Fetch(ctx, url)\n','	page, err := eng.fetcher.Fetch(ctx, url)\n	var fe *FetchError\n	if errors.As(err, &fe) && fe.Status == 410 {\n		return nil, nil\n	}\n')]),
('E09','bad',[(E,'		eg.Go(func() error {\n			if eng.sema','		if ctx.Err() == nil && url.Fragment != "" {\n			eng.queue.Done(ctx, url)\n			continue\n		}\n		eg.Go(func() error {\n			if eng.sema')]),
('E09','ok',[(E,'	// Potential limits.\n','	if err := ctx.Err(); err != nil {\n		return err\n	}\n\n	// Potential limits.\n')]),
('E09','ok',[(E,'	// Potential limits.\n','	if ctx.Err() != nil {\n		return nil\n	}\n\n	// Potential limits.\n')]),
('E09','ok',[(E,'	if c.Fetcher == nil {\n		c.Fetcher = &Fetcher{}\n	}\n','	fetcher := c.Fetcher\n	if fetcher == nil {\n		fetcher = DefaultFetcher\n	}\n'),(E,'fetcher:  c.Fetcher','fetcher:  fetcher')]),
('E09','ok',[(E,'		eg.Go(func() error {\n			if eng.sema != nil {\n				defer eng.sema.Release(1)\n			}\n			err := eng.process(subctx, url)\n			if err != nil {\n				// Stop the other workers too.\n				eng.queue.Close(ctx)\n			}\n			return err\n		})','		eg.Go(eng.job(ctx, subctx, url))'),(E,'// Process processes a single url.','// Job returns the work to do for a url.\nfunc (eng *Engine) job(ctx, subctx context.Context, url *URL) func() error {\n	return func() error {\n		if eng.sema != nil {\n			defer eng.sema.Release(1)\n		}\n		err := eng.process(subctx, url)\n		if err != nil {\n			eng.queue.Close(ctx)\n		}\n		return err\n	}\n}\n\n// Process processes a single url.')]),
# ok
('E01 E02 E03 E04 E05 E06 E07 E08'.split(),'ok',[(E,'	if err := eng.queue.Enqueue(ctx, next); err != nil {\n		return err\n	}\n\n	return nil','	return eng.queue.Enqueue(ctx, next)')]),
('E01 E02 E03 E04 E05 E06 E07 E08'.split(),'ok',[(E,'	if eng.matcher != nil {\n		ret := make(URLs, 0, len(urls))\n		for _, u := range urls {\n			if eng.matcher.Match(u) {\n				ret = append(ret, u)\n			}\n		}\n		return ret\n	}\n	return urls','	if eng.matcher == nil {\n		return urls\n	}\n	var ret URLs\n	for _, u := range urls {\n		if !eng.matcher.Match(u) {\n			continue\n		}\n		ret = append(ret, u)\n	}\n	return ret')]),
('E01 E02 E03 E04 E05 E06 E07 E08 G04 G02 G03'.split(),'ok',[(E,'	urls, err := eng.scraper.Scrape(ctx, page)\n	if err != nil {\n		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)\n	}\n\n	return urls, nil','	urls, err := eng.scraper.Scrape(ctx, page)\n	switch {\n	case err == nil:\n		return urls, nil\n	default:\n		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)\n	}')]),
('E01 E02 E03 E04 E05 E06 E07 E08 G04 G02 G03'.split(),'ok',[(E,'	for i := 0; i < eng.workers; i++ {\n		eg.Go(func() error {\n			defer eng.queue.Close(ctx)\n			return eng.run(subctx)\n		})\n	}','	worker := func() error {\n		defer eng.queue.Close(ctx)\n		return eng.run(subctx)\n	}\n	for n := eng.workers; n > 0; n-- {\n		eg.Go(worker)\n	}')]),
('E01 E02 E03 E04 E05 E06 E07 E08 G04 G02 G03'.split(),'ok',[(E,'		eg.Go(func() error {\n			if eng.sema != nil {\n				defer eng.sema.Release(1)\n			}\n			err := eng.process(subctx, url)\n			if err != nil {\n				// Stop the other workers too.\n				eng.queue.Close(ctx)\n			}\n			return err\n		})','		eg.Go(func() (err error) {\n			defer func() {\n				if eng.sema != nil {\n					eng.sema.Release(1)\n				}\n				if err != nil {\n					eng.queue.Close(ctx)\n				}\n			}()\n			return eng.process(subctx, url)\n		})')]),
('F01 F02 F03 F04 F05 G04'.split(),'ok',[(F,'		f.discard(resp)\n		if isTemporary(err) {\n			if err := f.backoff(ctx, attempt); err != nil {\n				return nil, err\n			}\n			continue\n		}\n\n		if err, ok := err.(*FetchError); ok {\n			if err.Status == 404 {\n				return nil, nil\n			}\n		}\n\n		return nil, err\n','		f.discard(resp)\n		var fe *FetchError\n		switch {\n		case isTemporary(err):\n			if err := f.backoff(ctx, attempt); err != nil {\n				return nil, err\n			}\n		case errors.As(err, &fe) && fe.Status == http.StatusNotFound:\n			return nil, nil\n		default:\n			return nil, err\n		}\n')]),
('F01 F02 F03 F04 F05 G04'.split(),'ok',[(F,'	if dur > max {\n		dur = max\n	}\n\n	var timer','	if max < dur {\n		dur = max\n	}\n\n	var timer')]),
('F01 F02 F03 F04 F05 G04'.split(),'ok',[(F,'	for k, v := range f.headers() {\n		req.Header[k] = v\n	}','	req.Header = f.headers()')]),
('F01 F02 F03 F04 F05 G04'.split(),'ok',[(F,'	return err.Status == 503 || // Service Unavailable.\n		err.Status == 504 || // Gateway Timeout.\n		err.Status == 429 // Too many requests.','	switch err.Status {\n	case http.StatusServiceUnavailable, http.StatusGatewayTimeout, http.StatusTooManyRequests:\n		return true\n	}\n	return false')]),
('F01 F02 F03 F04 F05 G04'.split(),'ok',[(F,'	var maxAttempts = f.maxAttempts()\n	var attempt int\n	var resp *http.Response\n	var err error\n\n	for {\n		if attempt++; attempt > maxAttempts {\n			return nil, fmt.Errorf(\n				"ant: max attempts of %d reached - %w",\n				maxAttempts,\n				err,\n			)\n		}\n\n','	var maxAttempts = f.maxAttempts()\n	var resp *http.Response\n	var err error\n\n	for attempt := 1; ; attempt++ {\n		if attempt > maxAttempts {\n			return nil, fmt.Errorf("ant: max attempts of %d reached - %w", maxAttempts, err)\n		}\n\n')]),
]
