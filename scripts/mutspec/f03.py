H='antcache/httpcache.go'; F='fetcher.go'; R='internal/robots/cache.go'; E='engine.go'; CR='antcache/cachereader.go'
MUT=[
('F03','bad',[(H,'			c.discard(newresp)\n			return resp, nil','			return resp, nil')]),
('F03','bad',[(H,'	if newresp.StatusCode == 304 {\n		c.discard(newresp)','	if newresp.StatusCode == 304 {\n		c.discard(resp)')]),
('F03','bad',[(H,'	c.discard(newresp)\n	c.discard(resp)\n	return nil, nil','	c.discard(resp)\n	return nil, nil')]),
('F03','bad',[(H,'		resp.Body.Close()\n','')]),
('F03','bad',[(H,'		io.Copy(io.Discard, resp.Body)\n','		_ = io.Discard\n')]),
('F03','bad',[(F,'		f.discard(resp)\n		if isTemporary(err) {','		if isTemporary(err) {\n			f.discard(resp)')]),
('F03','bad',[(F,'		f.discard(resp)\n		if isTemporary(err) {','		if !isTemporary(err) {\n			f.discard(resp)\n		}\n		if isTemporary(err) {')]),
('F03','bad',[(F,'return resp, &FetchError{','return nil, &FetchError{')]),
('F03','bad',[(F,'io.Copy(io.Discard, r.Body)\n','_ = io.Discard\n')]),
('F03','bad',[(R,'defer resp.Body.Close()\n','')]),
('F03','bad',[(E,'	defer page.close()\n\n	urls, err := eng.scraper.Scrape(ctx, page)\n	if err != nil {\n		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)\n	}\n','	urls, err := eng.scraper.Scrape(ctx, page)\n	if err != nil {\n		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)\n	}\n	page.close()\n')]),
('F03','bad',[(E,'	defer page.close()\n\n','	if page.root == nil {\n	defer page.close()\n}\n\n')]),
('F03','bad',[(CR,'	cerr := cr.rc.Close()\n','	var cerr error\n')]) if 0 else
('F03','bad',[('antcache/httpcache.go','		rc:    rc,\n','		rc:    io.NopCloser(&bytes.Buffer{}),\n'),(H,'	rc := resp.Body\n','')]),
('F03','bad',[(F,'	return &Page{\n		URL:    resp.Request.URL,','	if resp.ContentLength == 0 {\n		return &Page{URL: resp.Request.URL, Header: resp.Header, body: http.NoBody}, nil\n	}\n	return &Page{\n		URL:    resp.Request.URL,')]),
('F03','bad',[(H,'	if c.strategy.store(resp) {\n		c.store(key, resp)\n	}\n\n	return resp, nil','	if err := req.Context().Err(); err != nil {\n		return nil, err\n	}\n	if c.strategy.store(resp) {\n		c.store(key, resp)\n	}\n\n	return resp, nil')]),
('F03','bad',[(R,'	defer resp.Body.Close()\n','	if resp.StatusCode < 500 {\n		defer resp.Body.Close()\n	}\n')]),
# ok
('F03','ok',[(H,'	c.discard(newresp)\n	c.discard(resp)\n	return nil, nil','	for _, r := range []*http.Response{newresp, resp} {\n		c.discard(r)\n	}\n	return nil, nil')]),
('F03','ok',[(H,'		resp.Body.Close()\n','		defer resp.Body.Close()\n')]) if 0 else
('F03','ok',[(H,'		io.Copy(io.Discard, resp.Body)\n		resp.Body.Close()\n','		defer resp.Body.Close()\n		if _, err := io.Copy(io.Discard, resp.Body); err != nil {\n			return\n		}\n')]),
('F03','ok',[(F,'	if r != nil {\n		io.Copy(io.Discard, r.Body)\n		r.Body.Close()\n	}','	if r == nil || r.Body == nil {\n		return\n	}\n	body := r.Body\n	defer body.Close()\n	io.Copy(io.Discard, body)')]),
('F03','ok',[(F,'	if err != nil {\n		return resp, fmt.Errorf("ant: %s','	if err != nil {\n		return nil, fmt.Errorf("ant: %s')]),
('F03','ok',[(R,'	defer resp.Body.Close()\n','	defer func() {\n		if err := resp.Body.Close(); err != nil {\n			_ = err\n		}\n	}()\n')]),
('F03','ok',[(E,'	defer page.close()\n\n	urls, err := eng.scraper.Scrape(ctx, page)\n	if err != nil {','	urls, err := eng.scraper.Scrape(ctx, page)\n	page.close()\n	if err != nil {')]),
('F03','ok',[(H,'	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {\n		reqd := directivesFrom(req.Header)\n		if reqd.has("stale-if-error") {\n			c.discard(newresp)\n			return resp, nil\n		}\n		return newresp, nil\n	}','	if serverError(newresp) {\n		if !directivesFrom(req.Header).has("stale-if-error") {\n			return newresp, nil\n		}\n		c.discard(newresp)\n		return resp, nil\n	}'),(H,'// Discard disc','func serverError(r *http.Response) bool { return r.StatusCode/100 == 5 }\n\n// Discard disc')]),
('F03','ok',[(F,'		if resp, err = f.fetch(ctx, url); err == nil {\n			break\n		}\n\n		f.discard(resp)','		resp, err = f.fetch(ctx, url)\n		if err == nil {\n			return &Page{URL: resp.Request.URL, Header: resp.Header, body: resp.Body}, nil\n		}\n\n		f.discard(resp)'),(F,'	return &Page{\n		URL:    resp.Request.URL,\n		Header: resp.Header,\n		body:   resp.Body,\n	}, nil\n','')]),
]
