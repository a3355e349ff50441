MUT=[
('G05','bad',[('antcache/directives.go','		if d == nil {\n			d = make(directives)\n		}\n\n','')]),
('G05','bad',[('antcache/directives.go','j != -1 {\n			d[','true {\n			d[')]),
('G05','bad',[('antcache/directives.go','d[item[:j]] = item[j+1:]','d[item[:j]] = item[j+2:]')]),
('G05','bad',[('internal/normalize/url.go','strings.LastIndexByte(host, \':\'); j != -1 {','strings.LastIndexByte(host, \':\'); j != 0 {')]),
('G05','bad',[('matchers.go','if len(p) > 0 && p[0]','if p[0]')]),
('G05','bad',[('internal/robots/cache.go','if len(path) == 0 || path[0]','if path[0]')]),
('G05','bad',[('internal/robots/cache.go','if len(path) == 0 || path[0] != \'/\' {','if path[:1] != "/" {')]),
('G05','bad',[('internal/scan/struct.go','if j := strings.IndexByte(css, \'@\'); j != -1 {','if j := strings.IndexByte(css, \'@\'); j != 0 {')]),
('G05','bad',[('engine.go','	if page == nil {\n		return nil, nil\n	}\n','')]),
('G05','bad',[('internal/robots/cache.go','		return g, g != nil','		return g, true')]),
('G05','bad',[('antcache/cachereader.go','cr.buf.Write(p[:n])','cr.buf.Write(p[:n+1])')]),
('G05','bad',[('fetcher.go','	if err != nil {\n		return resp, fmt.Errorf("ant: %s %q - %w", req.Method, req.URL, err)\n	}\n\n	if resp.StatusCode','	if err != nil && resp.StatusCode == 0 {\n		return resp, fmt.Errorf("ant: %s %q - %w", req.Method, req.URL, err)\n	}\n\n	if resp.StatusCode')]),
('G05','bad',[('fetcher.go','	if err != nil {\n		return nil, fmt.Errorf("ant: new request - %w", err)\n	}\n\n	for k','	req.Close = false\n	if err != nil {\n		return nil, fmt.Errorf("ant: new request - %w", err)\n	}\n\n	for k')]),
('G05','bad',[('internal/selectors/selectors.go','	v, err := cascadia.Compile(selector)\n	if err != nil {\n		return nil, err\n	}\n','	v := cascadia.MustCompile(selector)\n')]),
('G05','bad',[('antcache/memstore.go','	if v, ok := m.c.Load(key); ok {\n		return v.([]byte), nil\n	}\n	return nil, nil','	v, _ := m.c.Load(key)\n	return v.([]byte), nil')]),
('G05','bad',[('antcache/memstore.go','	m.c.Store(key, value)','	m.c.Store(key, string(value))')]),
('G05','bad',[('fetcher.go','	return errors.As(err, &t) && t.Temporary()','	errors.As(err, &t)\n	return t.Temporary()')]),
('G05','bad',[('fetcher.go','		if err, ok := err.(*FetchError); ok {\n			if err.Status','		if err := err.(*FetchError); err != nil {\n			if err.Status')]),
('G05','bad',[('fetcher.go','	if r != nil {\n		io.Copy(io.Discard, r.Body)\n		r.Body.Close()\n	}','	io.Copy(io.Discard, r.Body)\n	r.Body.Close()')]),
('G05','ok',[('matchers.go','if len(p) > 0 && p[0] != \'/\' {','if p != "" && p[0] != \'/\' {')]),
('G05','ok',[('internal/normalize/url.go','j != -1 {','j >= 0 {')]),
('G05','ok',[('antcache/memstore.go','	if v, ok := m.c.Load(key); ok {\n		return v.([]byte), nil\n	}\n	return nil, nil','	v, ok := m.c.Load(key)\n	if !ok {\n		return nil, nil\n	}\n	b, _ := v.([]byte)\n	return b, nil')]),
('G05','ok',[('antcache/directives.go','		if j := strings.IndexByte(item, \'=\'); j != -1 {\n			d[item[:j]] = item[j+1:]\n		} else {\n			d[item] = ""\n		}','		k, v, _ := strings.Cut(item, "=")\n		d[k] = v')]),
('G05','ok',[('internal/robots/cache.go','if len(path) == 0 || path[0] != \'/\' {','if !strings.HasPrefix(path, "/") {'),('internal/robots/cache.go','	"net/url"\n','	"net/url"\n	"strings"\n')]),
('G05','ok',[('internal/normalize/url.go','		switch port := host[j+1:]; {\n		case u.Scheme == "http" && port == "80":\n			return host[:j]\n		case u.Scheme == "https" && port == "443":\n			return host[:j]\n		}','		return trimPort(u.Scheme, host, j)'),('internal/normalize/url.go','// Hostname normalizes the hostname.','func trimPort(scheme, host string, j int) string {\n	port := host[j+1:]\n	if scheme == "http" && port == "80" || scheme == "https" && port == "443" {\n		return host[:j]\n	}\n	return host\n}\n\n// Hostname normalizes the hostname.')]),
('G05','ok',[('engine.go','	if page == nil {\n		return nil, nil\n	}\n\n	defer page.close()','	if page != nil {\n		defer page.close()\n	} else {\n		return nil, nil\n	}')]),
]
