H='antcache/httpcache.go'; U='antcache/utils.go'; R='antcache/rfc7234.go'; A='antcache/aggressive.go'; D='antcache/directives.go'
MUT=[
# C01
('C01','bad',[(R,'(req.Method == "GET" || req.Method == "HEAD")','(req.Method == "GET" || req.Method == "HEAD" || req.Method == "POST")')]),
('C01','bad',[(R,'''		req.Header.Get("Content-Range") == "" &&
''','')]),
('C01','bad',[(R,'''== "" &&
		req.Header.Get("Authorization") == ""''','== ""')]),
('C01','bad',[(R,'''		!nostore(req.Header) &&
''','')]),
('C01','bad',[(U,'var c = strings.Join(h.Values("Cache-Control"), ",")','var c = h.Get("Cache-Control")')]),
('C01','bad',[(U,'ret = append(ret, strings.ToLower(v))','ret = append(ret, v)')]),
('C01','bad',[(U,'if v := strings.TrimSpace(v); v != "" {','if v != "" {')]),
('C01','bad',[(U,'''		if v == "no-store" {
			return true
		}''','''		return v == "no-store"''')]),
('C01','bad',[(A,'return rfc7234{}.cache(req)','return req.Method == "GET" || req.Method == "HEAD"')]),
('C01','bad',[(H,'''	if !c.strategy.cache(req) {
		return c.client.Do(req)
	}

	var key = keyof(req)
''','''	var key = keyof(req)

	if !c.strategy.cache(req) {
		resp, err := c.client.Do(req)
		if err == nil && c.strategy.store(resp) {
			c.store(key, resp)
		}
		return resp, err
	}
''')]),
('C01','bad',[(H,'if !c.strategy.cache(req) {','if !c.strategy.cache(req) && req.Method != "HEAD" {')]),
('C01','bad',[(U,'strings.Split(str, sep) {','strings.SplitN(str, sep, 5) {')]),
('C01','ok',[(R,'!nostore(req.Header)','!directivesFrom(req.Header).has("no-store")')]),
('C01','ok',[(R,'''	return (req.Method == "GET" || req.Method == "HEAD") &&
		!nostore(req.Header) &&
		req.Header.Get("Range") == "" &&
		req.Header.Get("Content-Range") == "" &&
		req.Header.Get("Authorization") == ""
''','''	switch req.Method {
	case "GET", "HEAD":
	default:
		return false
	}
	for _, name := range []string{"Range", "Content-Range", "Authorization"} {
		if req.Header.Get(name) != "" {
			return false
		}
	}
	return !nostore(req.Header)
''')]),
('C01','ok',[(U,'''	var c = strings.Join(h.Values("Cache-Control"), ",")

	for _, v := range split(c, ",") {
		if v == "no-store" {
			return true
		}
	}
''','''	for _, c := range h.Values("Cache-Control") {
		for _, v := range split(c, ",") {
			if v == "no-store" {
				return true
			}
		}
	}
''')]),
('C01','ok',[(U,'''	for _, v := range split(c, ",") {
		if v == "no-store" {
			return true
		}
	}
''','''	for _, v := range strings.Split(c, ",") {
		if strings.EqualFold(strings.TrimSpace(v), "no-store") {
			return true
		}
	}
''')]),
('C01','ok',[(H,'''	if !c.strategy.cache(req) {
		return c.client.Do(req)
	}

	var key = keyof(req)
''','''	if cacheable := c.strategy.cache(req); cacheable {
		return c.cached(req)
	}
	return c.client.Do(req)
}

func (c *Cache) cached(req *http.Request) (*http.Response, error) {
	var key = keyof(req)
''')]),
(['C01','C02','C04'],'ok',[(D,'''		if j := strings.IndexByte(item, '='); j != -1 {
			d[item[:j]] = item[j+1:]
		} else {
			d[item] = ""
		}
''','''		name, value, _ := strings.Cut(item, "=")
		d[name] = value
''')]),
(['C01','C02','C04'],'ok',[(D,'''	var c = strings.Join(h.Values("Cache-Control"), ",")
	var d directives

	for _, item := range split(c, ",") {
		if d == nil {
			d = make(directives)
		}

		if j := strings.IndexByte(item, '='); j != -1 {
			d[item[:j]] = item[j+1:]
		} else {
			d[item] = ""
		}
	}
''','''	var d directives

	for _, line := range h.Values("Cache-Control") {
		for _, item := range split(line, ",") {
			if d == nil {
				d = make(directives)
			}
			d.put(item)
		}
	}
''',),(D,'// Has returns','''func (d directives) put(item string) {
	if j := strings.IndexByte(item, '='); j >= 0 {
		d[item[:j]] = item[j+1:]
		return
	}
	d[item] = ""
}

// Has returns''')]),
('C01 C02 C04','bad',[(D,'strings.Join(h.Values("Cache-Control"), ",")','h.Get("Cache-Control")')]),
('C02','bad',[(D,'strings.Join(h.Values("Cache-Control"), ",")','strings.Join(h.Values("Cache-Control"), ";")')]),
('C02','bad',[(D,'d[item[:j]] = item[j+1:]','d[item[:j]] = item[j:]')]),
('C02','bad',[(D,'			d[item] = ""\n','			continue\n')]),
# C02
('C02','bad',[(R,'	case 404, 405, 410, 414:','	case 404, 405, 410, 414, 416:')]),
('C02','bad',[(R,'	case 404, 405, 410, 414:','	case 404, 410, 414:')]),
('C02','bad',[(A,'	case 501:','	case 500, 501:')]),
('C02','bad',[(R,'reqd.has("no-store") || resd.has("no-store")','len(reqd) > 1000 || resd.has("no-store")')]),
('C02','bad',[(R,'reqd.has("no-store") || resd.has("no-store")','reqd.has("no-store") && resd.has("no-store")')]),
('C02','bad',[(R,'return maxage > 0','return maxage >= 0')]),
('C02','bad',[(R,'return exp.Sub(d) > 0','return d.Before(time.Now()) && exp.After(time.Now())')]),
('C02','bad',[(R,'return exp.Sub(d) > 0','return d.Sub(exp) > 0')]),
('C02','bad',[(R,'''	if d, ok := date(resp.Header); ok {
		if maxage, ok := resd.duration("max-age"); ok {
			return maxage > 0
		}

		if exp''','''	if maxage, ok := resd.duration("max-age"); ok {
		return maxage > 0
	}
	if d, ok := date(resp.Header); ok {
		if exp''')]),
('C02','bad',[(R,'''		if maxage, ok := resd.duration("max-age"); ok {
			return maxage > 0
		}

		if exp, ok := expires(resp.Header); ok {
			return exp.Sub(d) > 0
		}
''','''		if exp, ok := expires(resp.Header); ok {
			return exp.Sub(d) > 0
		}

		if maxage, ok := resd.duration("max-age"); ok {
			return maxage > 0
		}
''')]),
('C02','bad',[(A,'''	_, ok := date(resp.Header)
	return ok''','''	return resp.Header.Get("Date") != ""''')]),
('C02','bad',[(A,'''	case "HEAD":
	default''','''	case "HEAD", "POST":
	default''')]),
('C02','bad',[(H,'''	if c.strategy.store(resp) {
		c.store(key, resp)
	}

	return resp, nil''','''	if resp.StatusCode == 200 || c.strategy.store(resp) {
		c.store(key, resp)
	}

	return resp, nil''')]),
('C02','bad',[(H,'''	if c.strategy.store(newresp) {
		c.discard(resp)''','''	if newresp.StatusCode == 200 {
		c.discard(resp)''')]),
('C02','bad',[(H,'		return newresp, nil\n	}\n\n	// A 304','		c.store(key, newresp)\n		return newresp, nil\n	}\n\n	// A 304')]),
('C02','bad',[(U,'time.Parse(time.RFC1123, v)\n		date','time.Parse(time.RFC822, v)\n		date')]),
('C02','bad',[(U,'date, ok = t, (err == nil && !t.IsZero())','date, ok = t, true\n\t\t_ = err')]),
('C02','ok',[(R,'''	// The request method is cacheable.
	switch req.Method {
	case "GET":
	case "HEAD":
	default:
		return false
	}

	// The response status code is cacheable.
	switch resp.StatusCode {
	case 200, 203, 204, 206:
	case 300, 301:
	case 404, 405, 410, 414:
	case 501:
	default:
		return false
	}
''','''	if req.Method != "GET" && req.Method != "HEAD" || !cacheable[resp.StatusCode] {
		return false
	}
'''),(R,'// RFC7234 implements','''var cacheable = map[int]bool{
	200: true, 203: true, 204: true, 206: true, 300: true, 301: true,
	404: true, 405: true, 410: true, 414: true, 501: true,
}

// RFC7234 implements''')]),
('C02','ok',[(A,'''	_, ok := date(resp.Header)
	return ok''','''	if _, ok := date(resp.Header); !ok {
		return false
	}
	return true''')]),
('C02','ok',[(R,'''	if d, ok := date(resp.Header); ok {
		if maxage, ok := resd.duration("max-age"); ok {
			return maxage > 0
		}

		if exp, ok := expires(resp.Header); ok {
			return exp.Sub(d) > 0
		}
	}

	// The response has an explicit "lifetime" duration.
	return false
''','''	d, ok := date(resp.Header)
	if !ok {
		return false
	}
	lifetime, ok := explicit(resp.Header, resd, d)
	return ok && lifetime > 0
}

func explicit(h http.Header, resd directives, d time.Time) (time.Duration, bool) {
	if maxage, ok := resd.duration("max-age"); ok {
		return maxage, true
	}
	if exp, ok := expires(h); ok {
		return exp.Sub(d), true
	}
	return 0, false
''')]),
('C02','ok',[(U,'''	if v := h.Get("Date"); v != "" {
		t, err := time.Parse(time.RFC1123, v)
		date, ok = t, (err == nil && !t.IsZero())
	}
	return''','''	t, err := http.ParseTime(h.Get("Date"))
	if err != nil || t.IsZero() {
		return time.Time{}, false
	}
	return t, true''')]),
# C03
('C03','bad',[(H,'	case fresh:\n		return resp, nil\n\n	case stale:','	case fresh, transparent:\n		return resp, nil\n\n	case stale:')]),
('C03','bad',[(H,'		if reqd.has("stale-if-error") {','		if len(reqd) > 0 || reqd.has("stale-if-error") {')]),
('C03','bad',[(H,'newresp.StatusCode == 304','(newresp.StatusCode == 304 || newresp.StatusCode == 404)')]),
('C03','bad',[(H,'''	c.discard(newresp)
	c.discard(resp)
	return nil, nil''','''	c.discard(newresp)
	return resp, nil''')]),
('C03','bad',[(H,'''		return nil, fmt.Errorf("antcache: validate %d - %w", key, err)''','''		return resp, nil''')]),
('C03','bad',[(H,'newresp.StatusCode >= 500 &&','newresp.StatusCode >= 400 &&')]),
('C03','bad',[(H,'	case fresh:\n		return resp, nil\n\n','')]),
('C03','bad',[(H,'''	if newresp.StatusCode == 304 {
		c.discard(newresp)
		merge(resp.Header, newresp.Header)
		c.store(key, resp)
		return resp, nil
	}
''','''	if newresp.StatusCode == 304 && resp.Header.Get("ETag") != "" {
		c.discard(newresp)
		merge(resp.Header, newresp.Header)
		c.store(key, resp)
		return resp, nil
	}
''')]),
('C03','ok',[(H,'''	switch c.strategy.fresh(resp) {
	case fresh:
		return resp, nil

	case stale:
		return c.verify(ctx, key, resp)
	}

	return nil, nil
''','''	f := c.strategy.fresh(resp)
	if f == fresh {
		return resp, nil
	}
	if f != stale {
		return nil, nil
	}
	return c.verify(ctx, key, resp)
''')]),
('C03 C05 C02','ok',[(H,'''	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
		reqd := directivesFrom(req.Header)
		if reqd.has("stale-if-error") {
			c.discard(newresp)
			return resp, nil
		}
		return newresp, nil
	}
''','''	if s := newresp.StatusCode; s/100 == 5 {
		if !directivesFrom(req.Header).has("stale-if-error") {
			return newresp, nil
		}
		c.discard(newresp)
		return resp, nil
	}
''')]),
# C04
('C04','bad',[(R,'reqd.has("no-cache") || resd.has("no-cache")','reqd.has("no-cache")')]),
('C04','bad',[(R,'reqd.has("no-cache") || resd.has("no-cache")','resd.has("no-cache")')]),
('C04','bad',[(R,'age += minfresh','age -= minfresh')]),
('C04','bad',[(R,'age -= ms','age += ms')]),
('C04','bad',[(R,'if lifetime > age {','if lifetime < age {')]),
('C04','bad',[(R,'if lifetime > age {','if lifetime >= age {')]),
('C04','bad',[(R,'!explicit || maxage < lifetime','!explicit || maxage > lifetime')]),
('C04','bad',[(R,'if !explicit || maxage < lifetime {','if !explicit && false || maxage < lifetime {')]),
('C04','bad',[(R,'		if minfresh, ok := reqd.duration("min-fresh"); ok {\n			age += minfresh\n		}\n','')]),
('C04','bad',[(R,'minfresh, ok := reqd.duration("min-fresh")','minfresh, ok := resd.duration("min-fresh")')]),
('C04','bad',[(R,'maxage, ok := reqd.duration("max-age")','maxage, ok := reqd.duration("s-maxage")')]),
('C04','bad',[(R,'''	if reqd.has("only-if-cached") {
		return fresh
	}
''','')]),
('C04','bad',[(R,'''			if !ok {
				return fresh
			}
''','''			if !ok {
				return stale
			}
''')]),
('C04','bad',[(R,'lifetime, explicit = exp.Sub(d), true','lifetime, explicit = time.Until(exp), true')]),
('C04','bad',[(A,'time.Since(date) < a.lifetime()','time.Since(date) < a.age')]),
('C04','bad',[(A,'24 * time.Hour\n','24 * time.Minute\n')]),
('C04','bad',[(A,'	if directivesFrom(resp.Request.Header).has("no-cache") {\n		return transparent\n	}\n','')]),
('C04','bad',[(A,'directivesFrom(resp.Request.Header)','directivesFrom(resp.Header)')]),
('C04','bad',[(D,'		if n > maxseconds {\n			n = maxseconds\n		}\n','')]),
('C04','bad',[(D,'* time.Second','* time.Millisecond')]),
('C04','bad',[(D,'ParseInt(v, 10, 64)','ParseInt(v, 0, 64)')]),
('C04','bad',[(D,'		if errors.Is(err, strconv.ErrRange) {\n			err = nil\n		}\n','		_ = errors.Is\n')]),
('C04','ok',[(R,'''		var age = time.Since(d)
''','''		var age = time.Now().Sub(d)
''')]),
('C04','ok',[(R,'''		if lifetime > age {
			return fresh
		}
''','''		if age >= lifetime {
			return stale
		}
		return fresh
''')]),
('C04','ok',[(R,'''		if lifetime > age {
''','''		if lifetime-age > 0 {
''')]),
('C04','ok',[(R,'''		if maxage, ok := reqd.duration("max-age"); ok {
			if !explicit || maxage < lifetime {
				lifetime = maxage
			}
		}

		if minfresh''','''		if maxage, ok := reqd.duration("max-age"); ok {
			if explicit {
				lifetime = min(lifetime, maxage)
			} else {
				lifetime = maxage
			}
		}

		if minfresh''')]),
('C04','ok',[(A,'''	if date, ok := date(resp.Header); ok {
		if time.Since(date) < a.lifetime() {
			return fresh
		}
	}
	return transparent''','''	date, ok := date(resp.Header)
	if !ok || time.Since(date) >= a.lifetime() {
		return transparent
	}
	return fresh''')]),
('C04','ok',[(A,'''	if a.age > 0 {
		return a.age
	}
	return 24 * time.Hour''','''	age := a.age
	if age <= 0 {
		age = 24 * time.Hour
	}
	return age''')]),
('C04','ok',[(D,'''		n, err := strconv.ParseInt(v, 10, 64)

		// A number too large to be represented counts as
		// the largest one, see RFC 7234 Section 1.2.1.
		if errors.Is(err, strconv.ErrRange) {
			err = nil
		}
		if n > maxseconds {
			n = maxseconds
		}
		if n < -maxseconds {
			n = -maxseconds
		}

		td, ok = (time.Duration(n) * time.Second), err == nil
''','''		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil && !errors.Is(err, strconv.ErrRange) {
			return 0, false
		}
		return time.Second * time.Duration(min(max(n, -maxseconds), maxseconds)), true
''')]),
# C05
('C05','bad',[(H,'req.Header.Set("If-None-Match", etag)','req.Header.Set("If-Match", etag)')]),
('C05','bad',[(H,'		if req.Header.Get("If-None-Match") == "" {\n			req.Header.Set("If-None-Match", etag)\n		}','		req.Header.Set("If-None-Match", etag)')]),
('C05','bad',[(H,'hdr.Get("Last-Modified"); t != ""','hdr.Get("Date"); t != ""')]),
('C05','bad',[(H,'if t := hdr.Get("Last-Modified"); t != "" {','if t := hdr.Get("Last-Modified"); t != "" && hdr.Get("ETag") == "" {')]),
('C05','bad',[(H,'resp.Request.Clone(ctx)','resp.Request')]),
('C05','bad',[(H,'''		c.discard(newresp)
		merge(resp''','''		c.discard(newresp)
		c.discard(resp)
		merge(resp''')]),
('C05','bad',[(H,'		merge(resp.Header, newresp.Header)\n','')]),
('C05','bad',[(H,'merge(resp.Header, newresp.Header)','merge(newresp.Header, resp.Header)')]),
('C05','bad',[(H,'		merge(resp.Header, newresp.Header)\n		c.store(key, resp)\n','		merge(resp.Header, newresp.Header)\n')]),
('C05','bad',[(U,'		case "Connection":\n','')]),
('C05','bad',[(U,'		case "Te":\n','')]),
('C05','bad',[(U,'		case "Te":\n','		case "Te":\n		case "Date":\n')]),
('C05','bad',[(U,'			a[key] = b[key]','			a.Set(key, b.Get(key))')]),
('C05','bad',[(U,'			a[key] = b[key]','			if _, ok := a[key]; !ok {\n				a[key] = b[key]\n			}')]),
('C05','ok',[(U,'			a[key] = b[key]','			a[key] = append([]string(nil), b[key]...)')]),
('C05','ok',[(U,'''	for key := range b {
		switch key {''','''	for key, values := range b {
		_ = values
		switch key {''')]),
('C05','ok',[(U,'''	for key := range b {
		switch key {
		case "Connection":
		case "Keep-Alive":
		case "Proxy-Authenticate":
		case "Proxy-Authorization":
		case "Te":
		case "Trailer":
		case "Trailers":
		case "Transfer-Encoding":
		case "Upgrade":

		default:
			a[key] = b[key]
		}
	}
}''','''	for key, values := range b {
		if !hopbyhop[key] {
			a[key] = values
		}
	}
}

var hopbyhop = map[string]bool{
	"Connection":          true,
	"Keep-Alive":          true,
	"Proxy-Authenticate":  true,
	"Proxy-Authorization": true,
	"Te":                  true,
	"Trailer":             true,
	"Trailers":            true,
	"Transfer-Encoding":   true,
	"Upgrade":             true,
}''')]),
('C05','ok',[(H,'''	if etag := hdr.Get("ETag"); etag != "" {
		if req.Header.Get("If-None-Match") == "" {
			req.Header.Set("If-None-Match", etag)
		}
	}

	if t := hdr.Get("Last-Modified"); t != "" {
		if req.Header.Get("If-Modified-Since") == "" {
			req.Header.Set("If-Modified-Since", t)
		}
	}
''','''	condition(req.Header, "If-None-Match", hdr.Get("ETag"))
	condition(req.Header, "If-Modified-Since", hdr.Get("Last-Modified"))
'''),(H,'// Store stores the given response.\n//\n// The method overwrites','''func condition(h http.Header, name, value string) {
	if value != "" && h.Get(name) == "" {
		h.Set(name, value)
	}
}

// Store stores the given response.
//
// The method overwrites''')]),
('C05','ok',[(H,'		merge(resp.Header, newresp.Header)\n		c.store(key, resp)\n','		c.store(key, resp)\n		merge(resp.Header, newresp.Header)\n')]),
# C07
('C07','bad',[(U,'req.Method + ":" + req.URL.String()','req.URL.String()')]),
('C07','bad',[(U,'req.URL.String()','req.URL.Host + req.URL.Path')]),
('C07','bad',[(U,'req.Method + ":" + req.URL.String()','"GET:" + req.URL.String()')]),
('C07','bad',[(U,'req.URL.String()','strings.ToLower(req.URL.String())')]),
('C07','bad',[(H,'''		c.discard(resp)
		c.store(key, newresp)''','''		c.discard(resp)
		c.store(keyof(newresp.Request), newresp)''')]),
('C07','ok',[(U,'''	return murmur3.Sum64([]byte(
		req.Method + ":" + req.URL.String(),
	))''','''	id := strings.Join([]string{req.Method, req.URL.String()}, ":")
	return murmur3.Sum64([]byte(id))''')]),
('C07','ok',[(H,'c.store(key, resp)\n	}\n\n	return resp, nil\n}\n\n// Load','c.store(keyof(req), resp)\n	}\n\n	return resp, nil\n}\n\n// Load')]),
]
