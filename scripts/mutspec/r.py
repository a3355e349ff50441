F='internal/robots/cache.go'
MUT=[
('R01','bad',[(F,'v, ok := c.lru.Get(url.Host)','v, ok := c.lru.Get(url.Hostname())')]),
('R01','bad',[(F,'ua := req.userAgent()\n\n	if len(path)','x') if 0 else (F,'var path = req.URL.Path\n','var path = req.URL.EscapedPath()\n')]) if 0 else
('R01','bad',[(F,'path += "?" + q','path += q')]),
('R01','bad',[(F,'if resp.StatusCode >= 400 {','if resp.StatusCode >= 400 && resp.StatusCode < 500 {')]),
('R01','bad',[(F,'if resp.StatusCode >= 400 {','if resp.StatusCode > 400 {')]),
('R01 R03','bad',[(F,'return "*"','return "ant"')]),
('R01','bad',[(F,'return host.test(path, ua), nil','return host.test(path, "*"), nil')]),
('R01','bad',[(F,'return host.test(path, ua), nil','return host.test(path, ua) || len(path) == 1, nil')]),
('R02','bad',[(F,'return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)','c.lru.Set(url.Host, &Host{}); return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)')]),
('R02','bad',[(F,'return nil, fmt.Errorf("robots: parse robots.txt - %w", err)','return &Host{}, nil')]),
('R02','bad',[(F,'return false, err\n','return true, err\n')]),
('R02','bad',[(F,'		MaxAge:             1 * time.Hour,\n','')]),
('R02','bad',[(F,'	data, err := robotstxt.FromResponse(resp)\n	if err','	data, err := robotstxt.FromResponse(resp)\n	c.lru.Set(url.Host, &Host{data: data})\n	if err')]),
('R02','bad',[(F,'robots: GET %q - %w','robots: GET %q - %v')]),
('R03','bad',[(F,'time.NewTimer(d)','time.NewTimer(d/2)')]),
('R03','bad',[(F,'d > 0 {','d > time.Second {')]),
('R03','bad',[(F,'				return ctx.Err()\n','				return nil\n')]),
('R03','bad',[(F,'case <-ctx.Done():\n				return ctx.Err()\n','')]),
('R03','bad',[(F,'	if v, ok := c.lru.Get(url.Host); ok {\n		return v.(*Host), nil','	if v, ok := c.lru.Get(url.Host); ok && ua != "x" {\n		return v.(*Host), nil'),(F,'if d := g.CrawlDelay; d > 0 {','if d := g.CrawlDelay; d > 0 && len(req.URL.Path) > 0 {')]),
# same behaviour
('R01 R02 R03 F05 E04 E05','ok',[(F,'	if len(path) == 0 || path[0] != \'/\' {\n		path = "/" + path\n	}','	if !strings.HasPrefix(path, "/") {\n		path = "/" + path\n	}'),(F,'	"net/url"\n','	"net/url"\n	"strings"\n')]),
('R01 R02 R03','ok',[(F,'	if h.data != nil {\n		return h.data.TestAgent(path, ua)\n	}\n	return true','	if h.data == nil {\n		return true\n	}\n	return h.data.FindGroup(ua).Test(path)')]),
('R01 R02 R03 F05','ok',[(F,'	s := &Host{data: data}\n	c.lru.Set(url.Host, s)\n	return s, nil\n}','	return c.remember(url, data), nil\n}\n\nfunc (c *Cache) remember(u *url.URL, d *robotstxt.RobotsData) *Host {\n	h := &Host{data: d}\n	c.lru.Set(u.Host, h)\n	return h\n}'),(F,'		s := &Host{}\n		c.lru.Set(url.Host, s)\n		return s, nil','		return c.remember(url, nil), nil')]),
('R01 R02 R03','ok',[(F,'	if g, ok := host.find(ua); ok {\n		if d := g.CrawlDelay; d > 0 {','	g, ok := host.find(ua)\n	if !ok || g.CrawlDelay <= 0 {\n		return nil\n	}\n	{\n		d := g.CrawlDelay\n		{')]),
('R01 R02 R03 F05','ok',[(F,'return host.test(path, ua), nil','allowed := host.test(path, ua)\n	if !allowed {\n		return false, nil\n	}\n	return true, nil')]),
('R03 R01','ok',[(F,'			t := time.NewTimer(d)\n			defer t.Stop()\n			select {\n			case <-ctx.Done():\n				return ctx.Err()\n			case <-t.C:\n				return nil\n			}','			return pause(ctx, d)'),(F,'// Lookup returns','func pause(ctx context.Context, d time.Duration) error {\n	select {\n	case <-time.After(d):\n	case <-ctx.Done():\n		return ctx.Err()\n	}\n	return nil\n}\n\n// Lookup returns')]),
]
