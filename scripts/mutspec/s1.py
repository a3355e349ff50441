P='page.go'; L='list.go'; J='json.go'; S='internal/selectors/selectors.go'
ONCE='''	p.once.Do(func() {
		if p.root, p.err = html.Parse(p.body); p.err != nil {
			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)
		}
		p.close()
	})
	return p.err
'''
HREF='''		if href, ok := scan.Attr(a, "href"); ok {
			u, err := url.Parse(href)
			if err != nil {
				continue
			}

			if !u.IsAbs() {
				u = p.URL.ResolveReference(u)
			}

			switch u.Scheme {
			case "https", "http":
				ret = append(ret, u)
			}
		}
'''
AT='''	if i >= 0 {
		if len(l) > i {
			return List{l[i]}
		}
		return List{}
	}

	if i = len(l) + i; i >= 0 {
		if len(l) > i {
			return List{l[i]}
		}
	}

	return List{}
'''
ENC='''	j.lock.Lock()
	defer j.lock.Unlock()
	return j.enc.Encode(v)
'''
NEXT='''		for _, sel := range j.selectors {
			urls, err := p.Next(sel)
			if err != nil {
				return nil, err
			}
			next = append(next, urls...)
		}
'''
MUT=[
('S01','bad',[(P,ONCE,ONCE.replace('		p.close()\n',''))]),
('S01','bad',[(P,ONCE,ONCE.replace('''			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)
''','			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)\n			return\n'))]),
('S01','bad',[(P,ONCE,ONCE.replace('- %w','- %s'))]),
('S01','bad',[(P,ONCE,'''	if p.root != nil || p.err != nil {
		return p.err
	}
	if p.root, p.err = html.Parse(p.body); p.err != nil {
		p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)
	}
	p.close()
	return p.err
''')]),
('S01','bad',[(P,ONCE,'''	var err error
	p.once.Do(func() {
		if p.root, err = html.Parse(p.body); err != nil {
			err = fmt.Errorf("ant: parse html %q - %w", p.URL, err)
		}
		p.close()
	})
	return err
''')]),
('S01','bad',[(P,'''	if err := p.parse(); err != nil {
		return ret
	}
''','	p.parse()\n')]),
('S01','bad',[(P,'''func (p *Page) Next(selector string) (URLs, error) {
	if err := p.parse(); err != nil {
		return nil, err
	}
''','''func (p *Page) Next(selector string) (URLs, error) {
''')]),
('S01','bad',[(P,'''	if err := p.parse(); err != nil {
		return nil, err
	}
	return p.root, nil''','''	p.parse()
	return p.root, nil''')]),
('S01','bad',[(P,'''	io.Copy(io.Discard, p.body)
	return p.body.Close()''','''	return p.body.Close()''')]),
('S01','bad',[(P,'''	io.Copy(io.Discard, p.body)
	return p.body.Close()''','''	if p.err != nil {
		return p.err
	}
	io.Copy(io.Discard, p.body)
	return p.body.Close()''')]),
('S01','bad',[(P,ONCE,ONCE.replace('p.once.Do','new(sync.Once).Do'))]),
('S01','bad',[(P,ONCE,ONCE.replace('	return p.err','	defer func() { p.err = nil }()\n	return p.err'))]),
('S01 S02','ok',[(P,ONCE,'''	p.once.Do(p.load)
	return p.err
}

func (p *Page) load() {
	defer p.close()
	root, err := html.Parse(p.body)
	if err != nil {
		p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, err)
		return
	}
	p.root = root
''')]),
('S01 S02','ok',[(P,ONCE,ONCE.replace('html.Parse(p.body)','html.Parse(bufio.NewReader(p.body))')),(P,'"bytes"\n','"bytes"\n	"bufio"\n')]),
('S01 S02','ok',[(P,'''	if err := p.parse(); err != nil {
		return ret
	}

	if s, err := selectors.Compile(selector); err == nil {
		ret = s.MatchAll(p.root)
	}

	return ret
''','''	doc, err := p.Document()
	if err != nil {
		return nil
	}

	s, err := selectors.Compile(selector)
	if err != nil {
		return nil
	}

	ret = s.MatchAll(doc)
	return ret
''')]),
# S02
('S02','bad',[(P,HREF,HREF.replace('continue','break'))]),
('S02','bad',[(P,HREF,HREF.replace('p.URL.ResolveReference(u)','(&url.URL{Scheme: p.URL.Scheme, Host: p.URL.Host}).ResolveReference(u)'))]),
('S02','bad',[(P,HREF,HREF.replace('''			if !u.IsAbs() {
				u = p.URL.ResolveReference(u)
			}
''','''			if u.Host == "" && u.Scheme == "" {
				u = p.URL.ResolveReference(u)
			}
			if u.Scheme == "" {
				u.Scheme = "http"
			}
'''))]),
('S02','bad',[(P,HREF,HREF.replace('case "https", "http":','case "https", "http", "ftp":'))]),
('S02','bad',[(P,HREF,HREF.replace('''			switch u.Scheme {
			case "https", "http":
				ret = append(ret, u)
			}''','''			if u.Scheme != "javascript" && u.Scheme != "mailto" {
				ret = append(ret, u)
			}'''))]),
('S02','bad',[(P,HREF,HREF.replace('''ret = append(ret, u)''','''ret = append(URLs{u}, ret...)'''))]),
('S02','bad',[(P,HREF,HREF.replace('; ok {','; ok || len(href) == 0 {'))]),
('S02','bad',[(P,HREF,HREF.replace('if err != nil {','if err != nil || u.Fragment != "" {'))]),
('S02','bad',[(P,HREF,HREF.replace('case "https", "http":','default:\n				return ret\n			case "https", "http":'))]),
('S02','bad',[(P,'	for _, a := range anchors {\n','	for i := len(anchors) - 1; i >= 0; i-- {\n		a := anchors[i]\n')]),
('S02','bad',[(P,'	for _, a := range anchors {\n','	for i := 1; i < len(anchors); i++ {\n		a := anchors[i]\n')]),
('S02','bad',[(P,'var anchors = p.Query(selector)','var anchors = p.Query("a[href]")')]),
('S02','bad',[(P,HREF,HREF.replace('"href"','"data-href"'))]),
('S02','bad',[(P,HREF,HREF.replace('case "https", "http":','case "https", "http":\n				ret = append(ret, u)'))]),
('S02','bad',[(S,'c.m.Store(selector, v)','c.m.Store(selector[:1], v)')]),
('S02','bad',[(S,'c.m.Load(selector)','c.m.Load(strings.ToLower(selector))'),(S,'"sync"','"sync"\n	"strings"'),]),
('S02','ok',[(P,HREF,HREF.replace('''			if !u.IsAbs() {
				u = p.URL.ResolveReference(u)
			}
''','''			u = p.URL.ResolveReference(u)
'''))]),
('S02','ok',[(P,HREF,'''		href, ok := scan.Attr(a, "href")
		if !ok {
			continue
		}
		u, err := p.URL.Parse(href)
		if err != nil {
			continue
		}
		if u.Scheme != "http" && u.Scheme != "https" {
			continue
		}
		ret = append(ret, u)
''')]),
('S02','ok',[(P,HREF,'''		if u, ok := p.link(a); ok {
			ret = append(ret, u)
		}
'''),(P,'// Close closes the page','''func (p *Page) link(a *html.Node) (*url.URL, bool) {
	href, ok := scan.Attr(a, "href")
	if !ok {
		return nil, false
	}

	u, err := url.Parse(href)
	if err != nil {
		return nil, false
	}

	if !u.IsAbs() {
		u = p.URL.ResolveReference(u)
	}

	return u, u.Scheme == "http" || u.Scheme == "https"
}

// Close closes the page''')]),
('S02','ok',[(P,'	for _, a := range anchors {\n','	for i := 0; i < len(anchors); i++ {\n		a := anchors[i]\n')]),
('S02','ok',[(P,'var ret = make(URLs, 0, len(anchors))','var ret URLs')]),
('S02','ok',[(P,'''	var anchors = p.Query(selector)
	var ret = make(URLs, 0, len(anchors))
''','''	var anchors = p.Query(selector)
	if len(anchors) == 0 {
		return nil
	}
	ret := make(URLs, 0, len(anchors))
''')]),
# S05
('S05','bad',[(L,AT,AT.replace('len(l) > i','len(l) >= i'))]),
('S05','bad',[(L,AT,AT.replace('i = len(l) + i; i >= 0','i = len(l) + i; i > 0'))]),
('S05','bad',[(L,AT,AT.replace('i = len(l) + i; i >= 0','i = len(l) + i; i >= -1'))]),
('S05','bad',[(L,AT,'	if i < 0 {\n		i += len(l)\n	}\n	if i >= len(l) {\n		return List{}\n	}\n	return List{l[i]}\n')]),
('S05','bad',[(L,AT,'	if i < 0 {\n		i = -i\n	}\n	if i >= len(l) {\n		return List{}\n	}\n	return List{l[i]}\n')]),
('S05','bad',[(L,AT,AT.replace('if i >= 0','if i > 0'))]),
('S05','bad',[(L,AT,AT.replace('return List{l[i]}','return l[i:]',1))]),
('S05','bad',[(L,'''	for _, n := range l {
		return scan.Attr(n, key)
	}
	return "", false''','''	return scan.Attr(l[0], key)''')]),
('S05','bad',[(L,'''	for _, n := range l {
		return scanner.Scan(dst, n, scan.Options{})
	}
	return nil''','''	return scanner.Scan(dst, l[0], scan.Options{})''')]),
('S05','ok',[(L,AT,'	if i < 0 {\n		i += len(l)\n	}\n	if i < 0 || i >= len(l) {\n		return List{}\n	}\n	return List{l[i]}\n')]),
('S05','ok',[(L,AT,'	if i < 0 {\n		i += len(l)\n	}\n	if 0 <= i && i < len(l) {\n		return l[i : i+1]\n	}\n	return nil\n')]),
('S05','ok',[(L,AT,'''	switch n := len(l); {
	case i >= n, i < -n:
		return List{}
	case i < 0:
		return List{l[n+i]}
	default:
		return List{l[i]}
	}
''')]),
('S05','ok',[(L,'''	for _, n := range l {
		return scan.Attr(n, key)
	}
	return "", false''','''	if len(l) == 0 {
		return "", false
	}
	return scan.Attr(l[0], key)''')]),
('S05','ok',[(L,'''			if sel.Match(n) {
				matched = true
				break
			}
''','''			if sel.Match(n) {
				return true
			}
''')]),
# S06
('S06','bad',[(J,ENC,'	return j.enc.Encode(v)\n')]),
('S06','bad',[(J,NEXT,NEXT.replace('append(next, urls...)','append(urls, next...)'))]),
('S06','bad',[(J,NEXT,NEXT.replace('				return nil, err','				continue'))]),
('S06','bad',[(J,NEXT,NEXT.replace('next = append(next, urls...)','if len(next) == 0 {\n				next = append(next, urls...)\n			}'))]),
('S06','bad',[(J,'if len(j.selectors) > 0 {','if len(j.selectors) > 1 {')]),
('S06','bad',[(J,'''	if err := p.Scan(v.Interface()); err != nil {
		return nil, err
	}
''','''	if err := p.Scan(v.Interface()); err != nil {
		j.encode(v.Interface())
		return nil, err
	}
''')]),
('S06','bad',[(J,'''		return nil, fmt.Errorf("ant: json encode %s - %w", j.typ, err)
''','''		return p.URLs(), fmt.Errorf("ant: json encode %s - %w", j.typ, err)
''')]),
('S06','bad',[(J,'''		return nil, fmt.Errorf("ant: json encode %s - %w", j.typ, err)
''','''		return nil, fmt.Errorf("ant: json encode %s - %s", j.typ, err)
''')]),
('S06','bad',[(J,'	var v = reflect.New(j.typ)\n','	var v = j.val\n'),(J,'	lock      sync.Mutex\n','	lock      sync.Mutex\n	val       reflect.Value\n'),(J,'		typ:       typ,\n','		typ:       typ,\n		val:       reflect.New(typ),\n')]),
('S06','bad',[(J,'	return j.enc.Encode(v)','	if err := j.enc.Encode(v); err != nil {\n		return j.enc.Encode(v)\n	}\n	return nil')]),
('S06','bad',[(J,'	return p.URLs(), nil','	return nil, nil')]),
('S06','ok',[(J,ENC,'	j.lock.Lock()\n	err := j.enc.Encode(v)\n	j.lock.Unlock()\n	return err\n')]),
('S06','ok',[(J,'	if len(j.selectors) > 0 {\n','	if len(j.selectors) == 0 {\n		return p.URLs(), nil\n	}\n	{\n'),]),
('S06','ok',[(J,NEXT,'''		for i := range j.selectors {
			urls, err := p.Next(j.selectors[i])
			if err != nil {
				return nil, fmt.Errorf("ant: next - %w", err)
			}
			next = append(next, urls...)
		}
''')]),
('S06','ok',[(J,NEXT,'''		for _, sel := range j.selectors {
			urls, err := p.Next(sel)
			if err != nil {
				return nil, err
			}
			for _, u := range urls {
				next = append(next, u)
			}
		}
''')]),
('S06','ok',[(J,'''	if err := j.encode(v.Interface()); err != nil {
		return nil, fmt.Errorf("ant: json encode %s - %w", j.typ, err)
	}
''','''	err := j.encode(v.Interface())
	if err != nil {
		return nil, fmt.Errorf("ant: json encode %s - %w", j.typ, err)
	}
''')]),
('S06','ok',[(J,'''	if len(j.selectors) > 0 {
		var next URLs
'''+NEXT+'''		return next, nil
	}

	return p.URLs(), nil
}
''','''	return j.next(p)
}

func (j *jsonscraper) next(p *Page) (URLs, error) {
	if len(j.selectors) == 0 {
		return p.URLs(), nil
	}
	var next URLs
'''+NEXT+'''	return next, nil
}
''')]),
]
