U='internal/normalize/url.go'
HOST=open('/repo/'+U).read().split('// Hostname normalizes the hostname.\n')[1].split('// Pathname')[0]
PATH=open('/repo/'+U).read().split('// Pathname normalizes the pathname.\n')[1].split('// Query')[0]
QUERY=open('/repo/'+U).read().split('// Query sorts the given query.\n')[1]
MUT=[
('N01','bad',[(U,'u.Scheme = strings.ToLower(u.Scheme)\n\tu.Host = hostname(u)','u.Host = hostname(u)\n\tu.Scheme = strings.ToLower(u.Scheme)')]) if False else
('N01','bad',[(U,'strings.ToLower(u.Scheme)','u.Scheme')]),
('N01','bad',[(U,'strings.ToLower(u.Host)','u.Host')]),
('N01','bad',[(U,'LastIndexByte','IndexByte')]),
('N01','bad',[(U,'port == "443"','port == "80"')]),
('N01','bad',[(U,'u.Scheme == "http" && port == "80"','port == "80"')]),
('N01','bad',[(U,'path.Clean("/" + u.Path)','path.Clean(u.Path)')]),
('N01','bad',[(U,'path.Clean("/" + u.Path)','"/" + u.Path')]),
('N01','bad',[(U,'\tu.RawPath = ""\n','')]),
('N01','bad',[(U,'\tu.Fragment = ""\n','')]),
('N01','bad',[(U,'\tu.Fragment = ""\n','\tif u.RawQuery == "" {\n\t\tu.Fragment = ""\n\t}\n')]),
('N01','bad',[(U,'\tu.ForceQuery = false\n','')]),
('N01','bad',[(U,'\t\tsort.Strings(parts)\n','')]),
('N01','bad',[(U,'\t\tsort.Strings(parts)\n','\t\tif len(parts) < 10 {\n\t\t\tsort.Strings(parts)\n\t\t}\n')]),
('N01','bad',[(U,'u.RawQuery = query(u.RawQuery)','u.RawQuery = strings.ToLower(query(u.RawQuery))')]),
('N01','bad',[(U,'host[:j]','host[:j+1]')]) if False else
('N01','bad',[(U,'return URL(u).String(), nil','return u.String(), nil')]),
('N01','bad',[(U,'return URL(u).String(), nil','if u.Host == "" {\n\t\treturn rawurl, nil\n\t}\n\treturn URL(u).String(), nil')]),
('N01','bad',[(U,'\t\tcase u.Scheme == "https" && port == "443":\n\t\t\treturn host[:j]\n','')]),
('N01','bad',[(U,'\tu.Host = hostname(u)\n','\tif u.User == nil {\n\t\tu.Host = hostname(u)\n\t}\n')]),
('N01','bad',[(U,'\tu.Path = pathname(u)\n','\tif strings.Contains(u.Path, "..") {\n\t\tu.Path = pathname(u)\n\t}\n')]),
('N01','bad',[(U,PATH,'func pathname(u *url.URL) string {\n\tif !strings.Contains(u.Path, "/.") {\n\t\treturn u.Path\n\t}\n\treturn path.Clean("/" + u.Path)\n}\n\n')]),
# refactorings
('N01','ok',[(U,HOST,'''func hostname(u *url.URL) string {
	host := strings.ToLower(u.Host)
	switch u.Scheme {
	case "http":
		return strings.TrimSuffix(host, ":80")
	case "https":
		return strings.TrimSuffix(host, ":443")
	}
	return host
}

''')]),
('N01','ok',[(U,HOST,'''var ports = map[string]string{"http": "80", "https": "443"}

func hostname(u *url.URL) string {
	host := strings.ToLower(u.Host)
	if p, ok := ports[u.Scheme]; ok {
		return strings.TrimSuffix(host, ":"+p)
	}
	return host
}

''')]),
('N01','ok',[(U,HOST,'''func hostname(u *url.URL) string {
	host := strings.ToLower(u.Host)
	if defaultPort(u.Scheme, u.Port()) {
		return host[:strings.LastIndexByte(host, ':')]
	}
	return host
}

func defaultPort(scheme, port string) bool {
	return scheme == "http" && port == "80" || scheme == "https" && port == "443"
}

''')]),
('N01','ok',[(U,HOST,'''func hostname(u *url.URL) string {
	host := strings.ToLower(u.Host)
	j := strings.LastIndex(host, ":")
	if j < 0 {
		return host
	}
	port := host[j+1:]
	if (u.Scheme == "http" && port == "80") || (u.Scheme == "https" && port == "443") {
		host = host[:j]
	}
	return host
}

''')]),
('N01','ok',[(U,PATH,'func pathname(u *url.URL) string {\n\treturn path.Join("/", u.Path)\n}\n\n')]),
('N01','ok',[(U,PATH,'func pathname(u *url.URL) string {\n\tif u.Path == "" || u.Path == "/" {\n\t\treturn "/"\n\t}\n\treturn path.Clean("/" + u.Path)\n}\n\n')]),
('N01','ok',[(U,PATH,'func pathname(u *url.URL) string {\n\tp := u.Path\n\tif !strings.HasPrefix(p, "/") {\n\t\tp = "/" + p\n\t}\n\treturn path.Clean(p)\n}\n\n')]),
('N01','ok',[(U,QUERY,'''func query(query string) string {
	if query == "" {
		return ""
	}
	parts := strings.Split(query, "&")
	sort.Slice(parts, func(i, j int) bool { return parts[i] < parts[j] })
	return strings.Join(parts, "&")
}
''')]),
('N01','ok',[(U,QUERY,'''func query(query string) string {
	parts := strings.Split(query, "&")
	if len(parts) > 1 {
		sort.Sort(sort.StringSlice(parts))
	}
	return strings.Join(parts, "&")
}
''')]),
('N01','ok',[(U,QUERY,'''func query(query string) string {
	if query == "" || !strings.Contains(query, "&") {
		return query
	}
	parts := sorted(strings.Split(query, "&"))
	return strings.Join(parts, "&")
}

func sorted(s []string) []string {
	sort.Strings(s)
	return s
}
''')]),
('N01','ok',[(U,'''	u.Scheme = strings.ToLower(u.Scheme)
	u.Host = hostname(u)
	u.Path = pathname(u)
''','''	u.Path = pathname(u)
	u.Scheme = strings.ToLower(u.Scheme)
	u.Host = hostname(u)
''')]),
('N01','ok',[(U,'''	u.Scheme = strings.ToLower(u.Scheme)
''','''	v := *u
	u = &v
	u.Scheme = strings.ToLower(u.Scheme)
''')]),
('N01','ok',[(U,'return URL(u).String(), nil','n := URL(u)\n\treturn n.String(), nil')]),
]
