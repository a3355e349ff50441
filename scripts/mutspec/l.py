LP='match.Match(u.Host+normalizePath(u.Path), pattern)'
LR='re.MatchString(u.Host + normalizePath(u.Path))'
W='''		if u.Host == name {
			return l.Wait(ctx)
		}
		return nil
'''
NP='''	if len(p) > 0 && p[0] != '/' {
		return "/" + p
	}
	return p
'''
L='limiters.go'; M='matchers.go'
MUT=[
(['L01'],'bad',[(L,LP,'match.Match(u.Host+u.Path, pattern)')]),
(['L01'],'bad',[(L,LR,'re.MatchString(u.Host+u.Path)')]),
(['L01'],'bad',[(L,LR,'re.MatchString(u.Hostname()+normalizePath(u.Path))')]),
(['L01'],'bad',[(M,'re.MatchString(url.Host + normalizePath(url.Path))','re.MatchString(url.Host + normalizePath(url.EscapedPath()))')]),
(['L01'],'bad',[(M,'return url.Host == host','return url.Hostname() == host')]),
(['L01'],'bad',[(M,'return url.Host == host','return len(url.Host) >= len(host) && url.Host[:len(host)] == host')]),
(['L01'],'bad',[(L,W,W.replace('u.Host ==','u.Hostname() =='))]),
(['L01'],'bad',[(M,'re, err := regexp.Compile(expr)','re, err := regexp.Compile("^" + expr)')]),
(['L01'],'bad',[(L,LP,'match.Match(pattern, u.Host+normalizePath(u.Path))')]),
(['L01'],'bad',[(L,LP,'match.Match(u.Scheme+"://"+u.Host+normalizePath(u.Path), pattern)')]),
(['L01'],'bad',[(L,LP,'match.Match(u.Host+normalizePath(u.RequestURI()), pattern)')]),
(['L01'],'bad',[(L,LP,'match.Match(u.Host+"/"+u.Path, pattern)')]),
(['L01'],'bad',[(M,NP,NP.replace("return p\n",'if p == "" {\n\t\treturn ""\n\t}\n\treturn p[1:]\n'))]),
(['L01'],'bad',[(M,'return match.Match(url.Host+normalizePath(url.Path), pattern)','return match.Match(url.Host+normalizePath(url.Path), pattern) || url.Path == ""')]),
(['L02'],'bad',[(L,W,W.replace('return l.Wait(ctx)','l = rate.NewLimiter(rate.Limit(n), n)\n\treturn l.Wait(ctx)'))]),
(['L02'],'bad',[(L,W,W.replace('return l.Wait(ctx)','return l.Wait(context.Background())'))]),
(['L02'],'bad',[(L,W,W.replace('return l.Wait(ctx)','l.Wait(ctx)'))]),
(['L02'],'bad',[(L,W,W.replace('return l.Wait(ctx)','if !l.Allow() {\n\treturn l.Wait(ctx)\n}'))]),
(['L02'],'bad',[(L,W,W.replace('==','!='))]),
(['L02'],'bad',[(L,'	return func(ctx context.Context, _ *url.URL) error {\n		return l.Wait(ctx)','	return func(ctx context.Context, u *url.URL) error {\n		if u.Path == "/" {\n			return nil\n		}\n		return l.Wait(ctx)')]),
(['L02'],'bad',[(L,W,W.replace('return l.Wait(ctx)','if err := l.Wait(ctx); err != nil && err != context.Canceled {\n\treturn err\n}'))]),
(['L02'],'bad',[(L,'func LimitHostname(n int, name string) LimiterFunc {\n	l := rate.NewLimiter(rate.Limit(n), n)','func LimitHostname(n int, name string) LimiterFunc {\n	l := rate.NewLimiter(rate.Limit(n), 2*n)')]),
(['L02'],'bad',[(L,'func LimitHostname(n int, name string) LimiterFunc {\n	l := rate.NewLimiter(rate.Limit(n), n)','func LimitHostname(n int, name string) LimiterFunc {\n	l := rate.NewLimiter(rate.Inf, n)')]),
(['L02'],'bad',[(L,W,W.replace('return l.Wait(ctx)','return l.WaitN(ctx, n)'))]),
(['L01','L02'],'ok',[(L,W,'''		if u.Host != name {
			return nil
		}
		if err := l.Wait(ctx); err != nil {
			return err
		}
		return nil
''')]),
(['L01','L02'],'ok',[(L,W,W.replace('return l.Wait(ctx)','if err := l.Wait(ctx); err != nil {\n\treturn fmt.Errorf("ant: limit %w", err)\n}'))]),
(['L01','L02'],'ok',[(M,NP,'''	if p == "" || p[0] == '/' {
		return p
	}
	return "/" + p
''')]),
(['L01','L02'],'ok',[(M,NP,'''	switch {
	case p == "":
		return p
	case strings.HasPrefix(p, "/"):
		return p
	default:
		return "/" + p
	}
'''),(M,'"regexp"\n','"regexp"\n	"strings"\n')]),
(['L01','L02'],'ok',[(L,LP,'match.Match(text(u), pattern)'),(L,LR,'re.MatchString(text(u))'),(L,'// Limit returns a new limiter.','func text(u *url.URL) string { host := u.Host; path := normalizePath(u.Path); return host + path }\n\n// Limit returns a new limiter.')]),
(['L01','L02'],'ok',[(L,'func LimitHostname(n int, name string) LimiterFunc {\n	l := rate.NewLimiter(rate.Limit(n), n)','func LimitHostname(n int, name string) LimiterFunc {\n	l := bucket(n)'),(L,'// Limit returns a new limiter.','func bucket(n int) *rate.Limiter {\n	return rate.NewLimiter(rate.Limit(n), n)\n}\n\n// Limit returns a new limiter.')]),
(['L01','L02'],'ok',[(L,'''	return func(ctx context.Context, u *url.URL) error {
		if match.Match(u.Host+normalizePath(u.Path), pattern) {
			return l.Wait(ctx)
		}
		return nil
	}
''','''	return limitIf(l, func(u *url.URL) bool {
		return match.Match(u.Host+normalizePath(u.Path), pattern)
	})
'''),(L,'// Limit returns a new limiter.','''func limitIf(l *rate.Limiter, applies func(*url.URL) bool) LimiterFunc {
	return func(ctx context.Context, u *url.URL) error {
		if !applies(u) {
			return nil
		}
		return l.Wait(ctx)
	}
}

// Limit returns a new limiter.''')]),
(['L01','L02'],'ok',[(L,'''	return func(ctx context.Context, u *url.URL) error {
		if match.Match(u.Host+normalizePath(u.Path), pattern) {
			return l.Wait(ctx)
		}
		return nil
	}
''','''	m := MatchPattern(pattern)
	_ = match.Match
	return func(ctx context.Context, u *url.URL) error {
		if m.Match(u) {
			return l.Wait(ctx)
		}
		return nil
	}
''')]),
(['L01','L02'],'ok',[(M,'''	re, err := regexp.Compile(expr)
	if err != nil {
		panic(fmt.Sprintf("ant: regexp %q - %s", expr, err))
	}
	return func''','''	re := compile(expr)
	return func'''),(M,'// NormalizePath','''func compile(expr string) *regexp.Regexp {
	re, err := regexp.Compile(expr)
	if err != nil {
		panic(fmt.Sprintf("ant: regexp %q - %s", expr, err))
	}
	return re
}

// NormalizePath''')]),
(['L01','L02'],'ok',[(M,'return url.Host == host','if url.Host != host {\n\t\t\treturn false\n\t\t}\n\t\treturn true')]),
]
