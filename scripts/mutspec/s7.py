# S07: queries
MUT = []
L, P, N, S = 'list.go', 'page.go', 'internal/scan/nodes.go', 'internal/selectors/selectors.go'
def bad(*e): MUT.append(('S07', 'bad', list(e)))
def ok(*e): MUT.append(('S07', 'ok', list(e)))
QL = '''		for _, n := range l {
			ret = append(ret, sel.MatchAll(n)...)
		}
'''
bad((L, QL, '''		for _, n := range l {
			ret = sel.MatchAll(n)
		}
'''))
bad((L, QL, '''		for _, n := range l {
			if m := sel.MatchAll(n); len(m) > 0 {
				ret = append(ret, m...)
				break
			}
		}
'''))
bad((L, QL, '''		for _, n := range l[1:] {
			ret = append(ret, sel.MatchAll(n)...)
		}
'''))
bad((L, QL, '''		for i := 0; i < len(l)-1; i++ {
			ret = append(ret, sel.MatchAll(l[i])...)
		}
'''))
bad((L, QL, '''		for _, n := range l {
			ret = append(sel.MatchAll(n), ret...)
		}
'''))
bad((L, QL, '''		for _, n := range l {
			if n.FirstChild == nil {
				continue
			}
			ret = append(ret, sel.MatchAll(n)...)
		}
'''))
bad((L, QL, '''		for _, n := range l {
			if m := sel.MatchFirst(n); m != nil {
				ret = append(ret, m)
			}
		}
'''))
bad((L, QL, '''		for _, n := range l {
			ret = append(ret, sel.MatchAll(n.Parent)...)
		}
'''))
bad((L, QL, '''		for _, n := range l {
			for _, m := range sel.MatchAll(n) {
				if m != n {
					ret = append(ret, m)
				}
			}
		}
'''))
bad((L, QL, '''		for i := 0; i < len(l); i += 2 {
			ret = append(ret, sel.MatchAll(l[i])...)
		}
'''))
bad((L, QL, '''		for _, n := range l {
			ret = append(ret, n)
			ret = append(ret, sel.MatchAll(n)...)
		}
'''))
bad((L, QL, '''		for _, n := range l {
			ret = append(ret[:0], sel.MatchAll(n)...)
		}
'''))
ok((L, QL, '''		for i := range l {
			for _, m := range sel.MatchAll(l[i]) {
				ret = append(ret, m)
			}
		}
'''))
ok((L, QL, '''		ret = make(List, 0, len(l))
		for i := 0; i < len(l); i++ {
			m := sel.MatchAll(l[i])
			if len(m) == 0 {
				continue
			}
			ret = append(ret, m...)
		}
'''))
ok((L, QL, '''		for _, n := range l {
			if n == nil {
				continue
			}
			ret = append(ret, sel.MatchAll(n)...)
		}
'''))
IS = '''		for _, n := range l {
			if sel.Match(n) {
				matched = true
				break
			}
		}
'''
bad((L, IS, '''		for _, n := range l {
			matched = sel.Match(n)
		}
'''))
bad((L, IS, '''		for _, n := range l {
			if !sel.Match(n) {
				matched = true
				break
			}
		}
'''))
bad((L, IS, '''		for _, n := range l {
			return sel.Match(n)
		}
'''))
bad((L, IS, '''		matched = len(l) > 0
		for _, n := range l {
			matched = matched && sel.Match(n)
		}
'''))
bad((L, IS, '''		for _, n := range l {
			if len(sel.MatchAll(n)) > 0 {
				matched = true
				break
			}
		}
'''))
bad((L, IS, '''		for i := 1; i < len(l); i++ {
			if sel.Match(l[i]) {
				matched = true
				break
			}
		}
'''))
bad((L, 'func (l List) Is(selector string) (matched bool) {\n', 'func (l List) Is(selector string) (matched bool) {\n	if len(l) > 1 && l[0].Data == selector {\n		return true\n	}\n'))
ok((L, IS, '''		for _, n := range l {
			if sel.Match(n) {
				return true
			}
		}
'''))
ok((L, IS, '''		for i := 0; i < len(l) && !matched; i++ {
			matched = sel.Match(l[i])
		}
'''))
ok((L, IS, '''		for _, n := range l {
			matched = matched || sel.Match(n)
		}
'''))
AT = '''	for _, n := range l {
		return scan.Attr(n, key)
	}
	return "", false
'''
bad((L, AT, '''	for _, n := range l {
		if v, ok := scan.Attr(n, key); ok {
			return v, ok
		}
	}
	return "", false
'''))
bad((L, AT, '''	if len(l) > 0 {
		v, _ := scan.Attr(l[len(l)-1], key)
		return v, v != ""
	}
	return "", false
'''))
bad((L, AT, '''	if len(l) > 0 {
		v, _ := scan.Attr(l[0], key)
		return v, v != ""
	}
	return "", false
'''))
bad((L, AT, '''	if len(l) > 1 {
		return scan.Attr(l[0], key)
	}
	return "", false
'''))
bad((L, AT, '''	if len(l) > 0 {
		return scan.Attr(l[0], strings.ToLower(key))
	}
	return "", false
'''))
bad((L, '	return "", false\n', '	return "", true\n'))
ok((L, AT, '''	if len(l) == 0 {
		return "", false
	}
	v, ok := scan.Attr(l[0], key)
	return v, ok
'''))
ok((L, AT, '''	if len(l) > 0 {
		if v, ok := scan.Attr(l[0], key); ok {
			return v, true
		}
	}
	return "", false
'''))
SC = '''	for _, n := range l {
		return scanner.Scan(dst, n, scan.Options{})
	}
	return nil
'''
bad((L, SC, '''	for _, n := range l {
		if err := scanner.Scan(dst, n, scan.Options{}); err != nil {
			return err
		}
	}
	return nil
'''))
bad((L, SC, '''	for _, n := range l {
		scanner.Scan(dst, n, scan.Options{})
		break
	}
	return nil
'''))
bad((L, SC, '''	if len(l) > 0 {
		return scanner.Scan(dst, l[len(l)-1], scan.Options{})
	}
	return nil
'''))
bad((L, SC, '''	if len(l) > 0 {
		return scanner.Scan(dst, l[0].Parent, scan.Options{})
	}
	return nil
'''))
ok((L, SC, '''	if len(l) == 0 {
		return nil
	}
	if err := scanner.Scan(dst, l[0], scan.Options{}); err != nil {
		return err
	}
	return nil
'''))
PS = '	return scanner.Scan(dst, p.root, scan.Options{})\n'
bad((P, PS, '	return scanner.Scan(dst, p.root.FirstChild, scan.Options{})\n'))
bad((P, PS, '	scanner.Scan(dst, p.root, scan.Options{})\n	return nil\n'))
bad((P, PS, '	if p.root.FirstChild != nil {\n		return scanner.Scan(dst, p.root, scan.Options{})\n	}\n	return nil\n'))
ok((P, PS, '	if err := scanner.Scan(dst, p.root, scan.Options{}); err != nil {\n		return fmt.Errorf("ant: scan - %w", err)\n	}\n	return nil\n'))
PQ = '		ret = s.MatchAll(p.root)\n'
bad((P, PQ, '		ret = s.MatchAll(p.root.FirstChild)\n'))
bad((P, PQ, '		ret = List{s.MatchFirst(p.root)}\n'))
bad((P, PQ, '		if ms := s.MatchAll(p.root); len(ms) > 0 {\n			ret = ms[:1]\n		}\n'))
bad((P, PQ, '		if ms := s.MatchAll(p.root); len(ms) > 1 {\n			ret = ms\n		}\n'))
bad((P, PQ, '		for _, n := range s.MatchAll(p.root) {\n			if n.FirstChild != nil {\n				ret = append(ret, n)\n			}\n		}\n'))
bad((P, PQ, '		if !strings.Contains(selector, ",") {\n			ret = s.MatchAll(p.root)\n		}\n'), (P, 'import (\n', 'import (\n	"strings"\n'))
ok((P, PQ, '		ret = append(ret, s.MatchAll(p.root)...)\n'))
ok((P, PQ, '		ret = List{p.root}.Query(selector)\n		_ = s\n'))
ok((P, PQ, '		for _, n := range s.MatchAll(p.root) {\n			ret = append(ret, n)\n		}\n'))
ok((P, PQ, '		ret = cascadiaAll(s, p.root)\n'), (P, '// Close closes', 'func cascadiaAll(s interface{ MatchAll(*html.Node) []*html.Node }, n *html.Node) List {\n	return s.MatchAll(n)\n}\n\n// Close closes'))
AL = '''	for _, a := range n.Attr {
		if a.Key == key {
			val, ok = a.Val, true
			break
		}
	}
	return
'''
bad((N, AL, AL.replace('a.Val, true', 'a.Val, a.Val != ""')))
bad((N, AL, AL.replace('a.Key == key {', 'a.Key == key && a.Val != "" {')))
bad((N, AL, AL.replace('a.Key == key', 'strings.HasPrefix(a.Key, key)')))
bad((N, AL, AL.replace('range n.Attr', 'range n.Attr[1:]')))
bad((N, AL, AL.replace('a.Val, true', 'strings.TrimSpace(a.Val), true')))
bad((N, AL, '''	for _, a := range n.Attr {
		if a.Key == key {
			val, ok = a.Val, true
			break
		}
		if a.Namespace != "" {
			break
		}
	}
	return
'''))
bad((N, AL, AL.replace('a.Val, true', 'a.Key, true')))
ok((N, AL, '''	for i := range n.Attr {
		if a := &n.Attr[i]; a.Key == key {
			return a.Val, true
		}
	}
	return "", false
'''))
ok((N, AL, '''	for i := 0; i < len(n.Attr); i++ {
		if n.Attr[i].Key != key {
			continue
		}
		val, ok = n.Attr[i].Val, true
	}
	return val, ok
'''))
bad((S, '	c.m.Store(selector, v)\n', '	c.m.Store(selector[:1], v)\n'))
bad((S, 'cascadia.Compile(selector)', 'cascadia.Compile(selector + " *")'))
