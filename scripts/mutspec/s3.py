A='internal/scan/scan.go'; T='internal/scan/struct.go'; L='internal/scan/slice.go'; C='internal/scan/scanner.go'; N='internal/scan/nodes.go'; G='page.go'; LI='list.go'
STR='''		if opts.Selector != nil {
			src = opts.Selector.MatchFirst(src)
		}

		if opts.Attr != "" {
			t, _ := Attr(src, opts.Attr)
			dst.SetString(t)
		} else {
			dst.SetString(Text(src))
		}
'''
NUM='''		var str string

		if opts.Selector != nil {
			src = opts.Selector.MatchFirst(src)
		}

		if opts.Attr != "" {
			str, _ = Attr(src, opts.Attr)
		} else {
			str = Text(src)
		}

		x, _ := strconv.ParseInt(str, 10, 64)
		dst.SetInt(x)
'''
LOOP='''	for _, f := range ss.fields {
		v := dst.FieldByIndex(f.index)
		if src == nil {
			v.Set(reflect.Zero(v.Type()))
			continue
		}
		if err := f.scan(v, src); err != nil {
			return err
		}
	}
	return nil
'''
SL='''	for j, node := range nodes {
		if err := ss.scanFunc(slice.Index(j), node); err != nil {
			return err
		}
	}
'''
TAG='''		if j := strings.IndexByte(css, '@'); j != -1 {
			attr = css[j+1:]
			css = css[:j]
		}
'''
MUT=[
# S03
('S03','bad',[(A,'		if opts.Selector != nil {\n			src =','		if true {\n			src =')]),
('S03','bad',[(T,'	if ss.selector != nil {\n		src = ss.selector.MatchFirst(src)\n	}','	src = ss.selector.MatchFirst(src)')]),
('S03','bad',[(T,'''		if src == nil {
			v.Set(reflect.Zero(v.Type()))
			continue
		}
''','')]),
('S03','bad',[(L,'if opts.Selector == nil {','if opts.Selector == nil && opts.Attr == "" {')]),
('S03','bad',[(C,'''	if v.IsNil() {
		return fmt.Errorf("scan: cannot scan into nil %T", dst)
	}

''','')]),
('S03','bad',[(C,'if v.Kind() != reflect.Ptr {','if v.Kind() != reflect.Ptr && v.Kind() != reflect.Interface {')]),
('S03','bad',[(T,'''		if f.PkgPath != "" {
			continue
		}

''','')]),
('S03','bad',[(T,'''		if err != nil {
			return nil, fmt.Errorf("scan: cannot compile selector''','''		if err != nil && attr == "" {
			return nil, fmt.Errorf("scan: cannot compile selector''')]),
('S03','bad',[(T,'''		if err != nil {
			return nil, err
		}

		fields''','''		if err != nil {
			continue
		}

		fields''')]),
('S03','bad',[(A,'	case reflect.Int:','	case reflect.Int, reflect.Uintptr:')]),
('S03','bad',[(A,'	case reflect.Slice:\n','	case reflect.Slice, reflect.Array:\n')]),
('S03','bad',[(A,'		if t == byteslice {','		if t.Elem().Kind() <= reflect.Uint8 {')]),
('S03','bad',[(A,'		if t == byteslice {','		if t.Elem().Kind() == reflect.Int8 || t == byteslice {')]),
('S03','bad',[(A,'''		return Float(opts), nil
''','''		return Uint(opts), nil
''')]),
('S03','bad',[(L,'''		len(nodes),
		len(nodes),
''','''		len(nodes)-1,
		len(nodes),
''')]),
('S03','bad',[(L,'''	f, err := ScannerOf(eltype, Options{''','''	_ = eltype
	f, err := ScannerOf(t, Options{''')]),
('S03','bad',[(L,'''	if err != nil {
		return nil, err
	}
''','''	if err != nil && f != nil {
		return nil, err
	}
''')]),
('S03','bad',[(C,'return f(v.Elem(), src)','return f(v, src)')]),
('S03','bad',[(C,'s.register(t.Elem(), opts)','s.register(t, opts)')]),
('S03','bad',[(C,'''	if err != nil {
		return nil, err
	}

	s.types[t] = f''','''	s.types[t] = f
	if err != nil {
		return nil, err
	}
''')]),
('S03','bad',[(C,'''		if err != nil {
			return err
		}
		f = scanFunc''','''		if err != nil {
			return nil
		}
		f = scanFunc''')]),
('S03','bad',[(G,'''	if err := p.parse(); err != nil {
		return err
	}
	return scanner''','''	p.parse()
	return scanner''')]),
('S03','bad',[(N,'''	if n == nil {
		return
	}

''','')]),
('S03','bad',[(N,'''	if n == nil {
		return ""
	}

''','')]),
('S03','bad',[(T,'			index: f.Index,','			index: t.Field(j / 2).Index,')]),
('S03','bad',[(A,'	case reflect.Struct:','	case reflect.Struct, reflect.Map:')]),
('S03','bad',[(T,'''			v.Set(reflect.Zero(v.Type()))
			continue''','''			v.Set(reflect.Zero(dst.Type()))
			continue''')]),
('S03','bad',[(L,'dst.Set(reflect.Zero(ss.sliceType))','dst.Set(reflect.Zero(ss.sliceType.Elem()))')]),
('S03','bad',[(T,'''			src = opts''','x')]) if False else ('S03','bad',[(A,'	case reflect.Int:\n		return Int(opts), nil\n','	case reflect.Int, reflect.Bool:\n		return Int(opts), nil\n')]),
('S03','bad',[(T,'css = css[:j]','css = css[:j+1]'),(T,'attr = css[j+1:]','attr = css[j+2:]')]),
# S04
('S04','bad',[(A,STR,STR.replace('opts.Attr != ""','opts.Attr == "href"'))]),
('S04','bad',[(A,STR,STR.replace('''			src = opts.Selector.MatchFirst(src)
''','''			if m := opts.Selector.MatchFirst(src); m != nil {
				src = m
			}
'''))]),
('S04','bad',[(A,STR,STR.replace('dst.SetString(t)','if t != "" {\n\t\t\t\tdst.SetString(t)\n\t\t\t}'))]),
('S04','bad',[(A,NUM,NUM.replace('10, 64','10, 32'))]),
('S04','bad',[(A,NUM,NUM.replace('10, 64','0, 64'))]),
('S04','bad',[(A,NUM,NUM.replace('dst.SetInt(x)','if x != 0 {\n\t\t\tdst.SetInt(x)\n\t\t}'))]),
('S04','bad',[(A,'strconv.ParseFloat(str, 64)','strconv.ParseFloat(str, 32)')]),
('S04','bad',[(A,NUM,NUM.replace('str, _ = Attr(src, opts.Attr)','str, _ = Attr(src, "value")'))]),
('S04','bad',[(L,'		Attr:     opts.Attr,\n','')]),
('S04','bad',[(L,'		Selector: nil,','		Selector: opts.Selector,')]),
('S04','bad',[(L,SL,SL.replace('slice.Index(j), node','slice.Index(len(nodes)-1-j), node'))]),
('S04','bad',[(L,SL,SL.replace('); err','); j > 0 && err'))]),
('S04','bad',[(L,'ss.scanFunc(slice.Index(j), node)','ss.scanFunc(slice.Index(j), map[bool]*html.Node{true: nodes[0], false: node}[true])')]),
('S04','bad',[(L,SL,SL.replace('		if err','		if node.FirstChild == nil {\n			continue\n		}\n		if err'))]),
('S04','bad',[(L,'	dst.Set(slice)\n','	if dst.Len() != len(nodes) {\n		dst.Set(slice)\n	}\n')]),
('S04','bad',[(L,'''	if len(nodes) == 0 {
		dst.Set(reflect.Zero(ss.sliceType))
		return nil
	}
''','''	if len(nodes) == 0 {
		return nil
	}
''')]),
('S04','bad',[(L,'''	if len(nodes) == 0 {
		dst''','''	if len(nodes) <= 1 {
		dst''')]),
('S04','bad',[(T,'	if ss.selector != nil {\n		src = ss.selector.MatchFirst(src)\n	}','	if ss.selector != nil {\n		if m := ss.selector.MatchFirst(src); m != nil {\n			src = m\n		}\n	}')]),
('S04','bad',[(T,'return (structScanner{opts.Selector, fields})','return (structScanner{nil, fields})')]),
('S04','bad',[(T,LOOP,LOOP.replace('			v.Set(reflect.Zero(v.Type()))\n',''))]),
('S04','bad',[(T,LOOP,LOOP.replace('return err\n','break\n'))]),
('S04','bad',[(T,LOOP,LOOP.replace('range ss.fields','range ss.fields[1:]'))]),
('S04','bad',[(T,TAG,TAG.replace('IndexByte','LastIndexByte'))]),
('S04','bad',[(T,TAG,TAG.replace('j != -1','j > 0 && j < 20'))]),
('S04','bad',[(T,TAG,TAG.replace('css[j+1:]','strings.ToLower(css[j+1:])'))]),
('S04','bad',[(T,'len(css) == 0 || css == "-"','len(css) < 2')]),
('S04','bad',[(T,'''		if f.PkgPath != "" {''','''		if f.PkgPath != "" || f.Anonymous {''')]),
('S04','bad',[(T,'for j := 0; j < t.NumField(); j++ {\n		var f','for j := 1; j < t.NumField(); j++ {\n		var f')]),
('S04','bad',[(T,'for j := 0; j < t.NumField(); j++ {\n		var f','for j := 0; j < t.NumField() && j < 32; j++ {\n		var f')]),
('S04','bad',[(N,'val, ok = a.Val, true','val, ok = a.Key, true')]),
('S04','bad',[(N,'if a.Key == key {','if strings.HasPrefix(a.Key, key) {')]),
('S04','bad',[(C,'s.types[t] = f','s.types[t] = f\n	s.types[t.Elem()] = f')]),
('S04','bad',[(C,'ScannerOf(t, opts)','ScannerOf(t, Options{})')]),
('S04','bad',[(G,'p.root, scan.Options{}','p.root.FirstChild, scan.Options{}')]),
('S04','bad',[(LI,'return scanner.Scan(dst, n, scan.Options{})','return scanner.Scan(dst, n, scan.Options{Attr: "href"})')]),
('S04','bad',[(A,NUM,NUM.replace('src = opts.Selector.MatchFirst(src)','if all := opts.Selector.MatchAll(src); len(all) > 0 {\n\t\t\t\tsrc = all[len(all)-1]\n\t\t\t}'))]),
('S04','bad',[(A,'	case reflect.Float32, reflect.Float64:','	case reflect.Float64:')]),
('S04','bad',[(C,'		f = scanFunc\n','		f = scanFunc\n		if len(s.types) > 1000 {\n			return nil\n		}\n')]),
# ok
('S03 S04','ok',[(A,NUM,NUM.replace('''		if opts.Selector != nil {
			src = opts.Selector.MatchFirst(src)
		}

		if opts.Attr != "" {
			str, _ = Attr(src, opts.Attr)
		} else {
			str = Text(src)
		}
''','''		str = value(opts, src)
''')),(A,'// Int returns','''func value(opts Options, src *html.Node) string {
	if opts.Selector != nil {
		src = opts.Selector.MatchFirst(src)
	}
	if opts.Attr == "" {
		return Text(src)
	}
	v, _ := Attr(src, opts.Attr)
	return v
}

// Int returns''')]),
('S03 S04','ok',[(A,STR,'''		n := src
		if sel := opts.Selector; sel != nil {
			n = sel.MatchFirst(src)
		}
		var v string
		switch {
		case len(opts.Attr) > 0:
			if t, ok := Attr(n, opts.Attr); ok {
				v = t
			}
		default:
			v = Text(n)
		}
		dst.SetString(v)
''')]),
('S03 S04','ok',[(T,LOOP,'''	for i := range ss.fields {
		if err := ss.one(dst, src, i); err != nil {
			return err
		}
	}
	return nil
}

func (ss structScanner) one(dst reflect.Value, src *html.Node, i int) error {
	f := &ss.fields[i]
	v := dst.FieldByIndex(f.index)
	if src == nil {
		v.Set(reflect.Zero(v.Type()))
		return nil
	}
	return f.scan(v, src)
''')]),
('S03 S04','ok',[(T,LOOP,'''	for i := 0; i < len(ss.fields); i++ {
		f := ss.fields[i]
		v := dst.FieldByIndex(f.index)
		if src != nil {
			if err := f.scan(v, src); err != nil {
				return err
			}
		} else {
			v.SetZero()
		}
	}
	return nil
''')]),
('S03 S04','ok',[(L,SL,'''	for j := 0; j < len(nodes); j++ {
		v := slice.Index(j)
		err := ss.scanFunc(v, nodes[j])
		if err != nil {
			return err
		}
	}
''')]),
('S03 S04','ok',[(L,'''	if len(nodes) == 0 {
		dst.Set(reflect.Zero(ss.sliceType))
		return nil
	}
''','''	if nodes == nil || len(nodes) < 1 {
		dst.Set(reflect.Zero(dst.Type()))
		return nil
	}
''')]),
('S03 S04','ok',[(T,TAG,'''		css, attr, _ = strings.Cut(css, "@")
''')]),
('S03 S04','ok',[(T,TAG,'''		css, attr = split(css)
'''),(T,'// Scan implements','''func split(tag string) (string, string) {
	i := strings.Index(tag, "@")
	if i < 0 {
		return tag, ""
	}
	return tag[:i], tag[i+1:]
}

// Scan implements''')]),
('S03 S04','ok',[(T,'''		if f.PkgPath != "" {''','''		if !f.IsExported() {''')]),
('S03 S04','ok',[(T,'''		if css = tag.Get("css"); len(css) == 0 || css == "-" {
			continue
		}
''','''		css, ok := tag.Lookup("css")
		if !ok || css == "" || css == "-" {
			continue
		}
'''),(T,'		var css string\n','')]),
('S03 S04','ok',[(A,'''	switch t.Kind() {
	case reflect.String:
		return String(opts), nil
''','''	k := t.Kind()
	if k == reflect.String {
		return String(opts), nil
	}
	switch k {
''')]),
('S03 S04','ok',[(C,'''	if v.Kind() != reflect.Ptr {
		return fmt.Errorf("scan: cannot scan into non ptr %T", dst)
	}

	if v.IsNil() {
		return fmt.Errorf("scan: cannot scan into nil %T", dst)
	}
''','''	if err := check(dst, v); err != nil {
		return err
	}
'''),(C,'// Lookup returns','''func check(dst any, v reflect.Value) error {
	switch {
	case v.Kind() != reflect.Ptr:
		return fmt.Errorf("scan: cannot scan into non ptr %T", dst)
	case v.IsNil():
		return fmt.Errorf("scan: cannot scan into nil %T", dst)
	}
	return nil
}

// Lookup returns''')]),
('S03 S04','ok',[(C,'''	f, ok := s.lookup(t)
	if !ok {
		scanFunc, err := s.register(t.Elem(), opts)
		if err != nil {
			return err
		}
		f = scanFunc
	}

	return f(v.Elem(), src)''','''	et := t.Elem()
	f, ok := s.lookup(et)
	if ok {
		return f(v.Elem(), src)
	}
	f, err := s.register(et, opts)
	if err != nil {
		return err
	}
	return f(v.Elem(), src)''')]),
('S03 S04','ok',[(N,'''	for _, a := range n.Attr {
		if a.Key == key {
			val, ok = a.Val, true
			break
		}
	}
	return
''','''	for i := range n.Attr {
		if a := &n.Attr[i]; a.Key == key {
			return a.Val, true
		}
	}
	return "", false
''')]),
('S03 S04','ok',[(T,'''		fields = append(fields, field{
			index: f.Index,
			scan:  scan,
		})
''','''		fd := field{index: f.Index}
		fd.scan = scan
		fields = append(fields, fd)
''')]),
('S03 S04','ok',[(T,'''	index []int
''','''	index int
'''),(T,'index: f.Index','index: j'),(T,'dst.FieldByIndex(f.index)','dst.Field(f.index)')]),
('S03 S04','ok',[(T,'''	var name = t.Name()

	if name == "" {
		name = t.String()
	}

''',''),(T,'''				name,
				f.Name,''','''				typeName(t),
				f.Name,'''),(T,'// Scan implements','''func typeName(t reflect.Type) string {
	if name := t.Name(); name != "" {
		return name
	}
	return t.String()
}

// Scan implements''')]),
('S03 S04','ok',[(T,'var fields []field','fields := make([]field, 0, t.NumField())')]),
('S03 S04','ok',[(L,'''	return (sliceScanner{
		selector:  opts.Selector,
		scanFunc:  f,
		sliceType: t,
	}).scan, nil''','''	ss := &sliceScanner{selector: opts.Selector, scanFunc: f, sliceType: t}
	return ss.scan, nil''')]),
('S03 S04','ok',[(G,'''	if err := p.parse(); err != nil {
		return err
	}
	return scanner.Scan(dst, p.root, scan.Options{})''','''	err := p.parse()
	if err == nil {
		var opts scan.Options
		err = scanner.Scan(dst, p.root, opts)
	}
	return err''')]),
('S03 S04','ok',[(LI,'''	for _, n := range l {
		return scanner.Scan(dst, n, scan.Options{})
	}
	return nil''','''	if len(l) == 0 {
		return nil
	}
	return scanner.Scan(dst, l[0], scan.Options{})''')]),
]
