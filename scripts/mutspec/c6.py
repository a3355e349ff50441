K='antcache/cachereader.go'; H='antcache/httpcache.go'; M='antcache/memstore.go'
READ='''	if n, err = cr.rc.Read(p); n > 0 {
		cr.buf.Write(p[:n])
	}
	if err == io.EOF {
		cr.eof = true
	}
	return n, err
'''
GUARD='''		if !cr.eof && cr.rc != http.NoBody {
			return
		}
'''
MUT=[
('C06','bad',[(K,GUARD,'')]),
('C06','bad',[(K,'!cr.eof && cr.rc != http.NoBody','!cr.eof && cr.rc != http.NoBody && cr.buf.Len() == 0')]),
('C06','bad',[(K,'if err == io.EOF {','if err != nil {')]),
('C06','bad',[(K,'if err == io.EOF {','if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {'),(K,'	"context"\n','	"context"\n	"errors"\n')]),
('C06','bad',[(K,'if err == io.EOF {','if n == 0 {')]),
('C06','bad',[(K,'''	if err == io.EOF {
		cr.eof = true
	}
''','')]),
('C06','bad',[(K,'''	if err == io.EOF {
		cr.eof = true
	}
''','''	if int64(cr.buf.Len()) >= cr.resp.ContentLength {
		cr.eof = true
	}
''')]),
('C06','bad',[(K,'cr.buf.Write(p[:n])','cr.buf.Write(p)')]),
('C06','bad',[(K,'n > 0 {\n		cr.buf','n > 0 && err == nil {\n		cr.buf')]),
('C06','bad',[(K,'cr.buf.Write(p[:n])\n','cr.buf.Reset()\n		cr.buf.Write(p[:n])\n')]),
('C06','bad',[(K,'	return n, err\n','	if err == io.EOF && n > 0 {\n		return n, nil\n	}\n	return n, err\n')]),
('C06','ok',[(K,'	return n, err\n','	if err == io.EOF {\n		return n, io.EOF\n	}\n	return n, err\n')]),
('C06','bad',[(K,'cr.key, buf)','0, buf)')]),
('C06','bad',[(K,'cr.key, buf); err','cr.key, append(cr.buf.Bytes(), buf...)); err')]),
('C06','bad',[(K,'DumpResponse(&resp, true)','DumpResponse(&resp, false)')]),
('C06','bad',[(K,'''		r := bytes.NewReader(cr.buf.Bytes())
		resp.Body = io.NopCloser(r)
''','')]),
('C06','bad',[(K,'''	cr.once.Do(func() {''','''	func() {'''),(K,'''	})

	return cerr''','''	}()

	return cerr''')]),
('C06','bad',[(K,'''			cerr = multierror.Append(cerr, fmt.Errorf(
				`antcache: store %d - %w`,
				cr.key,
				err,
			))
''','''			_ = err
''')]),
('C06','bad',[(K,'''			cerr = multierror.Append(cerr, fmt.Errorf(
				`antcache: store %d - %w`,
				cr.key,
				err,
			))
''','''			if cerr == nil {
				cerr = fmt.Errorf("antcache: store %d", cr.key)
			}
			_ = err
''')]),
('C06','bad',[(K,'''			cerr = multierror.Append(cerr, fmt.Errorf(
				`antcache: dump response %q - %w`,
				resp.Request.URL,
				err,
			))
			return
''','''			return
''')]),
('C06','bad',[(K,'	cerr := cr.rc.Close()\n','	var cerr error\n	cr.rc.Close()\n')]),
('C06','bad',[(K,'	cerr := cr.rc.Close()\n','	var cerr error\n')]),
('C06','bad',[(K,'''	cerr := cr.rc.Close()

''','''	cerr := cr.rc.Close()
	if cerr != nil {
		cr.eof = true
	}

''')]),
('C06','bad',[(H,'		rc:    rc,\n','		rc:    rc,\n		eof:   resp.ContentLength == 0,\n')]),
('C06','bad',[(K,'		resp := *cr.resp\n','		resp := http.Response{Request: cr.resp.Request, StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: cr.resp.Header}\n')]),
('C06','ok',[(K,READ,'''	n, err = cr.rc.Read(p)
	cr.buf.Write(p[:n])
	cr.eof = cr.eof || err == io.EOF
	return
''')]),
('C06','ok',[(K,READ,'''	n, err = cr.rc.Read(p)
	if n > 0 {
		_, _ = cr.buf.Write(p[0:n])
	}
	switch {
	case err == nil:
	case errors.Is(err, io.EOF):
		cr.eof = true
	}
	return n, err
'''),(K,'	"context"\n','	"context"\n	"errors"\n')]),
('C06','ok',[(K,READ,'''	n, err = cr.rc.Read(p)
	cr.keep(p[:n], err)
	return n, err
}

func (cr *cachereader) keep(b []byte, err error) {
	cr.buf.Write(b)
	if err == io.EOF {
		cr.eof = true
	}
''')]),
('C06','ok',[(K,READ,'''	n, err = cr.rc.Read(p)
	cr.buf = append(cr.buf, p[:n]...)
	if err == io.EOF {
		cr.eof = true
	}
	return n, err
'''),(K,'buf   bytes.Buffer','buf   []byte'),(K,'bytes.NewReader(cr.buf.Bytes())','bytes.NewReader(cr.buf)')]),
('C06','ok',[(K,'''		if !cr.eof && cr.rc != http.NoBody {
			return
		}

		resp := *cr.resp
''','''		complete := cr.eof || cr.rc == http.NoBody
		if !complete {
			return
		}

		resp := *cr.resp
''')]),
('C06','ok',[(K,'''	cr.once.Do(func() {''','''	if err := cr.save(); err != nil {
		cerr = multierror.Append(cerr, err)
	}
	return cerr
}

func (cr *cachereader) save() (cerr error) {
	cr.once.Do(func() {''')]),
('C06','ok',[(K,'''	cr.once.Do(func() {''','''	if cr.closed {
		return cerr
	}
	cr.closed = true
	func() {'''),(K,'''	})

	return cerr''','''	}()

	return cerr'''),(K,'once  sync.Once','closed bool'),(K,'	"sync"\n','')]),
('C06','bad',[(K,'''	cr.once.Do(func() {''','''	if cr.closed {
		return cerr
	}
	func() {'''),(K,'''	})

	return cerr''','''	}()

	return cerr'''),(K,'once  sync.Once','closed bool'),(K,'	"sync"\n','')]),
('C06','ok',[(K,'''	cr.once.Do(func() {''','''	if !cr.closed.CompareAndSwap(false, true) {
		return cerr
	}
	func() {'''),(K,'''	})

	return cerr''','''	}()

	return cerr'''),(K,'once  sync.Once','closed atomic.Bool'),(K,'	"sync"\n','	"sync/atomic"\n')]),
('C06','ok',[(K,'''	if err == io.EOF {
		cr.eof = true
	}
''','''	cr.err = err
'''),(K,'!cr.eof &&','cr.err != io.EOF &&'),(K,'eof   bool','err   error')]),
('C06','bad',[(K,'''	if err == io.EOF {
		cr.eof = true
	}
''','''	cr.err = err
'''),(K,'!cr.eof &&','cr.err == nil &&'),(K,'eof   bool','err   error')]),
('C06','ok',[(K,'''		r := bytes.NewReader(cr.buf.Bytes())
		resp.Body = io.NopCloser(r)

		buf, err := httputil.DumpResponse(&resp, true)
''','''		resp.Body = io.NopCloser(&cr.buf)

		buf, err := httputil.DumpResponse(&resp, true)
''')]),
('C06','ok',[(K,'	store func(ctx context.Context, key uint64, v []byte) error\n','	store Storage\n'),(K,'cr.store(cr.ctx','cr.store.Store(cr.ctx'),(H,'store: c.storage.Store','store: c.storage')]),
('C06','bad',[(H,'		resp:  resp,\n','		resp:  &http.Response{Request: resp.Request},\n')]),
# C07
('C07','bad',[(M,'m.c.Store(key, value)','m.c.LoadOrStore(key, value)')]),
('C07','bad',[(M,'m.c.Store(key, value)','m.c.Store(uint32(key), value)'),(M,'m.c.Load(key)','m.c.Load(uint32(key))')]),
('C07','bad',[(M,'m.c.Store(key, value)','m.c.Store(key, value[:cap(value)])')]),
('C07','bad',[(M,'m.c.Load(key)','m.c.LoadAndDelete(key)')]),
('C07','bad',[(M,'return v.([]byte), nil','return v.([]byte)[1:], nil')]),
('C07','bad',[(M,'	m.c.Store(key, value)\n','	if len(value) < 1<<20 {\n		m.c.Store(key, value)\n	}\n')]),
('C07','ok',[(M,'c sync.Map','mu sync.RWMutex\n	c  map[uint64][]byte'),(M,'	m.c.Store(key, value)\n','	m.mu.Lock()\n	defer m.mu.Unlock()\n	if m.c == nil {\n		m.c = map[uint64][]byte{}\n	}\n	m.c[key] = value\n'),(M,'''	if v, ok := m.c.Load(key); ok {
		return v.([]byte), nil
	}
	return nil, nil
''','''	m.mu.RLock()
	defer m.mu.RUnlock()
	return m.c[key], nil
''')]),
('C07','ok',[(M,'''	if v, ok := m.c.Load(key); ok {
		return v.([]byte), nil
	}
	return nil, nil
''','''	v, _ := m.c.Load(key)
	b, _ := v.([]byte)
	return b, nil
''')]),
('C07','ok',[(M,'''	if v, ok := m.c.Load(key); ok {
		return v.([]byte), nil
	}
	return nil, nil
''','''	v, ok := m.c.Load(key)
	if !ok {
		return nil, nil
	}
	b := v.([]byte)
	return append([]byte(nil), b...), nil
''')]),
]
