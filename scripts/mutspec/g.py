Q='queue.go'; D='dedupe.go'; J='json.go'; SC='internal/scan/scanner.go'; DK='antcache/disk.go'; MS='antcache/memstore.go'; SE='internal/selectors/selectors.go'; F='fetcher.go'; L='limiters.go'; E='engine.go'; PG='page.go'; RC='internal/robots/cache.go'; TG='antcdp/targets.go'
def m(props, kind, *edits):
    return (props, kind, list(edits))
LK='	mq.cond.L.Lock()\n	defer mq.cond.L.Unlock()\n\n'
MUT=[
 # ---- G01 bad
 m('G01','bad',(Q,LK+'	if mq.stopped {\n		return io.EOF','	if mq.stopped {\n		return io.EOF')),
 m('G01','bad',(Q,LK+'	for range mq.pending {\n		mq.wg.Done()\n	}\n\n','	for range mq.pending {\n		mq.wg.Done()\n	}\n\n	mq.cond.L.Lock()\n	defer mq.cond.L.Unlock()\n')),
 m('G01','bad',(Q,LK+'	if mq.stopped {\n		return io.EOF\n	}\n\n','	if mq.stopped {\n		return io.EOF\n	}\n\n	mq.cond.L.Lock()\n	defer mq.cond.L.Unlock()\n\n')),
 m('G01','bad',(Q,'	mq.wg.Wait()\n','	mq.wg.Wait()\n	mq.stopped = true\n')),
 m('G01','bad',(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n\n','')),
 m('G01','bad',(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n\n',''),(D,'			d.filter.Add(v)\n','			d.mtx.Lock()\n			d.filter.Add(v)\n			d.mtx.Unlock()\n')),
 m('G01','bad',(D,'	mtx    sync.Mutex','	mtx    sync.RWMutex'),(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n\n','	d.mtx.RLock()\n	defer d.mtx.RUnlock()\n\n')),
 m('G01','bad',(D,'	m *sync.Map\n','	m map[string]bool\n'),(D,'&deduper{new(sync.Map)}','&deduper{map[string]bool{}}'),(D,'if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {\n','if k := u.String(); !d.m[k] {\n			d.m[k] = true\n')),
 m('G01','bad',(J,'	j.lock.Lock()\n	defer j.lock.Unlock()\n','')),
 m('G01','bad',(SC,'	s.mutex.RLock()\n	f, ok := s.types[t]\n	s.mutex.RUnlock()\n','	f, ok := s.types[t]\n')),
 m('G01','bad',(SC,'	s.mutex.Lock()\n	defer s.mutex.Unlock()\n','	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n')),
 m('G01','bad',(SC,'	s.mutex.Lock()\n	defer s.mutex.Unlock()\n','	s.mutex.Lock()\n'),(SC,'	f, err := ScannerOf(t, opts)\n','	s.mutex.Unlock()\n	f, err := ScannerOf(t, opts)\n'),(SC,'		return f, nil\n	}\n\n	s.mutex','		s.mutex.Unlock()\n		return f, nil\n	}\n\n	s.mutex')),
 m('G01','bad',(DK,'	d.readymu.RLock()\n	ret := make([]file, 0, len(d.ready))\n	for','	ret := make([]file, 0, len(d.ready))\n	d.readymu.RLock()\n	for')),
 m('G01','bad',(DK,'	d.readymu.RLock()\n	defer d.readymu.RUnlock()\n\n	if f, ok','	if f, ok')),
 m('G01','bad',(DK,'	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	if err := os.Rename','	d.readymu.RLock()\n	defer d.readymu.RUnlock()\n\n	if err := os.Rename')),
 m('G01','bad',(DK,'	d.readymu.Lock()\n	for _, f := range files {\n		if _, ok','	for _, f := range files {\n		if _, ok'),(DK,'	d.readymu.Unlock()\n\n	d.debugf("found','	d.debugf("found')),
 m('G01','bad',(DK,'	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	for _, f := range remove','	for _, f := range remove')),
 m('G01','bad',(DK,'	compress bool\n}','	compress bool\n	total    int64\n}'),(DK,'	d.debugf("store %d", key)','	d.total += int64(len(v))\n	d.debugf("store %d", key)')),
 m('G01','bad',(MS,'	c sync.Map\n','	c map[uint64][]byte\n	l sync.Mutex\n'),(MS,'	m.c.Store(key, value)\n','	m.l.Lock()\n	defer m.l.Unlock()\n	if m.c == nil {\n		m.c = map[uint64][]byte{}\n	}\n	m.c[key] = value\n'),(MS,'	if v, ok := m.c.Load(key); ok {\n		return v.([]byte), nil','	if v, ok := m.c[key]; ok {\n		return v, nil')),
 m('G01','bad',(SE,'	m sync.Map\n','	m map[string]cascadia.Selector\n'),(SE,'	"sync"\n',''),(SE,'&Cache{}','&Cache{m: map[string]cascadia.Selector{}}'),(SE,'c.m.Load(selector); ok {\n		return s.(cascadia.Selector), nil','c.m[selector]; ok {\n		return s, nil'),(SE,'c.m.Store(selector, v)','c.m[selector] = v')),
 m('G01','bad',(SE,'var cache = NewCache()\n','var cache = NewCache()\n\nvar last string\n'),(SE,'	return cache.Compile(selector)','	last = selector\n	return cache.Compile(selector)')),
 m('G01','bad',(F,'	if f.Client != nil {\n		return f.Client\n	}\n	return DefaultClient','	if f.Client == nil {\n		f.Client = DefaultClient\n	}\n	return f.Client')),
 m('G01','bad',(F,'	var maxAttempts = f.maxAttempts()\n','	if f.MaxAttempts <= 0 {\n		f.MaxAttempts = 5\n	}\n	var maxAttempts = f.maxAttempts()\n')),
 m('G01','bad',(E,'	impolite bool\n','	impolite bool\n	visited  int\n'),(E,'	defer eng.queue.Done(ctx, url)\n','	eng.visited++\n	defer eng.queue.Done(ctx, url)\n')),
 m('G01','bad',(E,'		eg.Go(func() error {\n			if eng.sema != nil {\n				defer eng.sema.Release(1)\n			}\n			err := eng.process(subctx, url)\n','		eg.Go(func() error {\n			if eng.sema != nil {\n				defer eng.sema.Release(1)\n			}\n			err = eng.process(subctx, url)\n'),(E,'	for {\n		url, err := eng.queue.Dequeue(ctx)\n','	var url *URL\n	var err error\n	for {\n		url, err = eng.queue.Dequeue(ctx)\n')),
 m('G01','bad',(L,'import (','import (\n	"sync/atomic"') if False else (PG,'	once sync.Once\n','	once sync.Once\n	reads int\n')) if False else
 m('G01','bad',(RC,'	client *http.Client\n}','	client *http.Client\n	hosts  map[string]*Host\n}'),(RC,'client: c}','client: c, hosts: map[string]*Host{}}'),(RC,'	s := &Host{data: data}\n','	s := &Host{data: data}\n	c.hosts[url.Host] = s\n'),(RC,'	rawurl := url.Scheme','	if h, ok := c.hosts[url.Host]; ok {\n		return h, nil\n	}\n\n	rawurl := url.Scheme')),
 m('G01','bad',(TG,'	targets chan *devtool.Target\n','	targets chan *devtool.Target\n	n int\n'),(TG,'	select {\n	case v := <-t.targets','	t.n++\n	select {\n	case v := <-t.targets')),
 # a pooled buffer shared by everybody
 m('G01','bad',(J,'	lock      sync.Mutex\n','	lock      sync.Mutex\n	next      URLs\n'),(J,'		var next URLs\n','		next := j.next[:0]\n'),(J,'		return next, nil','		j.next = next\n		return next, nil')),
 m('G01','bad',(D,'	filter *bloom.BloomFilter\n}','	filter *bloom.BloomFilter\n	buf    []byte\n}'),(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n\n	for _, u := range urls {\n		v := []byte(u.String())\n','	for _, u := range urls {\n		d.buf = append(d.buf[:0], u.String()...)\n		v := d.buf\n'),(D,'		if !d.filter.Test(v) {\n			d.filter.Add(v)\n			ret = append(ret, u)\n		}\n','		d.mtx.Lock()\n		if !d.filter.Test(v) {\n			d.filter.Add(v)\n			ret = append(ret, u)\n		}\n		d.mtx.Unlock()\n')),
 # ---- G01 ok
 m('G01 G02','ok',(Q,LK+'	if mq.stopped {\n		return io.EOF','	mq.lock()\n	defer mq.unlock()\n\n	if mq.stopped {\n		return io.EOF'),(Q,'// Wait implementation.\n','func (mq *memoryQueue) lock() { mq.cond.L.Lock() }\nfunc (mq *memoryQueue) unlock() { mq.cond.L.Unlock() }\n\n// Wait implementation.\n')),
 m('G01 G02','ok',(Q,LK+'	if mq.stopped {\n		return io.EOF','	defer mq.lock()()\n\n	if mq.stopped {\n		return io.EOF'),(Q,'// Wait implementation.\n','func (mq *memoryQueue) lock() func() {\n	mq.cond.L.Lock()\n	return mq.cond.L.Unlock\n}\n\n// Wait implementation.\n')),
 m('G01 G02','ok',(Q,LK+'	if mq.stopped {\n		return io.EOF','	mq.cond.L.Lock()\n	defer func() {\n		mq.cond.L.Unlock()\n	}()\n\n	if mq.stopped {\n		return io.EOF')),
 m('G01 G02','ok',(Q,'	mq.cond.L.Lock()\n	defer mq.cond.L.Unlock()\n\n	if mq.stopped {\n		return io.EOF\n	}\n\n	if ctx.Err() != nil {\n		return ctx.Err()\n	}\n','	mq.cond.L.Lock()\n	if mq.stopped {\n		mq.cond.L.Unlock()\n		return io.EOF\n	}\n\n	if ctx.Err() != nil {\n		mq.cond.L.Unlock()\n		return ctx.Err()\n	}\n	defer mq.cond.L.Unlock()\n')),
 m('G01 G02','ok',(Q,'	cond    *sync.Cond\n','	cond    *sync.Cond\n	mu      *sync.Mutex\n'),(Q,'	return &memoryQueue{\n','	mu := &sync.Mutex{}\n	return &memoryQueue{\n		mu: mu,\n'),(Q,'sync.NewCond(&sync.RWMutex{})','sync.NewCond(mu)'),(Q,'	mq.cond.L.Lock()\n','	mq.mu.Lock()\n'),(Q,'	defer mq.cond.L.Unlock()\n','	defer mq.mu.Unlock()\n')),
 m('G01 G02','ok',(D,'	mtx    sync.Mutex','	sync.Mutex'),(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n','	d.Lock()\n	defer d.Unlock()\n')),
 m('G01 G02','ok',(D,'	mtx    sync.Mutex','	mtx    sync.RWMutex'),(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n\n',''),(D,'		if !d.filter.Test(v) {\n			d.filter.Add(v)\n			ret = append(ret, u)\n		}\n','		d.mtx.RLock()\n		seen := d.filter.Test(v)\n		d.mtx.RUnlock()\n		if seen {\n			continue\n		}\n		d.mtx.Lock()\n		if !d.filter.Test(v) {\n			d.filter.Add(v)\n			ret = append(ret, u)\n		}\n		d.mtx.Unlock()\n')),
 m('G01 G02','ok',(D,'		if !d.filter.Test(v) {\n			d.filter.Add(v)\n			ret = append(ret, u)\n		}\n	}\n\n	return ret, nil\n}','		if d.add(v) {\n			ret = append(ret, u)\n		}\n	}\n\n	return ret, nil\n}\n\nfunc (d *dedupebf) add(v []byte) bool {\n	d.mtx.Lock()\n	defer d.mtx.Unlock()\n	if d.filter.Test(v) {\n		return false\n	}\n	d.filter.Add(v)\n	return true\n}'),(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n\n	for','	for')),
 m('G01 G02','ok',(D,'	m *sync.Map\n','	l sync.Mutex\n	m map[string]bool\n'),(D,'&deduper{new(sync.Map)}','&deduper{m: map[string]bool{}}'),(D,'	for _, u := range urls {\n		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {\n','	d.l.Lock()\n	defer d.l.Unlock()\n\n	for _, u := range urls {\n		if k := u.String(); !d.m[k] {\n			d.m[k] = true\n')),
 m('G01 G02','ok',(SC,'	s.mutex.RLock()\n	f, ok := s.types[t]\n	s.mutex.RUnlock()\n	return f, ok','	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n	f, ok := s.types[t]\n	return f, ok')),
 m('G01 G02','ok',(SC,'	types map[reflect.Type]ScanFunc\n	mutex *sync.RWMutex\n','	types map[reflect.Type]ScanFunc\n	mutex sync.RWMutex\n'),(SC,'		mutex: &sync.RWMutex{},\n','')),
 m('G01 G02','ok',(DK,'func (d *Diskstore) files() []file {\n	d.readymu.RLock()\n','func (d *Diskstore) files() (ret []file) {\n	d.read(func() {\n'),(DK,'	ret := make([]file, 0, len(d.ready))\n	for _, f := range d.ready {\n		ret = append(ret, f)\n	}\n	d.readymu.RUnlock()\n	return ret\n}','		ret = make([]file, 0, len(d.ready))\n		for _, f := range d.ready {\n			ret = append(ret, f)\n		}\n	})\n	return ret\n}\n\nfunc (d *Diskstore) read(f func()) {\n	d.readymu.RLock()\n	defer d.readymu.RUnlock()\n	f()\n}')),
 m('G01 G02','ok',(DK,'	compress bool\n}','	compress bool\n	total    atomic.Int64\n}'),(DK,'	d.debugf("store %d", key)','	d.total.Add(int64(len(v)))\n	d.debugf("store %d", key)'),(DK,'	"sync"\n','	"sync"\n	"sync/atomic"\n')),
 m('G01 G02','ok',(DK,'	compress bool\n}','	compress bool\n	total    int64\n}'),(DK,'	d.debugf("store %d", key)','	atomic.AddInt64(&d.total, int64(len(v)))\n	d.debugf("store %d", key)'),(DK,'	"sync"\n','	"sync"\n	"sync/atomic"\n')),
 m('G01 G02','ok',(SE,'	m sync.Map\n','	l sync.RWMutex\n	m map[string]cascadia.Selector\n'),(SE,'&Cache{}','&Cache{m: map[string]cascadia.Selector{}}'),(SE,'	if s, ok := c.m.Load(selector); ok {\n		return s.(cascadia.Selector), nil\n	}\n','	c.l.RLock()\n	s, ok := c.m[selector]\n	c.l.RUnlock()\n	if ok {\n		return s, nil\n	}\n'),(SE,'c.m.Store(selector, v)','c.l.Lock()\n	defer c.l.Unlock()\n	c.m[selector] = v')),
 m('G01 G02','ok',(MS,'	c sync.Map\n','	c map[uint64][]byte\n	l sync.Mutex\n'),(MS,'	m.c.Store(key, value)\n','	m.l.Lock()\n	defer m.l.Unlock()\n	if m.c == nil {\n		m.c = map[uint64][]byte{}\n	}\n	m.c[key] = value\n'),(MS,'	if v, ok := m.c.Load(key); ok {\n		return v.([]byte), nil','	m.l.Lock()\n	defer m.l.Unlock()\n	if v, ok := m.c[key]; ok {\n		return v, nil')),
 m('G01 G02','ok',(E,'	for {\n		url, err := eng.queue.Dequeue(ctx)\n','	var err error\n	for {\n		var url *URL\n		url, err = eng.queue.Dequeue(ctx)\n')),
 m('G01 G02','ok',(J,'	j.lock.Lock()\n	defer j.lock.Unlock()\n	return j.enc.Encode(v)','	j.lock.Lock()\n	err := j.enc.Encode(v)\n	j.lock.Unlock()\n	return err')),
 m('G01 G02','ok',(E,'	// Spawn workers.\n	for i := 0; i < eng.workers; i++ {\n		eg.Go(func() error {\n			defer eng.queue.Close(ctx)\n			return eng.run(subctx)\n		})\n	}\n','	// Spawn workers.\n	work := func() error {\n		defer eng.queue.Close(ctx)\n		return eng.run(subctx)\n	}\n	for i := 0; i < eng.workers; i++ {\n		eg.Go(work)\n	}\n')),
 # ---- G02 bad
 m('G02','bad',(Q,LK+'	if mq.stopped {\n		return io.EOF\n	}\n','	mq.cond.L.Lock()\n\n	if mq.stopped {\n		return io.EOF\n	}\n	defer mq.cond.L.Unlock()\n')),
 m('G02','bad',(SC,'	s.mutex.Lock()\n	defer s.mutex.Unlock()\n','	s.mutex.Lock()\n'),(SC,'	s.types[t] = f\n','	s.types[t] = f\n	s.mutex.Unlock()\n'),(SC,'		return f, nil\n	}\n\n	f, err','		s.mutex.Unlock()\n		return f, nil\n	}\n\n	f, err')),
 m('G02','bad',(SC,'	s.mutex.RLock()\n	f, ok := s.types[t]\n	s.mutex.RUnlock()\n','	s.mutex.RLock()\n	f, ok := s.types[t]\n	s.mutex.Unlock()\n')),
 m('G02','bad',(SC,'	if f, ok := s.types[t]; ok {\n		return f, nil\n	}\n\n	f, err','	if f, ok := s.lookup(t); ok {\n		return f, nil\n	}\n\n	f, err')),
 m('G02','bad',(DK,'	var files = d.files()\n	var now','	d.readymu.Lock()\n	defer d.readymu.Unlock()\n	var files = d.files()\n	var now'),(DK,'	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	for _, f := range remove','	for _, f := range remove')),
 m('G02','bad',(DK,'	close(d.stop)\n	d.wg.Wait()\n','	d.readymu.Lock()\n	defer d.readymu.Unlock()\n	close(d.stop)\n	d.wg.Wait()\n')),
 m('G02','bad',(DK,'	select {\n	case <-ctx.Done():\n		return ctx.Err()\n	case <-d.warm','	d.readymu.RLock()\n	defer d.readymu.RUnlock()\n	select {\n	case <-ctx.Done():\n		return ctx.Err()\n	case <-d.warm')),
 m('G02','bad',(Q,'	for range mq.pending {\n		mq.wg.Done()\n	}\n\n	mq.stopped = true\n	mq.pending = mq.pending[:0]\n	mq.cond.Broadcast()\n','	for range mq.pending {\n		mq.wg.Done()\n	}\n\n	mq.stopped = true\n	mq.pending = mq.pending[:0]\n	mq.cond.Broadcast()\n	mq.wg.Wait()\n')),
 m('G02','bad',(J,'	if err := j.encode(v.Interface()); err != nil {','	j.lock.Lock()\n	defer j.lock.Unlock()\n	if err := j.encode(v.Interface()); err != nil {')),
 m('G02','bad',(DK,'	if f, ok := d.ready[key]; ok {\n','	if f, ok := d.ready[key]; ok {\n		if err := d.Wait(context.Background()); err != nil {\n			return nil, err\n		}\n')),
 m('G02','bad',(RC,'	client *http.Client\n}','	client *http.Client\n	mu     sync.Mutex\n}'),(RC,'	"net/url"\n','	"net/url"\n	"sync"\n'),(RC,'	rawurl := url.Scheme','	c.mu.Lock()\n	defer c.mu.Unlock()\n\n	rawurl := url.Scheme')),
 m('G02','bad',(RC,'	client *http.Client\n}','	client *http.Client\n	mu     sync.Mutex\n}'),(RC,'	"net/url"\n','	"net/url"\n	"sync"\n'),(RC,'	if g, ok := host.find(ua); ok {\n','	c.mu.Lock()\n	defer c.mu.Unlock()\n	if g, ok := host.find(ua); ok {\n')),
 m('G02','bad',(DK,'	compress bool\n}','	compress bool\n	statmu   sync.Mutex\n	stores   int\n}'),
   (DK,'	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	if err := os.Rename','	d.readymu.Lock()\n	defer d.readymu.Unlock()\n	d.statmu.Lock()\n	defer d.statmu.Unlock()\n	d.stores++\n\n	if err := os.Rename'),
   (DK,'	if removed > 0 {\n','	if removed > 0 {\n		d.stores -= removed\n'),
   (DK,'	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	for _, f := range remove','	d.statmu.Lock()\n	defer d.statmu.Unlock()\n	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	for _, f := range remove')),
 m('G02','bad',(E,'	impolite bool\n','	impolite bool\n	mu       sync.Mutex\n'),(E,'import (\n','import (\n	"sync"\n'),(E,'func (eng *Engine) limit(ctx','func (eng *Engine) limit(ctx'),(E,'	defer eng.queue.Done(ctx, url)\n','	eng.mu.Lock()\n	defer eng.mu.Unlock()\n	defer eng.queue.Done(ctx, url)\n')),
 m('G02','ok',(DK,'	compress bool\n}','	compress bool\n	statmu   sync.Mutex\n	stores   int\n}'),
   (DK,'	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	if err := os.Rename','	d.readymu.Lock()\n	defer d.readymu.Unlock()\n	d.statmu.Lock()\n	d.stores++\n	d.statmu.Unlock()\n\n	if err := os.Rename'),
   (DK,'	if removed > 0 {\n','	d.statmu.Lock()\n	d.stores -= removed\n	d.statmu.Unlock()\n	if removed > 0 {\n')),
 m('G02','bad',(TG,'	targets chan *devtool.Target\n','	targets chan *devtool.Target\n	mu sync.Mutex\n'),(TG,'	"time"\n','	"sync"\n	"time"\n'),(TG,'	select {\n	case v := <-t.targets','	t.mu.Lock()\n	defer t.mu.Unlock()\n	select {\n	case v := <-t.targets')),
 m('G02','bad',(Q,'	mq.wg.Done()\n	return nil','	mq.cond.L.Unlock()\n	mq.wg.Done()\n	return nil')),
 # ---- G01 more
 m('G01','bad',(L,'	l := rate.NewLimiter(rate.Limit(n), n)\n	return func(ctx context.Context, _ *url.URL) error {\n		return l.Wait(ctx)\n','	hosts := map[string]*rate.Limiter{}\n	return func(ctx context.Context, u *url.URL) error {\n		l, ok := hosts[u.Host]\n		if !ok {\n			l = rate.NewLimiter(rate.Limit(n), n)\n			hosts[u.Host] = l\n		}\n		return l.Wait(ctx)\n')),
 m('G01 G02','ok',(L,'	l := rate.NewLimiter(rate.Limit(n), n)\n	return func(ctx context.Context, _ *url.URL) error {\n		return l.Wait(ctx)\n','	var mu sync.Mutex\n	hosts := map[string]*rate.Limiter{}\n	return func(ctx context.Context, u *url.URL) error {\n		mu.Lock()\n		l, ok := hosts[u.Host]\n		if !ok {\n			l = rate.NewLimiter(rate.Limit(n), n)\n			hosts[u.Host] = l\n		}\n		mu.Unlock()\n		return l.Wait(ctx)\n'),(L,'	"regexp"\n','	"regexp"\n	"sync"\n')),
 m('G02','bad',(L,'	l := rate.NewLimiter(rate.Limit(n), n)\n	return func(ctx context.Context, _ *url.URL) error {\n		return l.Wait(ctx)\n','	var mu sync.Mutex\n	l := rate.NewLimiter(rate.Limit(n), n)\n	return func(ctx context.Context, u *url.URL) error {\n		mu.Lock()\n		defer mu.Unlock()\n		return l.Wait(ctx)\n'),(L,'	"regexp"\n','	"regexp"\n	"sync"\n')),
 m('G01','bad',(L,'	l := rate.NewLimiter(rate.Limit(n), n)\n	return func(ctx context.Context, _ *url.URL) error {\n		return l.Wait(ctx)\n','	var l *rate.Limiter\n	return func(ctx context.Context, _ *url.URL) error {\n		if l == nil {\n			l = rate.NewLimiter(rate.Limit(n), n)\n		}\n		return l.Wait(ctx)\n')),
 m('G01 G02','ok',(L,'	l := rate.NewLimiter(rate.Limit(n), n)\n	return func(ctx context.Context, _ *url.URL) error {\n		return l.Wait(ctx)\n','	var l *rate.Limiter\n	var once sync.Once\n	return func(ctx context.Context, _ *url.URL) error {\n		once.Do(func() {\n			l = rate.NewLimiter(rate.Limit(n), n)\n		})\n		return l.Wait(ctx)\n'),(L,'	"regexp"\n','	"regexp"\n	"sync"\n')),
 m('G01','bad',('matchers.go','	return func(url *url.URL) bool {\n		return re.MatchString(','	var buf []byte\n	return func(url *url.URL) bool {\n		buf = append(buf[:0], url.Host...)\n		return len(buf) > 0 && re.MatchString(')),
 m('G01','bad',(E,'	// Spawn workers.\n','	var failed error\n\n	// Spawn workers.\n'),(E,'			return eng.run(subctx)\n','			if err := eng.run(subctx); err != nil {\n				failed = err\n				return err\n			}\n			return nil\n'),(E,'		return fmt.Errorf("ant: run - %w", err)\n','		return fmt.Errorf("ant: run - %w", failed)\n')),
 m('G01 G02','ok',(E,'	// Spawn workers.\n','	var failed error\n	var mu sync.Mutex\n\n	// Spawn workers.\n'),(E,'			return eng.run(subctx)\n','			if err := eng.run(subctx); err != nil {\n				mu.Lock()\n				if failed == nil {\n					failed = err\n				}\n				mu.Unlock()\n				return err\n			}\n			return nil\n'),(E,'		return fmt.Errorf("ant: run - %w", err)\n','		return fmt.Errorf("ant: run - %w", failed)\n'),(E,'import (\n','import (\n	"sync"\n')),
 m('G01','bad',('antcache/utils.go','	return murmur3.Sum64([]byte(\n		req.Method + ":" + req.URL.String(),\n	))\n','	hasher.Reset()\n	hasher.Write([]byte(req.Method + ":" + req.URL.String()))\n	return hasher.Sum64()\n'),('antcache/utils.go','// Keyof returns','var hasher = murmur3.New64()\n\n// Keyof returns')),
 m('G01','bad',(F,'	var hdr = make(http.Header)\n\n	hdr.Set("Accept", "text/html; charset=UTF-8")\n','	var hdr = defaults\n\n'),(F,'// Headers returns all','var defaults = http.Header{"Accept": {"text/html; charset=UTF-8"}}\n\n// Headers returns all')),
 m('G01 G02','ok',(F,'	var hdr = make(http.Header)\n\n	hdr.Set("Accept", "text/html; charset=UTF-8")\n','	var hdr = defaults.Clone()\n\n'),(F,'// Headers returns all','var defaults = http.Header{"Accept": {"text/html; charset=UTF-8"}}\n\n// Headers returns all')),
 m('G01','bad',(F,'	if dur > max {\n		dur = max\n	}\n','	if dur > max {\n		dur = max\n	}\n	dur -= time.Duration(jitter.Int63n(int64(min)))\n'),(F,'// Backoff performs','var jitter = rand.New(rand.NewSource(1))\n\n// Backoff performs'),(F,'import (\n','import (\n	"math/rand"\n')),
 m('G01 G02','ok',(F,'	if dur > max {\n		dur = max\n	}\n','	if dur > max {\n		dur = max\n	}\n	dur -= time.Duration(rand.Int63n(int64(min)))\n'),(F,'import (\n','import (\n	"math/rand"\n')),
 m('G01 G02','ok',(J,'	return j.enc.Encode(v)','	return j.enc.Encode(v)'),(E,'// Run runs a single crawl','// Run runs a single crawl')),
 # disk: answers published through a shared list
 m('G01','bad',(DK,'	compress bool\n}','	compress bool\n	scratch  []file\n}'),(DK,'	ret := make([]file, 0, len(d.ready))\n','	ret := d.scratch[:0]\n'),(DK,'	d.readymu.RUnlock()\n	return ret','	d.scratch = ret\n	d.readymu.RUnlock()\n	return ret')),
 m('G01','bad',(DK,'	v = snappy.Encode(nil, v)','	v = snappy.Encode(d.buf, v)\n		d.buf = v'),(DK,'	compress bool\n}','	compress bool\n	buf      []byte\n}')),
 m('G01','bad',(DK,'	v = snappy.Encode(nil, v)','	v = snappy.Encode(d.buf, v)'),(DK,'	compress bool\n}','	compress bool\n	buf      []byte\n}'),(DK,'		ds.compress = true\n','		ds.compress = true\n		ds.buf = make([]byte, 1<<20)\n')),
 m('G01','bad',(SC,'// Lookup returns','var depth int\n\n// Lookup returns'),(SC,'	t := v.Type()\n','	depth++\n	t := v.Type()\n')),
 m('G02','bad',(DK,'	d.readymu.RLock()\n	ret := make([]file, 0, len(d.ready))\n	for _, f := range d.ready {\n','	d.readymu.RLock()\n	if len(d.ready) == 0 {\n		return nil\n	}\n	ret := make([]file, 0, len(d.ready))\n	for _, f := range d.ready {\n')),
 m('G02','bad',(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n\n	for _, u := range urls {\n','	d.mtx.Lock()\n\n	for _, u := range urls {\n		if err := ctx.Err(); err != nil {\n			return nil, err\n		}\n'),(D,'	return ret, nil\n}\n\n// END','') if False else (D,'			d.filter.Add(v)\n			ret = append(ret, u)\n		}\n	}\n','			d.filter.Add(v)\n			ret = append(ret, u)\n		}\n	}\n	d.mtx.Unlock()\n')),
 m('G02','bad',(E,'	eng := &Engine','	eng := &Engine') if False else (J,'	defer j.lock.Unlock()\n	return j.enc.Encode(v)','	if err := j.enc.Encode(v); err != nil {\n		return err\n	}\n	j.lock.Unlock()\n	return nil')),
]
