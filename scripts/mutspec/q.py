D='dedupe.go'; Q='queue.go'
MUT=[
('Q01','bad',[(D,'''		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {
			ret''','''		if _, exists := d.m.Load(u.String()); !exists {
			d.m.Store(u.String(), nil)
			ret''')]),
('Q01','bad',[(D,'d.m.LoadOrStore(u.String(), nil)','d.m.LoadOrStore(u.Host+u.Path, nil)')]),
('Q01','bad',[(D,'			d.filter.Add(v)\n','')]),
('Q01','bad',[(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n','')]),
('Q01','bad',[(D,'			d.filter.Add(v)\n			ret = append(ret, u)\n','			d.mtx.Unlock()\n			d.mtx.Lock()\n			d.filter.Add(v)\n			ret = append(ret, u)\n')]),
('Q01','bad',[(D,'!exists {','!exists || u.Path == "/" {')]),
('Q01','bad',[(D,'for _, u := range urls {\n		if','for _, u := range urls[:len(urls)/2+1] {\n		if')]),
('Q01','bad',[(D,'	for _, u := range urls {\n		v :=','	for _, u := range urls {\n		if len(ret) > 1000 {\n			break\n		}\n		v :=')]),
('Q02','bad',[(Q,'mq.wg.Add(len(urls))\n','')]),
('Q02','bad',[(Q,'mq.wg.Add(len(urls))','mq.wg.Add(1)')]),
('Q02','bad',[(Q,'	mq.wg.Done()\n	return nil','	return nil')]),
('Q02','bad',[(Q,'	if ctx.Err() != nil {\n		return ctx.Err()\n	}\n\n	mq.pending = append(mq.pending, urls...)\n	mq.wg.Add(len(urls))','	mq.pending = append(mq.pending, urls...)\n	mq.wg.Add(len(urls))\n	if ctx.Err() != nil {\n		return ctx.Err()\n	}\n')]),
('Q02','bad',[(Q,'	mq.pending = mq.pending[:0]\n','')]),
('Q02','bad',[(Q,'for range mq.pending {\n		mq.wg.Done()\n	}','if len(mq.pending) > 0 {\n		mq.wg.Done()\n	}')]),
('Q02','bad',[(Q,'	if mq.stopped {\n		return io.EOF\n	}\n\n	if ctx','	if ctx')]),
('Q02 Q03','bad',[(Q,'	if mq.stopped {\n		return io.EOF\n	}\n\n	if ctx','	if mq.stopped && len(mq.pending) > 0 {\n		return io.EOF\n	}\n\n	if ctx')]) if 0 else
('Q02','bad',[(Q,'	if mq.stopped {\n		return io.EOF\n	}\n\n	if ctx','	if mq.stopped && len(mq.pending) > 0 {\n		return io.EOF\n	}\n\n	if ctx')]),
('Q03','bad',[(Q,'mq.wg.Add(len(urls))\n	mq.cond.Broadcast()','mq.wg.Add(len(urls))\n	mq.cond.Signal()')]),
('Q03','bad',[(Q,'	mq.pending = mq.pending[:0]\n	mq.cond.Broadcast()','	mq.pending = mq.pending[:0]')]),
('Q03','bad',[(Q,'for len(mq.pending) == 0 {','if len(mq.pending) == 0 {')]),
('Q03','bad',[(Q,'url := mq.pending[0]\n	mq.pending = mq.pending[1:]','url := mq.pending[len(mq.pending)-1]\n	mq.pending = mq.pending[:len(mq.pending)-1]')]),
('Q03','bad',[(Q,'		if mq.stopped {\n			return nil, io.EOF\n		}\n		if err','		if err')]),
('Q03','bad',[(Q,'	for len(mq.pending) == 0 {\n		if mq.stopped {\n			return nil, io.EOF\n		}','	if mq.stopped {\n		return nil, io.EOF\n	}\n	for len(mq.pending) == 0 {')]),
('Q03','bad',[(Q,'	mq.stopped = true\n	mq.pending = mq.pending[:0]\n','	if len(mq.pending) == 0 {\n		mq.stopped = true\n		return nil\n	}\n	mq.stopped = true\n	mq.pending = mq.pending[:0]\n')]),
('Q01 Q02 Q03','ok',[(Q,'	for range mq.pending {\n		mq.wg.Done()\n	}','	mq.wg.Add(-len(mq.pending))')]),
('Q01 Q02 Q03','ok',[(Q,'	for range mq.pending {\n		mq.wg.Done()\n	}','	for i := 0; i < len(mq.pending); i++ {\n		mq.wg.Add(-1)\n	}')]),
('Q02 Q03','ok',[(Q,'	url := mq.pending[0]\n	mq.pending = mq.pending[1:]\n\n	return url, nil','	return mq.pop(), nil'),(Q,'// Done impl','func (mq *memoryQueue) pop() (u *URL) {\n	u, mq.pending = mq.pending[0], mq.pending[1:]\n	return u\n}\n\n// Done impl')]),
('Q02 Q03','ok',[(Q,'	for len(mq.pending) == 0 {\n		if mq.stopped {\n			return nil, io.EOF\n		}\n		if err := ctx.Err(); err != nil {\n			return nil, err\n		}\n		mq.cond.Wait()\n	}\n\n	url := mq.pending[0]\n	mq.pending = mq.pending[1:]\n\n	return url, nil','	for {\n		if len(mq.pending) > 0 {\n			url := mq.pending[0]\n			mq.pending = mq.pending[1:]\n			return url, nil\n		}\n		if mq.stopped {\n			return nil, io.EOF\n		}\n		if err := ctx.Err(); err != nil {\n			return nil, err\n		}\n		mq.cond.Wait()\n	}')]),
('Q02 Q03','ok',[(Q,'	mq.pending = append(mq.pending, urls...)\n	mq.wg.Add(len(urls))\n	mq.cond.Broadcast()','	mq.wg.Add(len(urls))\n	for _, u := range urls {\n		mq.pending = append(mq.pending, u)\n	}\n	mq.cond.Broadcast()')]),
('Q01','ok',[(D,'	d.mtx.Lock()\n	defer d.mtx.Unlock()\n\n	for _, u := range urls {\n		v := []byte(u.String())\n		if !d.filter.Test(v) {\n			d.filter.Add(v)\n			ret = append(ret, u)\n		}\n	}','	for _, u := range urls {\n		if d.add(u) {\n			ret = append(ret, u)\n		}\n	}'),(D,'// Dedupe implementation.\nfunc (d *dedupebf)','func (d *dedupebf) add(u *URL) bool {\n	d.mtx.Lock()\n	defer d.mtx.Unlock()\n	key := []byte(u.String())\n	if d.filter.Test(key) {\n		return false\n	}\n	d.filter.Add(key)\n	return true\n}\n\n// Dedupe implementation.\nfunc (d *dedupebf)')]),
('Q01','ok',[(D,'		if !d.filter.Test(v) {\n			d.filter.Add(v)\n			ret','		if !d.filter.TestAndAdd(v) {\n			ret')]),
('Q01','ok',[(D,'		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {\n			ret = append(ret, u)\n		}','		if _, seen := d.m.LoadOrStore(u.String(), struct{}{}); seen {\n			continue\n		}\n		ret = append(ret, u)')]),
('Q01','ok',[(D,'	m *sync.Map\n','	mu sync.Mutex\n	m map[string]struct{}\n'),(D,'return &deduper{new(sync.Map)}','return &deduper{m: map[string]struct{}{}}'),(D,'		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {\n			ret = append(ret, u)\n		}','		key := u.String()\n		d.mu.Lock()\n		_, seen := d.m[key]\n		d.m[key] = struct{}{}\n		d.mu.Unlock()\n		if !seen {\n			ret = append(ret, u)\n		}')]),
]
