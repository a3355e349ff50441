F='antcache/disk.go'
def m(props, kind, *edits):
    return (props, kind, [(F,a,b) for a,b in edits])
ALL='D01 D02 D03 D04 D05'
DECIDE='''		if d.maxage > 0 {
			if now.Sub(f.mtime) > d.maxage {
				remove = append(remove, f)
				continue
			}
		}

		if d.maxsize > 0 {
			if sum += f.size; sum > d.maxsize {
				remove = append(remove, f)
				sum -= f.size
			}
		}
'''
SORT='''	sort.Slice(files, func(i, j int) bool {
		a := files[i].mtime
		b := files[j].mtime
		return b.Before(a)
	})
'''
REMOVE='''	for _, f := range remove {
		if cur, ok := d.ready[f.key]; ok && cur == f {
			if err := os.Remove(f.path); err != nil && !errors.Is(err, os.ErrNotExist) {
				log.Printf("antcache: disk remove - %s", err)
				continue
			}
			delete(d.ready, f.key)
			removed++
		}
	}
'''
FOUND='''	d.readymu.Lock()
	for _, f := range files {
		if _, ok := d.ready[f.key]; !ok {
			d.ready[f.key] = f
		}
	}
	d.readymu.Unlock()
'''
MUT=[
# --- sweep decisions: bad
m('D03','bad',('if d.maxage > 0 {\n','if d.maxage >= 0 {\n')),
m('D03','bad',('now.Sub(f.mtime) > d.maxage','now.Sub(f.mtime) < d.maxage')),
m('D03','bad',('now.Sub(f.mtime) > d.maxage','f.mtime.Sub(now) > d.maxage')),
m('D03','bad',('now.Sub(f.mtime) > d.maxage','now.Sub(f.mtime) > 2*d.maxage')),
m('D03','bad',('return b.Before(a)','return a.Before(b)')),
m('D03','bad',('b := files[j].mtime','b := files[i].mtime')),
m('D03','bad',('				sum -= f.size\n','				sum = 0\n')),
m('D03','bad',('if sum += f.size; sum > d.maxsize','if sum += f.size; sum >= d.maxsize')),
m('D03','bad',('if sum += f.size; sum > d.maxsize','if sum = f.size; sum > d.maxsize')),
m('D03','bad',('				remove = append(remove, f)\n				sum -= f.size\n','				remove = append(remove, f)\n				break\n')),
m('D03','bad',('				remove = append(remove, f)\n				sum -= f.size\n','				remove = []file{f}\n				sum -= f.size\n')),
m('D03','bad',('if d.maxsize > 0 {\n','if d.maxsize > 0 && len(remove) == 0 {\n')),
m('D03','bad',('		if d.maxsize > 0 {\n','		if d.maxage <= 0 && d.maxsize > 0 {\n')),
m('D03','bad',('				continue\n			}\n		}\n\n		if d.maxsize','			}\n		}\n\n		if d.maxsize')) if False else m('D03','bad',('var sum int64','var sum int64 = 1024')),
m('D03','bad',(SORT,'	_ = sort.Slice\n')),
m('D03','bad',('range remove {\n','range remove[:len(remove)/2] {\n')),
m('D03','bad',('			removed++\n','			if removed++; removed == 10 {\n				break\n			}\n')),
m('D03','bad',('				log.Printf("antcache: disk remove - %s", err)\n				continue','				log.Printf("antcache: disk remove - %s", err)\n				break')),
m('D03','bad',('	for _, f := range d.ready {\n		ret = append(ret, f)\n','	for _, f := range d.ready {\n		if f.size == 0 {\n			continue\n		}\n		ret = append(ret, f)\n')),
m('D03','bad',('	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	for _, f := range remove','	if len(remove) < 2 {\n		return 0, nil\n	}\n	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	for _, f := range remove')),
m('D03','bad',('now.Sub(f.mtime) > d.maxage','now.Sub(files[0].mtime) > d.maxage')),
# --- sweep atomicity
m('D02','bad',('; ok && cur == f {','; ok && cur.key == f.key {')),
m('D02','bad',('		if cur, ok := d.ready[f.key]; ok && cur == f {','		if _, ok := d.ready[f.key]; ok {')),
m('D02','bad',('err != nil && !errors.Is(err, os.ErrNotExist) {','err != nil {')),
m('D02','bad',('				log.Printf("antcache: disk remove - %s", err)\n				continue','				log.Printf("antcache: disk remove - %s", err)')),
m('D02','bad',('			delete(d.ready, f.key)\n','			d.readymu.Unlock()\n			d.readymu.Lock()\n			delete(d.ready, f.key)\n')),
m('D02','bad',('			delete(d.ready, f.key)\n','			if f.size > 0 {\n				delete(d.ready, f.key)\n			}\n')),
m('D02','bad',('	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	for _, f := range remove','	d.readymu.RLock()\n	defer d.readymu.RUnlock()\n\n	for _, f := range remove')),
m('D02','bad',('	d.readymu.RLock()\n	defer d.readymu.RUnlock()\n\n	if f, ok := d.ready[key]; ok {\n','	d.readymu.RLock()\n	f, ok := d.ready[key]\n	d.readymu.RUnlock()\n\n	if ok {\n')),
m('D02','bad',('	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	if err := os.Rename','	if err := os.Rename'),('	d.ready[key] = file{','	d.readymu.Lock()\n	defer d.readymu.Unlock()\n	d.ready[key] = file{')),
# --- store
m('D01','bad',('	if err := f.Sync(); err != nil {\n		cleanup()\n		return fmt.Errorf("antcache: disk fsync - %w", err)\n	}\n\n	if err := d.add','	if err := d.add')),
m('D01','bad',('	if err := d.dir.Sync(); err != nil {\n		return fmt.Errorf("antcache: disk fsync - %w", err)\n	}\n','')),
m('D01','bad',('	if err := d.dir.Sync(); err != nil {\n		return fmt.Errorf("antcache: disk fsync - %w", err)\n	}\n','	if err := d.dir.Sync(); err != nil {\n		log.Printf("antcache: disk fsync - %s", err)\n	}\n')),
m('D01','bad',('os.CreateTemp(d.path, "*.tmp")','os.CreateTemp("", "*.tmp")')),
m('D01','bad',('os.CreateTemp(d.path, "*.tmp")','os.CreateTemp(d.path, "")')),
m('D01','bad',('		f.Close()\n		os.Remove(f.Name())','		f.Close()')),
m('D01','bad',('	if err := d.add(key, f); err != nil {\n		cleanup()\n','	if err := d.add(key, f); err != nil {\n')),
m('D01','bad',('	if err := f.Close(); err != nil {\n		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)\n	}\n','	f.Close()\n')),
m('D01','bad',('	if err := f.Close(); err != nil {\n		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)\n	}\n','	defer f.Close()\n')),
m('D05','bad',('	if d.compress {\n		v = snappy','	if d.compress && len(v) > 1024 {\n		v = snappy')),
m('D05','bad',('strconv.FormatUint(key, 10)','strconv.FormatUint(key, 16)')),
m('D05','bad',('strconv.FormatUint(key, 10)','strconv.FormatInt(int64(int32(key)), 10)')),
m('D05','bad',('	if v != nil && d.compress {','	if len(v) > 0 && d.compress {')),
m('D05','bad',('				err,\n			)\n','				err,\n			)\n			err = nil\n')),
m('D05','bad',('strconv.ParseUint(name, 10, 64)','strconv.ParseUint(name, 10, 63)')),
m('D05','bad',('strconv.ParseUint(name, 10, 64)','strconv.ParseUint(name, 0, 64)')),
m('D05','bad',('return nil, fmt.Errorf("antcache: disk read','return v, fmt.Errorf("antcache: disk read')) if False else m('D05','bad',('				path:  path,\n','				path:  name,\n')),
# --- warm-up and lifecycle
m('D04','bad',('				continue\n			}\n\n			files = append(files, file{','				break\n			}\n\n			files = append(files, file{')),
m('D04','bad',('		if _, ok := d.ready[f.key]; !ok {\n			d.ready[f.key] = f\n		}','		d.ready[f.key] = f')),
m('D04','bad',('			if !errors.Is(err, io.EOF) {\n				log.Printf("antcache: disk read dir %s - %s", d.path, err)\n			}\n			break','			if errors.Is(err, io.EOF) {\n				break\n			}\n			log.Printf("antcache: disk read dir %s - %s", d.path, err)')),
m('D04','bad',('		if err != nil {\n			if !errors.Is(err, io.EOF)','		if err != nil || len(names) < 5 {\n			if !errors.Is(err, io.EOF)')),
m('D04','bad',('		close(d.warm)\n		d.wg.Done()','		close(d.warm)')),
m('D04','bad',('	defer func() {\n		close(d.warm)\n		d.wg.Done()\n	}()\n','	defer d.wg.Done()\n	close(d.warm)\n')),
m('D04','bad',('	case <-d.stop:\n		return\n	case <-d.warm:\n	}\n','	case <-d.stop:\n		return\n	default:\n	}\n')),
m('D04','bad',('			case <-d.stop:\n			return\n','')) if False else m('D04','bad',('		case <-d.stop:\n			return\n\n		case <-d.ticker.C','		case <-d.ticker.C')),
m('D04','bad',('	close(d.stop)\n	d.wg.Wait()\n','	close(d.stop)\n')),
m('D04','bad',('	close(d.stop)\n	d.wg.Wait()\n','	d.wg.Wait()\n	close(d.stop)\n')),
m('D04','bad',('	close(d.stop)\n	d.wg.Wait()\n','	close(d.stop)\n	defer d.wg.Wait()\n')),
m('D04','bad',('		disk.wg.Add(1)\n		go disk.sweeper()','		go func() {\n			disk.wg.Add(1)\n			disk.sweeper()\n		}()')),
m('D04','bad',('		return ctx.Err()\n	case <-d.warm','		return nil\n	case <-d.warm')),
m('D04','bad',('				log.Printf("antcache: disk sweep - %s", err)\n','				log.Printf("antcache: disk sweep - %s", err)\n				return\n')),
m('D04','bad',('	d.readymu.Unlock()\n\n	d.debugf("found','	d.readymu.Unlock()\n	if len(files) == 0 {\n		<-d.stop\n	}\n\n	d.debugf("found')),
m('D04','bad',('	disk.wg.Add(1)\n	go disk.warmup()\n','	go disk.warmup()\n')),
m('D04','bad',('	for _, f := range files {\n		if _, ok := d.ready[f.key]; !ok','	for _, f := range files {\n		if f.size == 0 {\n			continue\n		}\n		if _, ok := d.ready[f.key]; !ok')),
m('D04','bad',('			files = append(files, file{\n				key:   n,\n				path:  path,\n				size:  stat.Size(),\n				mtime: stat.ModTime(),\n			})','			files = append(files[:0], file{\n				key:   n,\n				path:  path,\n				size:  stat.Size(),\n				mtime: stat.ModTime(),\n			})')),
m('D04','bad',('	d.readymu.Lock()\n	for _, f := range files','	d.readymu.RLock()\n	for _, f := range files'),('	d.readymu.Unlock()\n\n	d.debugf("found','	d.readymu.RUnlock()\n\n	d.debugf("found')),
m('D04','bad',(FOUND,'	for _, f := range files {\n		d.readymu.RLock()\n		_, ok := d.ready[f.key]\n		d.readymu.RUnlock()\n		if !ok {\n			d.readymu.Lock()\n			d.ready[f.key] = f\n			d.readymu.Unlock()\n		}\n	}\n')),
# --- ok refactors
m(ALL,'ok',(DECIDE,'''		if d.maxage > 0 && now.Sub(f.mtime) > d.maxage {
			remove = append(remove, f)
			continue
		}
		if d.maxsize <= 0 {
			continue
		}
		if sum+f.size > d.maxsize {
			remove = append(remove, f)
		} else {
			sum += f.size
		}
''')),
m(ALL,'ok',(DECIDE,'''		old := d.maxage > 0 && f.mtime.Before(now.Add(-d.maxage))
		big := !old && d.maxsize > 0 && f.size > d.maxsize-sum
		if old || big {
			remove = append(remove, f)
			continue
		}
		sum += f.size
''')),
m(ALL,'ok',(DECIDE,'''		switch {
		case d.expired(f, now):
			remove = append(remove, f)
		case d.maxsize > 0:
			if sum += f.size; sum > d.maxsize {
				remove = append(remove, f)
				sum -= f.size
			}
		}
'''),('// Files returns the files.','''func (d *Diskstore) expired(f file, now time.Time) bool {
	return d.maxage > 0 && now.Sub(f.mtime) > d.maxage
}

// Files returns the files.''')),
m(ALL,'ok',(DECIDE,'''		if d.maxage > 0 && now.Sub(f.mtime) > d.maxage {
			remove = append(remove, f)
			continue
		}
		if d.maxsize > 0 {
			if f.size > sum {
				remove = append(remove, f)
				continue
			}
			sum -= f.size
		}
'''),('	var sum int64\n','	var sum = d.maxsize\n')),
m(ALL,'ok',('	for _, f := range files {\n		if d.maxage','	for i := 0; i < len(files); i++ {\n		f := files[i]\n		if d.maxage')),
m(ALL,'ok',('	for _, f := range files {\n		if d.maxage','	for i := range files {\n		f := files[i]\n		if d.maxage')),
m(ALL,'ok',(SORT,'	sort.SliceStable(files, func(i, j int) bool { return files[i].mtime.After(files[j].mtime) })\n')),
m(ALL,'ok',(SORT,'	sort.Sort(newest(files))\n'),('// Files returns the files.','''type newest []file

func (n newest) Len() int           { return len(n) }
func (n newest) Swap(i, j int)      { n[i], n[j] = n[j], n[i] }
func (n newest) Less(i, j int) bool { return n[j].mtime.Before(n[i].mtime) }

// Files returns the files.''')),
m(ALL,'ok',(SORT,'''	sort.Slice(files, func(i, j int) bool {
		if files[i].mtime.Equal(files[j].mtime) {
			return files[i].key < files[j].key
		}
		return files[i].mtime.After(files[j].mtime)
	})
''')),
m(ALL,'ok',(SORT,'''	sort.Slice(files, func(i, j int) bool {
		return files[i].mtime.UnixNano() > files[j].mtime.UnixNano()
	})
''')),
m(ALL,'ok',(REMOVE,'''	for _, f := range remove {
		cur, ok := d.ready[f.key]
		if !ok || cur != f {
			continue
		}
		err := os.Remove(f.path)
		if err != nil && !os.IsNotExist(err) {
			log.Printf("antcache: disk remove - %s", err)
		} else {
			delete(d.ready, f.key)
			removed++
		}
	}
''')),
m(ALL,'ok',(REMOVE,'''	for _, f := range remove {
		if d.discard(f) {
			removed++
		}
	}
'''),('// Files returns the files.','''// discard removes the file if it is still the one stored.
func (d *Diskstore) discard(f file) bool {
	if cur, ok := d.ready[f.key]; !ok || cur != f {
		return false
	}
	if err := os.Remove(f.path); err != nil && !errors.Is(err, os.ErrNotExist) {
		log.Printf("antcache: disk remove - %s", err)
		return false
	}
	delete(d.ready, f.key)
	return true
}

// Files returns the files.''')),
m(ALL,'ok',('; ok && cur == f {','; ok && cur.mtime.Equal(f.mtime) {')),
m(ALL,'ok',('	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	for _, f := range remove','	if len(remove) == 0 {\n		return 0, nil\n	}\n	d.readymu.Lock()\n	defer d.readymu.Unlock()\n\n	for _, f := range remove')),
m(ALL,'ok',('	var sum int64\n','	var sum int64\n	if d.maxage <= 0 && d.maxsize <= 0 {\n		return 0, nil\n	}\n')),
m(ALL,'ok',('''	d.readymu.Lock()
	defer d.readymu.Unlock()

	for _, f := range remove''','''	return d.drop(remove)
}

func (d *Diskstore) drop(remove []file) (removed int, err error) {
	d.readymu.Lock()
	defer d.readymu.Unlock()

	for _, f := range remove'''),('	var removed int\n','')),
m(ALL,'ok',('	d.readymu.RLock()\n	ret := make','	d.readymu.RLock()\n	defer d.readymu.RUnlock()\n	ret := make'),('		ret = append(ret, f)\n	}\n	d.readymu.RUnlock()\n','		ret = append(ret, f)\n	}\n')),
m(ALL,'ok',(FOUND,'	d.index(files)\n'),('// Sweeper sweeps the directory.','''func (d *Diskstore) index(files []file) {
	d.readymu.Lock()
	defer d.readymu.Unlock()
	for i := range files {
		f := files[i]
		if _, found := d.ready[f.key]; found {
			continue
		}
		d.ready[f.key] = f
	}
}

// Sweeper sweeps the directory.''')),
m(ALL,'ok',('''			n, err := strconv.ParseUint(name, 10, 64)
			if err != nil {
				log.Printf("antcache: disk cache invalid entry - %s", name)
				continue
			}

			stat, err := os.Stat(path)
			if err != nil {
				log.Printf("antcache: disk stat %s - %s", path, err)
				continue
			}

			files = append(files, file{
				key:   n,
				path:  path,
				size:  stat.Size(),
				mtime: stat.ModTime(),
			})
''','''			if f, ok := d.examine(name); ok {
				files = append(files, f)
			}
'''),('			var path = filepath.Join(d.path, name)\n\n			if filepath.Ext(path) == "tmp" {\n				continue\n			}\n\n',''),('// Sweeper sweeps the directory.','''func (d *Diskstore) examine(name string) (file, bool) {
	n, err := strconv.ParseUint(name, 10, 64)
	if err != nil {
		log.Printf("antcache: disk cache invalid entry - %s", name)
		return file{}, false
	}
	path := filepath.Join(d.path, name)
	stat, err := os.Stat(path)
	if err != nil {
		log.Printf("antcache: disk stat %s - %s", path, err)
		return file{}, false
	}
	return file{key: n, path: path, size: stat.Size(), mtime: stat.ModTime()}, true
}

// Sweeper sweeps the directory.''')),
m(ALL,'ok',('filepath.Ext(path) == "tmp"','filepath.Ext(path) == ".tmp"')),
m(ALL,'ok',('''		close(d.warm)
		d.wg.Done()
	}()
''','''		close(d.warm)
	}()
	defer d.wg.Done()
''')) if False else m(ALL,'ok',('''	defer func() {
		close(d.warm)
		d.wg.Done()
	}()
''','''	defer d.wg.Done()
	defer close(d.warm)
''')),
m(ALL,'ok',('	disk.wg.Add(1)\n	go disk.warmup()\n','	disk.wg.Add(1)\n	go func() {\n		disk.warmup()\n	}()\n')),
m(ALL,'ok',('''	select {
	case <-d.stop:
		return
	case <-d.warm:
	}

	for {''','''	<-d.warm

	for {''')),
m(ALL,'ok',('''	if err := d.dir.Close(); err != nil {
		return fmt.Errorf("antcache: disk close dir - %w", err)
	}

	d.debugf("closed %s", d.path)
	return nil''','''	err := d.dir.Close()
	if err == nil {
		d.debugf("closed %s", d.path)
		return nil
	}
	return fmt.Errorf("antcache: disk close dir - %w", err)''')),
m(ALL,'ok',('''	cleanup := func() {
		f.Close()
		os.Remove(f.Name())
	}
''','''	done := false
	defer func() {
		if !done {
			f.Close()
			os.Remove(f.Name())
		}
	}()
'''),('		cleanup()\n		return fmt.Errorf("antcache: disk write','		return fmt.Errorf("antcache: disk write'),('		cleanup()\n		return fmt.Errorf("antcache: disk fsync','		return fmt.Errorf("antcache: disk fsync'),('		cleanup()\n		return fmt.Errorf("antcache: add','		return fmt.Errorf("antcache: add'),('	d.debugf("store %d", key)','	done = true\n	d.debugf("store %d", key)')),
m(ALL,'ok',('''	if v != nil && d.compress {
		if v, err = snappy.Decode(nil, v); err != nil {
			err = fmt.Errorf(
				"antcache: compress is on but snappy can't decode %s/%d - %w",
				d.path,
				key,
				err,
			)
		}
	}

	return
''','''	if v == nil || !d.compress {
		return v, nil
	}
	dec, err := snappy.Decode(nil, v)
	if err != nil {
		return nil, fmt.Errorf("antcache: compress is on but snappy can't decode %s/%d - %w", d.path, key, err)
	}
	return dec, nil
''')),
m(ALL,'ok',('''	if f, ok := d.ready[key]; ok {
		if v, err = os.ReadFile(f.path); err != nil {
			return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, err)
		}
		d.debugf("load %d %s", key)
	}
''','''	f, ok := d.ready[key]
	if !ok {
		return nil, nil
	}
	if v, err = os.ReadFile(f.path); err != nil {
		return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, err)
	}
''')),
m(ALL,'ok',('	if err := os.Rename(f.Name(), newpath); err != nil {','	tmp := f.Name()\n	if err := os.Rename(tmp, newpath); err != nil {')),
]
