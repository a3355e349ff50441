MUT = []
E = 'engine.go'
def bad(p, *edits): MUT.append((p, 'bad', list(edits)))
LOOP = '''	for j := range batch {
		batch[j] = normalize.URL(batch[j])
	}

	next, err := eng.dedupe(ctx, eng.matches(batch))
'''
COPY = '''	normal := make(URLs, 0, len(batch))
	for %s {
		normal = append(normal, normalize.URL(u))
	}

	next, err := eng.dedupe(ctx, eng.matches(%s))
'''
bad('E02', (E, LOOP, COPY % ('_, u := range batch[1:]', 'normal')))
bad('E02', (E, LOOP, COPY % ('_, u := range batch', 'normal[1:]')))
bad('E02', (E, LOOP, (COPY % ('i, u := range batch', 'normal')).replace('		normal =', '		if i > 100 {\n			break\n		}\n		normal =')))
bad('E02', (E, LOOP, (COPY % ('_, u := range batch', 'normal')).replace('		normal =', '		if u.Fragment != "" {\n			continue\n		}\n		normal =')))
bad('E02', (E, LOOP, LOOP.replace('eng.matches(batch)', 'nil')))
bad('E02', (E, LOOP, LOOP.replace('eng.matches(batch)', 'eng.matches(batch[:len(batch)/2])')))
bad('E03', (E, LOOP, COPY % ('_, u := range batch', 'batch')))
bad('E02', (E, '''			if eng.matcher.Match(u) {
				ret = append(ret, u)
			}
''', '''			if !eng.matcher.Match(u) {
				break
			}
			ret = append(ret, u)
'''))
bad('E02', (E, '''			if eng.matcher.Match(u) {
				ret = append(ret, u)
			}
''', '''			if eng.matcher.Match(u) {
				ret = append(ret[:0], u)
			}
'''))
bad('E02', (E, '''		return ret
	}
	return urls
''', '''		return ret
	}
	return nil
'''))
bad('E02', (E, '''	if err := eng.queue.Enqueue(ctx, next); err != nil {
''', '''	if len(next) > 1 {
		next = next[:1]
	}

	if err := eng.queue.Enqueue(ctx, next); err != nil {
'''))
bad('E01', (E, '				eng.queue.Done(ctx, url)\n', ''))
bad('E01', (E, '	defer eng.queue.Done(ctx, url)\n\n	// Check', '	// Check'), (E, '''		return fmt.Errorf("ant: enqueue - %w", err)
	}

	return nil
}

// Scrape''', '''		return fmt.Errorf("ant: enqueue - %w", err)
	}

	eng.queue.Done(ctx, url)
	return nil
}

// Scrape'''))
bad('E08', (E, '''			return eg.Wait()
		}
		if err != nil {
			eg.Go(''', '''			return nil
		}
		if err != nil {
			eg.Go('''))
bad('E07', (E, '''			err := eng.process(subctx, url)
			if err != nil {
''', '''			err := eng.process(subctx, url)
			if errors.Is(err, context.DeadlineExceeded) {
				return nil
			}
			if err != nil {
'''))
bad('E06', (E, '''			if eng.sema != nil {
				defer eng.sema.Release(1)
			}
			err :=''', '''			if eng.sema != nil {
				eng.sema.Release(1)
			}
			err :='''))
bad('E08', (E, '''	for i := 0; i < eng.workers; i++ {
''', '''	for i := 0; i <= eng.workers; i++ {
'''))
bad('E08', (E, '''	for i := 0; i < eng.workers; i++ {
''', '''	for n := eng.workers; n > 1; n-- {
'''))
bad('E08', (E, '''	for i := 0; i < eng.workers; i++ {
''', '''	for n := eng.workers; n >= 0; n-- {
'''))
bad('E05', (E, '''	if eng.impolite {
		return nil
	}

	err := eng.robots.Wait''', '''	if eng.impolite || eng.limiter != nil {
		return nil
	}

	err := eng.robots.Wait'''))
bad('E04', (E, '''		if !allowed {
			return nil
		}
''', '''		if !allowed && url.RawQuery == "" {
			return nil
		}
'''))
