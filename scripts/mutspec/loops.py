# Loops that count down or pop, off by one.
MUT = []
E, Q, F = 'engine.go', 'queue.go', 'fetcher.go'
SP = '''	for i := 0; i < eng.workers; i++ {
		eg.Go('''
for h in ['for n := eng.workers; n > 1; n--', 'for n := eng.workers; n >= 0; n--', 'for n := eng.workers - 1; n > 0; n--',
          'for n := eng.workers; n > 0; n -= 2', 'for n := eng.workers + 1; n > 0; n--']:
    MUT.append(('E08', 'bad', [(E, SP, '	%s {\n		eg.Go(' % h)]))
for h in ['for n := eng.workers - 1; n >= 0; n--', 'for n := eng.workers; n >= 1; n--']:
    MUT.append(('E08', 'ok', [(E, SP, '	%s {\n		eg.Go(' % h)]))
CL = '''	for range mq.pending {
		mq.wg.Done()
	}
'''
for b in ['for n := len(mq.pending); n > 1; n-- {\n		mq.wg.Done()\n	}', 'for n := len(mq.pending); n >= 0; n-- {\n		mq.wg.Done()\n	}',
          'for len(mq.pending) > 1 {\n		mq.pending = mq.pending[1:]\n		mq.wg.Done()\n	}',
          'for len(mq.pending) > 1 {\n		mq.pending = mq.pending[2:]\n		mq.wg.Done()\n	}',
          'for n := len(mq.pending); n > 0; n -= 2 {\n		mq.wg.Done()\n	}',
          'for p := mq.pending; len(p) > 1; p = p[1:] {\n		mq.wg.Done()\n	}',
          'mq.wg.Done()\n	for p := mq.pending; len(p) > 0; p = p[1:] {\n		mq.wg.Done()\n	}',
          ]:
    MUT.append(('Q02', 'bad', [(Q, CL, '	%s\n' % b)]))
for b in ['for n := len(mq.pending) - 1; n >= 0; n-- {\n		mq.wg.Done()\n	}',
          'for n := 0; n != len(mq.pending); n++ {\n		mq.wg.Done()\n	}',
          'for p := mq.pending; len(p) > 0; p = p[1:] {\n		mq.wg.Done()\n	}',
          'for p := mq.pending; len(p) > 0; p = p[:len(p)-1] {\n		mq.wg.Done()\n	}',
          'n := len(mq.pending)\n	for n > 0 {\n		n--\n		mq.wg.Done()\n	}',
          'for i := range mq.pending {\n		_ = i\n		mq.wg.Done()\n	}',
          'for len(mq.pending) > 0 {\n		mq.wg.Done()\n		mq.pending = mq.pending[:len(mq.pending)-1]\n	}']:
    MUT.append(('Q02', 'ok', [(Q, CL, '	%s\n' % b)]))
