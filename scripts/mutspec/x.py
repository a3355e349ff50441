T='antcdp/tx.go'; TG='antcdp/targets.go'; TR='antcdp/transport.go'
def m(props, kind, *edits):
    return (props, kind, list(edits))
ALL='X01 X02 X03'
MUT=[
 # pool
 m('X01','bad',(TG,'	case t.targets <- target:\n		return nil','	case t.targets <- target:')),
 m('X01','bad',(TR,'	defer t.pool.release(ctx, target)\n','')),
 m('X01','bad',(TR,'	defer t.pool.release(ctx, target)\n',''),(TR,'	resp, err := tx.do(ctx)\n','	resp, err := tx.do(ctx)\n	t.pool.release(ctx, target)\n')),
 m('X01','bad',(TG,'	case <-ctx.Done():\n		return nil, ctx.Err()\n\n	default:\n		v, err','	default:\n		v, err')) if False else
 m('X01','ok',(TG,'	case <-ctx.Done():\n		return nil, ctx.Err()\n\n	default:\n		v, err','	default:\n		v, err')),
 m('X01','bad',(TG,'context.WithoutCancel(ctx)','ctx')),
 m('X01','bad',(TG,'		v, err := t.client.Create(ctx)','		v, err := t.client.Create(context.Background())')),
 m('X01','bad',(TG,'	case t.targets <- target:\n		return nil\n	default:\n	}','	case t.targets <- target:\n		return nil\n	case <-ctx.Done():\n		return nil\n	}')),
 # connections
 m('X02','bad',(T,'		tx.conn,\n','')),
 m('X02','bad',(TR,'tx.close()','error(nil)')),
 m('X02','ok',(T,'		tx.events.req,\n','')),
 m('X02','bad',(T,'	tx.conn = conn\n',''),(T,'	tx.events.ready = ready\n','	tx.events.ready = ready\n	tx.conn = conn\n')),
 # answer
 m('X03','bad',(T,'				return fmt.Errorf("antcdp: merge response - %w", err)','				continue')),
 m('X03','bad',(T,'			if event.Type != network.ResourceTypeDocument {\n				continue\n			}\n			if id := event.FrameID; id != nil && *id != args.FrameID {\n				continue\n			}\n\n			if err := tx.merge','			if id := event.FrameID; id != nil && *id != args.FrameID {\n				continue\n			}\n\n			if err := tx.merge')),
 m('X03','bad',(T,'			if event.Type != network.ResourceTypeDocument {\n				continue\n			}\n			if id := event.FrameID; id != nil && *id != args.FrameID {\n				continue\n			}\n\n			if err := tx.merge','			if event.Type != network.ResourceTypeDocument {\n				continue\n			}\n\n			if err := tx.merge')),
 m('X03','bad',(T,'	if _, err := tx.events.ready.Recv(); err != nil {\n		return nil, fmt.Errorf("antcdp: dom ready - %w", err)\n	}\n','')),
 m('X03','bad',(T,'	if errmsg := reply.ErrorText; errmsg != nil {\n		return nil, fmt.Errorf("antcdp: navigate - %s", *errmsg)\n	}\n','')),
 m('X03','bad',(T,'	if err := tx.readcookies(ctx); err != nil {\n		return nil, err\n	}\n\n	return','	tx.readcookies(ctx)\n\n	return')),
 m('X03','bad',(T,'int64(size)','int64(size+1)')),
 m('X03','bad',(T,'strings.NewReader(content)','strings.NewReader(strings.TrimSpace(content))')),
 m('X03','bad',(T,'tx.resp.Header.Add("Set-Cookie"','tx.resp.Header.Set("Set-Cookie"')),
 m('X03','bad',(T,'		tx.resp.Header.Set(k, v)\n','		if k != "Location" {\n			tx.resp.Header.Set(k, v)\n		}\n')),
 m('X03','bad',(T,'		dst[k] = src.Get(k)\n','		if k != "Cookie" {\n			dst[k] = src.Get(k)\n		}\n')),
 m('X03','bad',(T,'	for j, c := range cookies {\n','	for j, c := range cookies {\n		if c.Secure {\n			continue\n		}\n')),
 m('X03','bad',(T,'tx.request.URL.String())\n','tx.request.URL.Path)\n')),
 m('X03','bad',(T,'	tx.resp = &http.Response{Request: tx.request}','	tx.resp = &http.Response{}')),
 m('X03','bad',(T,'	if err := tx.setHeaders(ctx); err != nil {\n		return err\n	}\n','	tx.setHeaders(ctx)\n')),
 m('X03','bad',(T,'			delete(ids, event.RequestID)\n			if len(ids) == 0 {\n				return nil\n			}\n\n		case <-ctx.Done():\n			return ctx.Err()','			delete(ids, event.RequestID)\n			if len(ids) == 0 {\n				return nil\n			}\n\n		case <-ctx.Done():\n			return nil')),
 m('X03','bad',(T,'	tx.resp.Header.Set("Content-Length", length)\n','	_ = length\n')),
 m('X03','bad',(T,'	return tx.resp, nil\n}\n\n// Wait','	return tx.resp, err\n}\n\n// Wait')) if False else
 m('X03','bad',(T,'		return nil, fmt.Errorf("antcdp: dom ready - %w", err)','		return tx.resp, fmt.Errorf("antcdp: dom ready - %w", err)'),(TR,'	if err != nil {\n		return nil, err\n	}\n\n	return resp, nil','	return resp, err')),
 # ok
 m(ALL,'ok',(TR,'	if err != nil {\n		return nil, err\n	}\n\n	return resp, nil','	return resp, err')),
 m(ALL,'ok',(T,'	for _, c := range closers {\n		if c != nil {','	for i := 0; i < len(closers); i++ {\n		c := closers[i]\n		if c != nil {')),
 m(ALL,'ok',(T,'''	var closers = [...]io.Closer{
		tx.conn,
		tx.events.req,
		tx.events.res,
		tx.events.ready,
	}
''','''	var closers = []io.Closer{
		tx.conn,
		tx.events.req,
		tx.events.res,
		tx.events.ready,
	}
''')),
 m(ALL,'ok',(T,'	args.Cookies = make([]network.CookieParam, len(cookies))\n','	args.Cookies = make([]network.CookieParam, 0, len(cookies))\n'),(T,'	for j, c := range cookies {','	for _, c := range cookies {'),(T,'		args.Cookies[j] = network.CookieParam{','		p := network.CookieParam{'),(T,'			HTTPOnly: &c.HttpOnly,\n		}','			HTTPOnly: &c.HttpOnly,\n		}\n		args.Cookies = append(args.Cookies, p)')),
 m(ALL,'ok',(T,'	for k := range src {\n		dst[k] = src.Get(k)','	for k, v := range src {\n		dst[k] = strings.Join(v, ", ")')),
 m(ALL,'ok',(T,'	tx.resp.Status = fmt.Sprintf("%d %s", resp.Status, http.StatusText(resp.Status))','	tx.resp.Status = strconv.Itoa(resp.Status) + " " + http.StatusText(resp.Status)')),
 m(ALL,'ok',(T,'	if tx.conn == nil {\n		return nil\n	}\n',''),(T,'	var closers = [...]io.Closer{\n		tx.conn,\n		tx.events.req,\n		tx.events.res,\n		tx.events.ready,\n	}\n','	if conn := tx.conn; conn != nil {\n		if e := conn.Close(); e != nil {\n			err = multierror.Append(err, e)\n		}\n	}\n\n	var closers = []io.Closer{\n		tx.events.req,\n		tx.events.res,\n		tx.events.ready,\n	}\n')),
 m(ALL,'ok',(T,'			if event.Type != network.ResourceTypeDocument {\n				continue\n			}\n			if id := event.FrameID; id != nil && *id != args.FrameID {\n				continue\n			}\n\n			if err := tx.merge','			if !mainDocument(event.Type, event.FrameID, args.FrameID) {\n				continue\n			}\n\n			if err := tx.merge'),(T,'// Readbody attempts','func mainDocument(t network.ResourceType, id *page.FrameID, frame page.FrameID) bool {\n	if t != network.ResourceTypeDocument {\n		return false\n	}\n	return id == nil || *id == frame\n}\n\n// Readbody attempts')),
]
