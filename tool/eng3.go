package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E09", "event counting per dequeued URL: the thread that was given it calls Fetch exactly once for it and Scrape exactly once with the page obtained, unless robots.txt refused it, an error is reported or the context is cancelled; receivers are the engine's own components, which NewEngine takes from the configuration", checkE09)
}

// checkE09: no URL is silently skipped, and nothing is done twice.
func checkE09(r *Result) {
	e := newEngineModel(r)
	if e == nil {
		return
	}
	parts := []struct {
		conf, name, typ string
		exact           bool
		events          []string
	}{
		{"Scraper", "scraper", "ant.Scraper", true, []string{evScrape}},
		{"Fetcher", "fetcher", "*ant.Fetcher", false, []string{evFetch}},
		{"Queue", "queue", "ant.Queue", false, []string{evEnqueue, evDequeue, evDone, evQWait, evQClose}},
		{"Deduper", "deduper", "ant.Deduper", false, []string{evDedupe}},
	}
	of := map[string]*types.Var{}
	var all []*types.Var
	for _, p := range parts {
		f := e.field(p.name, p.typ)
		if f == nil {
			r.Missing("Engine." + p.name)
			return
		}
		all = append(all, f)
		for _, ev := range p.events {
			of[ev] = f
		}
	}
	// judge looks at what was done for the URLs this thread was given.
	judge := func(st *State, what string, pos token.Pos, res *Term) {
		for _, u := range st.G("mine") {
			if er := errOf(u); er != nil && st.nonNil(er) || res != nil && st.nonNil(res) || len(st.G("cancelled")) > 0 {
				continue
			}
			r.Ob("fetched", what)
			refused := false
			for _, a := range st.G("allowed") {
				refused = refused || a.Args[0] == u && st.refuted(a.Args[1])
			}
			fs := st.G("fetched")
			if len(fs) == 0 {
				if !refused {
					r.Report("fetched", what, pos, st, "the URL %v is finished with although it was neither refused by robots.txt nor fetched, and no error is reported", u)
				}
				continue
			}
			for _, f := range fs {
				if er := errOf(f); st.isNil(f) || er != nil && st.nonNil(er) {
					continue
				}
				r.Ob("scraped", what)
				if !st.HasG("scraped", f) {
					r.Report("scraped", what, pos, st, "the page fetched (%v) is never given to the scraper, and no error is reported", f)
				}
			}
		}
	}
	h := &Hooks{}
	h.Call = func(x *Exec, st *State, c *Call) {
		if f := of[c.Name]; f != nil {
			r.Ob("component", site(c))
			if got := c.Arg(0); strip(got) != strip(e.load(x, st, f)) {
				r.Report("component", site(c), c.Pos(), st, "%s is called on %v, not on the engine's %s", short(c.Name), got, f.Name())
			}
		}
		switch c.Name {
		case evDequeue:
			judge(st, site(c)+" again", c.Pos(), nil)
			for _, k := range []string{"mine", "own", "done", "allowed", "fetched", "scraped"} {
				st.ClearG(k)
			}
			e.take(st, c)
			st.AddG("mine", c.R(0))
		case evAllowed:
			u, _ := robotsReq(x, st, c.Arg(2))
			st.AddG("allowed", in.mk(Term{K: KTuple, Args: []*Term{u, c.R(0), c.R(1)}}))
		case evFetch:
			r.Ob("once", site(c))
			if len(st.G("fetched")) > 0 {
				r.Report("once", site(c), c.Pos(), st, "a second fetch is made for one URL")
			}
			if !st.HasG("mine", c.Arg(2)) {
				r.Report("once", site(c), c.Pos(), st, "what is fetched (%v) is not the URL taken from the queue", c.Arg(2))
			}
			st.AddG("fetched", c.R(0))
		case evScrape:
			r.Ob("once", site(c))
			if !st.HasG("fetched", c.Arg(2)) {
				r.Report("once", site(c), c.Pos(), st, "the page scraped (%v) is not the one fetched", c.Arg(2))
			}
			if st.HasG("scraped", c.Arg(2)) {
				r.Report("once", site(c), c.Pos(), st, "a page is scraped twice")
			}
			st.AddG("scraped", c.Arg(2))
		}
	}
	h.Assume = func(x *Exec, st *State, c *Term, v bool, i ssa.Instruction) {
		if c.K == KUn {
			c, v = c.Args[0], !v
		}
		if !v && c.K == KBin && c.Aux == "==" && c.Args[1] == tNil && isPureOf(c.Args[0], "(context.Context).Err") {
			st.SetG("cancelled", mkTok("yes"))
		}
	}
	h.Select = func(x *Exec, st *State, in *ssa.Select, k int, chans []*Term, fr *frame) {
		if k >= 0 && isDoneChan(chans[k]) {
			st.SetG("cancelled", mkTok("yes"))
		}
	}
	h.Spawn = func(x *Exec, parent, child *State, c *Call, fn *Term) {
		e.transfer(parent, child, c, fn)
		for _, k := range []string{"mine", "allowed", "fetched", "scraped", "cancelled"} {
			child.ClearG(k)
		}
		for _, u := range child.G("own") {
			if parent.HasG("mine", u) {
				parent.DelG("mine", u)
				child.AddG("mine", u)
				for _, k := range []string{"allowed", "fetched", "scraped"} {
					for _, t := range parent.G(k) {
						child.AddG(k, t)
					}
				}
			}
		}
	}
	h.ThreadEnd = func(x *Exec, st *State, c *Call, res *Term, p bool) {
		if !p && (len(st.G("fetched")) > 0 || st.isNil(res) || !isCallOf(res, evEgWait)) {
			judge(st, "goroutine of "+topFn(c.In), c.Pos(), res)
		}
	}
	e.run(h, nil)
	for i, p := range parts {
		f := all[i]
		e.configured("config", f, p.conf, false, func(x *Exec, st *State, conf, got *Term) string {
			switch {
			case strip(got) == strip(conf) && (p.exact || st.nonNil(conf)):
				return ""
			case !p.exact && st.isNil(conf) && (st.nonNil(strip(got)) || strip(got).K == KLoad && strip(got).Args[0].K == KGlobal):
				return ""
			}
			return "Engine." + f.Name() + " is " + got.String() + ", not the configured " + p.conf + " (or a default)"
		})
	}
	e.immutable("config", all...)
	r.Need("fetched", 1)
	r.Need("scraped", 1)
	r.Need("once", 2)
	r.Need("component", 6)
	r.Need("config", 4)
}
