#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The statements live here so that they can be
edited as prose; the jsonl is the committed artefact."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

p("E01", "Every URL taken from the queue is acknowledged exactly once",
  "For every URL the engine takes from its queue, it tells the queue exactly once that the URL is done, whatever happens to the URL: disallowed by robots.txt, limiter error, fetch failure, 404, scraper error, enqueue error, cancelled context, or no concurrency slot obtained. So a run never waits for a URL nobody is working on, and never acknowledges a URL twice.",
  ["schedules","inputs","fault_sequences"], "every URL, every error outcome of every stage, every cancellation point",
  "Tests run a handful of happy crawls and three error injections; the acknowledgement count is never observed and the cancelled-while-waiting-for-a-slot path is never taken.",
  ["engine.go","queue.go"], [("worker loop","engine.go run"),("per-URL processing","engine.go process"),("acknowledgement","queue.go Queue.Done")])
p("E02", "A page is acknowledged only after its links are queued",
  "The engine acknowledges a URL only when it is finished with it: the links its page yielded have already been handed to the queue, and nothing is fetched, scraped or queued on behalf of the URL afterwards. On a run that has not failed or been cancelled, the engine closes the queue only after the queue has reported that every URL is handled.",
  ["schedules","inputs"], "every page, every interleaving of workers",
  "Closing too early loses pages only under particular interleavings; the engine tests use a five-page site and one worker.",
  ["engine.go"], [("deferred acknowledgement","engine.go process"),("wait before close","engine.go Run")])
p("E03", "Only normalised, matched and de-duplicated URLs are queued",
  "Every URL that the engine puts on the queue - start URLs and links returned by scrapers alike - was first normalised, then accepted by the configured matcher (if any), and then returned as not-yet-visited by the de-duplicator, in that order. Start URLs whose scheme is not http or https are refused with an error before anything is queued.",
  ["inputs","histories"], "every start URL and every URL list a scraper may return",
  "The tests look at one small site; a URL list with an unusual order or position, or a path that skips a stage, is not sampled.",
  ["engine.go","internal/normalize/url.go","matchers.go","dedupe.go"], [("admission pipeline","engine.go enqueue, dedupe, matches"),("scheme filter","engine.go Enqueue")])
p("E04", "A polite engine never fetches a page robots.txt has not allowed",
  "Unless configured impolite, the engine requests a page only after the robots.txt check for that same URL, made with the default user agent, succeeded and allowed it; a disallowed URL is acknowledged without any request and without error, and a failed check is reported as an error rather than treated as permission. When configured impolite, no robots.txt check is made.",
  ["inputs","fault_sequences"], "every URL, every outcome of the robots.txt lookup, both configurations",
  "The fixture's robots.txt disallows nothing that is linked in a way that discriminates; lookup failures are not injected at engine level.",
  ["engine.go","internal/robots/cache.go"], [("robots gate","engine.go process")])
p("E05", "Every page request waits for the rate limits first",
  "Before the engine requests a page it consults the configured limiter (if any) for that URL and, unless impolite, waits out the crawl delay the site's robots.txt asks for; if either returns an error the page is not requested and the error is reported.",
  ["inputs","schedules","configurations"], "every URL and every limiter outcome",
  "One test has a limiter that always fails; no test shows that the fetch is ordered after the wait, nor that the crawl delay is applied.",
  ["engine.go","limiters.go","internal/robots/cache.go"], [("limit stage","engine.go limit"),("crawl delay","internal/robots/cache.go Wait")])
p("E06", "Concurrency bounds the number of URLs processed at once",
  "When Concurrency is N > 0, the engine starts processing a URL only while holding one of N slots, holds it until that URL's processing is completely finished, and gives it back exactly once on every path including errors; when Concurrency is not positive there is no limit.",
  ["schedules","configurations","fault_sequences"], "every interleaving, every error path, every value of Concurrency",
  "Tests always use Concurrency 1 and never measure the number of URLs in flight; a leaked or doubled slot shows only after many errors.",
  ["engine.go"], [("semaphore","engine.go NewEngine, run")])
p("E07", "A failing URL stops the crawl and Run reports the failure",
  "If checking, limiting, fetching, scraping or queueing for any URL fails, that worker reports it, Run returns a non-nil error that wraps the failure of some URL, and the failure closes the queue for every worker so that no worker carries on crawling; a failed start-up enqueue makes Run return that error. The ordinary end of a crawl (queue closed, no failure) is not reported as an error.",
  ["fault_sequences","schedules"], "every stage's failure at every URL, any number of workers",
  "Error tests use a single worker and a finite site, where draining the frontier hides that other workers carry on.",
  ["engine.go"], [("error propagation","engine.go process, run, Run")])
p("E08", "Run returns only after its workers have finished",
  "Whenever Run gets as far as starting workers, it starts exactly the configured number, and it and its workers return only after every goroutine they started has been waited for, and with the queue closed; no return path abandons a running goroutine.",
  ["schedules","fault_sequences","configurations"], "every exit path of Run and of each worker",
  "Leaks are invisible to the tests, which end before a leaked goroutine does anything.",
  ["engine.go"], [("worker groups","engine.go Run, run")])

p("E09", "Every URL taken is fetched once and every page obtained is scraped once",
  "For every URL the engine takes from its queue it makes exactly one fetch of that very URL with the configured fetcher, and gives the page obtained exactly once to the configured scraper - unless robots.txt disallowed the URL, an error is reported, the fetch found no page, or the crawl was cancelled. No URL and no page is silently skipped or handled twice, and the fetcher, scraper, de-duplicator and queue the engine works with are the configured ones (a default only where none is configured).",
  ["inputs","fault_sequences","configurations"], "every URL, every page, every configuration, every outcome of the stages before",
  "Tests crawl small sites in which every page is plain; a URL or page skipped for some property of it is simply missing from the result of a real crawl.",
  ["engine.go"], [("pipeline","engine.go process, scrape"),("configuration","engine.go NewEngine")])

p("F01", "A fetch makes at most MaxAttempts requests and retries only temporary errors",
  "One fetch makes at most MaxAttempts requests (5 when unset), makes another request only after the previous one failed temporarily, does retry temporary client (network) errors and temporary statuses until the attempts are used up, and then returns an error wrapping the last failure. A failure that is not temporary is returned at once.",
  ["inputs","fault_sequences","configurations"], "every sequence of client outcomes, every MaxAttempts",
  "One test sees the text of the max-attempts error, none counts requests, and network errors that are temporary are never produced.",
  ["fetcher.go"], [("retry loop","fetcher.go Fetch"),("classification","fetcher.go isTemporary")])
p("F02", "Response status decides: page, no page, retry or error",
  "A response with a status below 400 yields a page carrying that response's final URL, headers and body; 404 yields no page and no error; 429, 503 and 504 are temporary; every other status of 400 or above yields an error that carries the status and the URL.",
  ["inputs"], "every status code",
  "The tests sample 200, 400, 404 and 503.",
  ["fetcher.go"], [("status check","fetcher.go fetch, Fetch"),("temporary statuses","fetcher.go FetchError.Temporary")])
p("F03", "Every HTTP response obtained is released or handed over",
  "Every HTTP response the library receives (pages, failed pages, robots.txt, cache revalidation) is either handed to the caller - directly, or inside the returned page - or its body is closed before the operation ends, whatever the status and whatever fails later; the engine closes each fetched page after scraping it, also when the scraper fails. Bodies discarded by the fetcher, cache and page are drained before closing so the connection can be reused.",
  ["inputs","fault_sequences"], "every path on which a response is received",
  "A leaked body fails no assertion; it exhausts connections only in long crawls.",
  ["fetcher.go","engine.go","page.go","antcache/httpcache.go","internal/robots/cache.go"], [("discard","fetcher.go discard; antcache/httpcache.go discard"),("page close","page.go close, engine.go scrape")])
p("F04", "Retries back off, within bounds, and cancellation ends the wait",
  "Between two requests of one fetch there is a pause that starts at MinBackoff, grows with the attempt number and never exceeds MaxBackoff; the pause ends at once with the context's error when the context is cancelled, and an inconsistent configuration (MinBackoff not below MaxBackoff) is an error instead of a retry.",
  ["configurations","schedules"], "every attempt number, every backoff configuration, every cancellation point",
  "The tests set backoffs of a nanosecond and a millisecond and never cancel during a pause.",
  ["fetcher.go"], [("backoff","fetcher.go backoff")])
p("F05", "Every request identifies the crawler",
  "Page requests are GETs for exactly the URL given, sent through the configured client (the default one when none is configured), carrying the caller's context, the configured user agent (the default one when none is configured) and the HTML Accept header; robots.txt requests are GETs for /robots.txt of the URL's scheme and host, carrying the user agent they are evaluated for.",
  ["inputs","configurations"], "every request",
  "One test looks at the headers of one page request; the robots.txt request's headers are never looked at.",
  ["fetcher.go","internal/robots/cache.go"], [("request headers","fetcher.go headers; internal/robots/cache.go lookup")])

p("Q01", "Built-in de-duplicators return each URL at most once, atomically",
  "However many goroutines call a built-in de-duplicator, checking whether a URL was seen and recording it happen as one atomic step keyed by the full URL, and exactly the URLs not seen before are returned, so no URL is returned twice.",
  ["schedules","inputs","histories"], "every interleaving of concurrent calls",
  "The tests call the de-duplicators from one goroutine.",
  ["dedupe.go"], [("map","dedupe.go deduper.Dedupe"),("bloom filter","dedupe.go dedupebf.Dedupe")])
p("Q02", "The memory queue keeps its count equal to its outstanding URLs",
  "In the built-in queue every accepted URL is counted exactly once as outstanding, and is un-counted only by its acknowledgement or, if it is still pending, by closing; an enqueue that is refused (closed queue: io.EOF; cancelled context: the context's error) adds nothing and counts nothing. Waiting returns exactly when the count is zero.",
  ["schedules","histories"], "every interleaving of enqueue, dequeue, done and close",
  "The conformance tests never call Done, Wait or a second Close.",
  ["queue.go"], [("accounting","queue.go Enqueue, Done, Close, Wait")])
p("Q03", "The memory queue never loses a wake-up and hands each URL out once",
  "A dequeuer blocks only while nothing is pending and the queue is open, re-checks both after every wake-up, and every change that could unblock a dequeuer (enqueue, close) wakes all of them while holding the queue's lock; each pending URL is handed out once, in the order queued, and after closing dequeuers get io.EOF.",
  ["schedules"], "every interleaving of producers and consumers",
  "Lost wake-ups need a particular interleaving; the tests use three readers and one batch.",
  ["queue.go"], [("condition variable","queue.go Dequeue, Enqueue, Close")])

p("G01", "Shared state is accessed only under its lock",
  "Every field of the library's shared objects that can change after construction - queue, de-duplicators, JSON encoder, scanner type cache, disk index - is read and written only while its lock is held (exclusively for writes), or is itself safe for concurrent use; so using the documented goroutine-safe types concurrently is free of data races.",
  ["schedules"], "every pair of concurrent operations",
  "The suite is not run with the race detector by default and exercises few operations concurrently.",
  ["queue.go","dedupe.go","json.go","internal/scan/scanner.go","antcache/disk.go","antcache/memstore.go"], [("mutexes","queue.go cond.L; json.go lock; scanner.go mutex; disk.go readymu")])
p("G02", "Locks are always released and nothing waits while holding one",
  "Every lock the library takes is released on every path out of the function that took it, is never taken twice by the same goroutine, and is never held across an operation that waits for another party: a channel, wait group, timer, rate limiter, the network, the browser, or an implementation of one of the library's interfaces that the caller supplies. Locks that are held together are always taken in one order. (Waiting on a condition with only its own lock held, writing to the JSON scraper's writer and calling the debug logging function are the exceptions.)",
  ["schedules","fault_sequences"], "every path through every locked region",
  "A lock leaked on an error path, or held across a blocking call, hangs only under a schedule the tests do not produce.",
  ["queue.go","json.go","internal/scan/scanner.go","antcache/disk.go"], [("critical sections","all Lock/Unlock pairs")])
p("G03", "Cancelling the caller's context reaches every blocking operation",
  "Every request, limiter wait, queue operation, crawl delay and backoff that the library performs for a call runs under that call's context (or one derived from it) - never under a background context - and every timed wait also ends when that context is cancelled.",
  ["schedules","fault_sequences"], "every blocking operation and cancellation point",
  "Tests cancel before the call starts, on two of the operations.",
  ["engine.go","fetcher.go","internal/robots/cache.go","limiters.go","antcache/httpcache.go","antcdp/tx.go"], [("context threading","all calls taking a context")])
p("G04", "Failures are reported, and keep their cause",
  "No error returned by an operation the library performs is silently dropped where the caller could act on it: it is returned, and when it is wrapped the cause stays reachable with errors.Is and errors.As (an invalid selector or pattern is reported by its text, and methods without an error result have nothing to report it with). The only errors ignored are the documented best-effort ones (closing or draining bodies, queue acknowledgement, number parsing while scanning, skipping invalid links and selectors, and background sweeping and warm-up, which log).",
  ["fault_sequences"], "every failure of every operation",
  "Tests inject a few errors and mostly compare message text, which a wrapped-away cause still satisfies.",
  ["engine.go","fetcher.go","json.go","antcache/httpcache.go","antcache/cachereader.go","antcache/disk.go","antcdp/tx.go","internal/robots/cache.go"], [("error returns","all functions returning error")])

p("G05", "No input makes a library operation panic",
  "Whatever URLs, hostnames, paths, headers, Cache-Control directives, selectors, struct tags, robots.txt rules, pages, stored entries, responses and errors an operation meets, it does not panic: it indexes and slices within bounds, uses a result only after ruling out the error that came with it, copes with what may be absent (a fetch without a page, no robots.txt group, a missing map or cache entry, an error of another kind, a failed conversion), never writes to a nil map, and reports malformed selectors and URLs as errors. The exceptions are the matcher and limiter constructors that document a panic for a malformed regular expression. (The headless client is not covered here.)",
  ["inputs","fault_sequences"], "every path of every exported operation and of every method of the library's interfaces, outside antcdp",
  "A panic in a worker's goroutine ends the whole process; the input that triggers it - an empty path, a header without '=', a response that is missing - is precisely what a sampled test does not contain.",
  ["fetcher.go","engine.go","matchers.go","limiters.go","antcache","internal"], [("bounds","antcache/directives.go; internal/normalize/url.go; internal/robots/cache.go Allowed; matchers.go normalizePath"),("absent values","engine.go scrape; fetcher.go Fetch, isTemporary; antcache/memstore.go Load")])

p("R01", "robots.txt rules are evaluated for the right host, path and agent",
  "Whether a URL is allowed is decided by the robots.txt of that URL's own host, for the URL's rooted path including its query, and for the requesting user agent (* when empty); robots.txt answers of 400 and above mean everything is allowed.",
  ["inputs"], "every URL and robots.txt",
  "Tests use two rooted paths without a query and one host.",
  ["internal/robots/cache.go"], [("lookup and test","internal/robots/cache.go Allowed, lookup, Host.test")])
p("R02", "A failed robots.txt lookup is an error and is never cached",
  "If robots.txt cannot be requested or parsed, the check returns an error and not-allowed, and nothing is remembered; only answers actually received are cached, under the host they came from and for a bounded time.",
  ["fault_sequences","histories"], "every failure of the lookup, every later lookup",
  "One test cancels the lookup; caching after failure is not observed.",
  ["internal/robots/cache.go"], [("cache","internal/robots/cache.go lookup, NewCache")])
p("R03", "The crawl delay is waited out in full unless cancelled",
  "When the robots.txt group for the user agent sets a positive crawl delay, waiting returns success only after the whole delay has elapsed, and returns the context's error if cancelled first; with no delay it returns at once.",
  ["schedules","inputs"], "every delay and cancellation point",
  "The test only checks that no error is returned.",
  ["internal/robots/cache.go"], [("wait","internal/robots/cache.go Wait")])

p("C01", "The cache is bypassed for requests that must not be cached",
  "A request that is not GET or HEAD, that carries Range, Content-Range or Authorization, or whose Cache-Control (on any header line, in any case) contains no-store, is passed straight to the client: it is never answered from storage and its response is never stored, with any strategy.",
  ["inputs"], "every request",
  "Tests cover each condition once, with one header line.",
  ["antcache/httpcache.go","antcache/rfc7234.go","antcache/aggressive.go","antcache/utils.go","antcache/directives.go"], [("request gate","antcache/httpcache.go Do; rfc7234.cache; aggressive.cache")])
p("C02", "Only storable responses are stored",
  "A response is stored exactly when the request was a GET or HEAD and the status is one of 200, 203, 204, 206, 300, 301, 404, 405, 410, 414, 501; the default strategy further requires that neither request nor response says no-store (on any line), that there is a valid Date, and that the response gives an explicit positive lifetime (max-age, else Expires later than Date); the aggressive strategy further requires a valid Date. (A server error that answers the cache's own validation request is not stored.)",
  ["inputs"], "every request/response pair",
  "Tests sample nine combinations.",
  ["antcache/rfc7234.go","antcache/aggressive.go","antcache/httpcache.go"], [("store decision","rfc7234.store, aggressive.store")])
p("C03", "A stored response is reused only if fresh or validated",
  "A stored response is returned without contacting the origin exactly when the strategy judged it fresh; a stale one is returned only after the origin answered 304 to a conditional request for it, or answered 5xx while the request allows stale-if-error; in every other case the caller receives what the origin (re)sent, or an error.",
  ["inputs","histories","fault_sequences"], "every stored response, every origin answer",
  "Tests cover one case per branch and do not read the body that comes back.",
  ["antcache/httpcache.go"], [("lookup and validation","antcache/httpcache.go Do, load, verify")])
p("C04", "Freshness follows Cache-Control arithmetic",
  "With the default strategy a stored response whose headers match the request is fresh exactly when no no-cache is present on either side and: only-if-cached or an unlimited max-stale was requested, or its age (plus min-fresh, minus max-stale) is below its lifetime, which is the response's max-age, else Expires minus Date, limited by a request max-age. With the aggressive strategy it is fresh exactly while its age is below the configured age (24 hours when unset) and the request does not say no-cache. A directive's number of seconds never wraps around, however large.",
  ["inputs","configurations"], "every combination of directives and dates",
  "Tests combine at most two directives.",
  ["antcache/rfc7234.go","antcache/aggressive.go"], [("freshness","rfc7234.fresh, aggressive.fresh")])
p("C05", "A validated response keeps its stored body and gets the new headers",
  "Validation asks the origin with the stored ETag and Last-Modified as validators (unless the caller set its own). On 304 the caller receives the stored response with its complete stored body and with the 304's headers merged in, except hop-by-hop headers, and that is what is stored again; on a storable full answer the new response replaces the old one.",
  ["inputs","histories"], "every stored response and every 304",
  "The validation test looks at one header and never reads the body.",
  ["antcache/httpcache.go","antcache/utils.go"], [("validation","antcache/httpcache.go verify"),("merge","antcache/utils.go merge")])
p("C06", "Only complete responses enter the cache, once, when closed",
  "A response is written to storage only when its body is closed after having been read to the end, at most once however often it is closed, with the bytes the caller read, under the key its request is looked up by; a body abandoned half-way or cut by a read error is not stored. A failure to store is returned by Close.",
  ["fault_sequences","inputs","histories"], "every read/close pattern and every point at which the body fails",
  "Tests always read the whole body and close it once.",
  ["antcache/cachereader.go","antcache/httpcache.go"], [("caching reader","antcache/cachereader.go Read, Close"),("wrap","antcache/httpcache.go store")])
p("C07", "Cache entries are keyed by method and full URL",
  "A stored response can only be found by a request with the same method and the same complete URL (up to hash collisions): lookup and store use the same key, computed from both.",
  ["inputs"], "every pair of requests",
  "Tests use one URL and one method.",
  ["antcache/utils.go","antcache/httpcache.go"], [("key","antcache/utils.go keyof")])

p("D01", "The disk store publishes an entry only once it is durable",
  "Storing an entry writes it to a temporary file, syncs and closes that file, renames it to its final name, syncs the directory, and only then makes it visible to loads - with no failure in between; when any step fails an error is returned, the entry is not published and the temporary file is removed. The final file is never written in place.",
  ["crash_points","fault_sequences"], "every crash point and every failing system call",
  "Tests never make a system call fail and never crash.",
  ["antcache/disk.go"], [("store","antcache/disk.go Store, add")])
p("D02", "The disk index and directory change together",
  "An entry's file is put in place and indexed in one critical section of the index lock, and removed from directory and index in one critical section; the sweeper removes only the file it examined, never one stored since, and an entry whose file is already gone is dropped from the index. So a stored entry stays loadable until it expires, is evicted or is replaced.",
  ["schedules"], "every interleaving of store, load and sweep",
  "Needs a sweep between two steps of a concurrent store.",
  ["antcache/disk.go"], [("index lock","antcache/disk.go add, sweep, Load")])
p("D03", "The sweeper evicts expired entries and the oldest ones over the limit",
  "A sweep removes every entry older than the maximum age when one is set, and when a maximum size is set goes from the most recently stored entry to the oldest, keeps each that fits together with those kept before it and removes the others; entries within both limits are kept, and with neither limit set nothing is removed.",
  ["histories","configurations"], "every set of stored entries and every limit configuration",
  "The size test has two equal files and counts removals without looking at which file went.",
  ["antcache/disk.go"], [("sweep","antcache/disk.go sweep")])
p("D04", "Disk store background work ends, and Close waits for it",
  "Opening the store warms the index from every well-named file in the directory and ignores others; warm-up ends whatever the directory read returns, never replaces an entry stored meanwhile, and then lets Wait return. Sweeping does not begin before warm-up is done and stops when the store is closed; Close returns only after both have ended, then closes the directory.",
  ["schedules","fault_sequences"], "every directory content, every read error, every Close point",
  "Tests open empty or two-entry directories and never provoke a read error.",
  ["antcache/disk.go"], [("goroutines","antcache/disk.go Open, warmup, sweeper, Close")])
p("D05", "What is loaded is what was stored",
  "Compression is applied when storing exactly when decompression is applied when loading, the final file name is derived from the key alone in the form warm-up parses back, loads read the file indexed for exactly the requested key, and a failed read or decode is an error and never a value.",
  ["inputs","configurations"], "every key, value and configuration",
  "Tests store two-byte values under keys 0 and 1.",
  ["antcache/disk.go"], [("codec","antcache/disk.go Store, Load"),("names","antcache/disk.go add, warmup")])

p("S01", "A page is parsed once, then its body is closed, and the result sticks",
  "A page's body is parsed at most once no matter how many methods or goroutines use the page, is drained and closed right after parsing, and a parse error is reported by every later method that can report one, whose use then never touches a missing document.",
  ["schedules","inputs"], "every sequence and interleaving of page methods",
  "Tests call one or two methods per page from one goroutine.",
  ["page.go"], [("once","page.go parse")])
p("S02", "Links extracted from a page are absolute http(s) URLs",
  "Every URL a page yields was parsed from the href of a node matching the selector, in document order, is absolute - relative references are resolved against the page's own URL - and has scheme http or https; unparsable and other-scheme links are skipped without affecting the rest.",
  ["inputs"], "every document",
  "Tests look at two links.",
  ["page.go"], [("resolve","page.go resolve, URLs, Next")])
p("S03", "Scanning never panics on missing nodes or selectors",
  "Scanning a page into any destination the scanner accepts never panics for any document: a selector is used only when present, a selector that matches nothing yields the zero value, and destinations that cannot be scanned (nil, nil pointer, non-pointer, unsupported types, a slice without a selector) are reported as errors.",
  ["inputs","programs"], "every document and every destination type",
  "Tests scan small documents in which everything matches.",
  ["internal/scan/scan.go","internal/scan/slice.go","internal/scan/struct.go","internal/scan/nodes.go","internal/scan/scanner.go"], [("nil guards","internal/scan/*.go")])
p("S04", "Scanned values come from the selected node, into the matching field type",
  "Every scanner - scalar, bytes, struct and slice alike - narrows the search to its own selector's match before reading, takes the attribute when the tag names one and the text otherwise, and stores through the setter of the destination's own kind; a slice gets one element per match in document order, each scanned from its own node.",
  ["inputs","programs"], "every destination type and tag",
  "The nested-struct test has only one candidate for every nested field, so ignoring the struct's own selector passes.",
  ["internal/scan/scan.go","internal/scan/slice.go","internal/scan/struct.go"], [("scan funcs","internal/scan/*.go")])
p("S05", "List accessors are total",
  "Taking an element of a node list by any positive or negative index, and reading the text, attribute or data of any list including the empty one, never panics: an index outside the list gives an empty list, a non-negative index i gives element i, and a negative one counts from the end.",
  ["inputs"], "every list and every index",
  "Tests probe a three-element list.",
  ["list.go"], [("bounds","list.go At")])
p("S06", "The JSON scraper writes one whole record per page and follows the selectors",
  "Each page scraped writes exactly one record, built freshly from that page, through a single serialised encode, and only after the scan succeeded; scan and encode failures are returned and then no links are; links are those of all configured selectors in order, or of all anchors when none is configured.",
  ["schedules","inputs","fault_sequences"], "every page, any number of goroutines",
  "Tests scrape one page from one goroutine.",
  ["json.go"], [("encode","json.go Scrape, encode")])
p("S07", "Queries answer for every node asked, with exactly its matches",
  "Querying a page returns exactly the nodes of its parsed document that match the selector, and querying a list exactly the matches of each of its nodes, in order, none left out and none returned in place of another; the selector used is the one asked for, however often selectors are compiled and remembered. A list Is a selector exactly when one of its nodes matches it. An attribute read is the value stored under the key asked for, present even when empty and absent only when no key equals it. A list's attribute and data are those of its first node, a page's data those of its document, and only an empty list, an invalid selector or a page that does not parse ends early.",
  ["inputs","histories"], "every document, list, selector and key",
  "Tests query small documents with a handful of selectors, mostly with one match.",
  ["page.go","list.go","internal/scan/nodes.go","internal/selectors/selectors.go"], [("queries","page.go Query, Scan; list.go Query, Is, Attr, Scan"),("attributes","internal/scan/nodes.go Attr"),("cache","internal/selectors/selectors.go Compile")])

p("L01", "Limiters and matchers judge the same text of a URL",
  "The pattern and regexp limiters and matchers all test their expression against the host followed by the rooted path of the URL, so a pattern that matches a URL for crawling also rate-limits it; the hostname ones compare the whole host.",
  ["inputs"], "every URL, normalised or not",
  "There are no limiter tests.",
  ["limiters.go","matchers.go"], [("match text","limiters.go; matchers.go normalizePath")])
p("L02", "A limiter lets a matching URL pass only after waiting for a token",
  "A built-in limiter returns success for a URL it applies to only after one token of that limiter's own shared bucket - created once, with the configured rate - has been waited for under the caller's context, and returns the wait's error otherwise; URLs it does not apply to pass at once.",
  ["schedules","inputs"], "every URL and every interleaving",
  "There are no limiter tests.",
  ["limiters.go"], [("token bucket","limiters.go")])
p("N01", "Normalisation applies every documented rewrite on every URL",
  "Whatever the URL, its normal form has a lower-case scheme and host, no fragment, no forced empty query, its query parameters sorted, no default port for its scheme, and a path without dot segments that is / when empty - no rewrite is skipped for any shape of the other components.",
  ["inputs"], "every URL",
  "Each rewrite is tested on one URL that needs no other.",
  ["internal/normalize/url.go"], [("rewrites","internal/normalize/url.go URL")])

p("X01", "A browser target taken from the pool is always given back",
  "In the headless client, a target acquired for a request is given back exactly once on every path, to the pool or - when the pool is full - by closing it in the browser; it is never used after being given back, and acquiring never blocks past the context.",
  ["fault_sequences","schedules"], "every failure point of a request",
  "The client's tests need a Chrome binary and are always skipped.",
  ["antcdp/transport.go","antcdp/targets.go"], [("pool","antcdp/targets.go acquire, release; transport.go roundtrip")])
p("X02", "Every debugger connection and event stream is closed",
  "In the headless client, the connection dialled for a request and every event stream opened on it is closed on every path, including when setting the transaction up fails half-way.",
  ["fault_sequences"], "every failure point of a request",
  "The client's tests are always skipped.",
  ["antcdp/tx.go","antcdp/transport.go"], [("close","antcdp/tx.go init, close; transport.go roundtrip")])
p("X03", "A headless response is returned only when complete",
  "The headless client returns a response only after navigation succeeded, the document's response for the navigated frame arrived and the DOM was ready; it carries that response's status and headers, the rendered document as body with a matching length, the browser's cookies and the originating request. Responses of other resources or frames are neither taken for it nor keep it from being returned. Any failing step is an error and no response; headers and cookies are sent before navigating.",
  ["fault_sequences","inputs"], "every failure point of a request",
  "The client's tests are always skipped.",
  ["antcdp/tx.go"], [("transaction","antcdp/tx.go init, do, wait, merge, readbody, readcookies")])

# Properties this family does not decide (see DESIGN.md / MANIFEST not_applicable).
p("Z01", "Normalisation is canonical: equivalent URLs meet, different ones do not",
  "Two URLs are normalised to the same text exactly when they name the same resource under the documented rewrites, and normalising twice changes nothing.",
  ["inputs"], "every pair of URLs", "Tests have eleven examples.",
  ["internal/normalize/url.go"], [("rewrites","internal/normalize/url.go")])
p("Z02", "Limiters admit at most n requests per second",
  "Over any window, the number of requests let through by a limiter of n per second is at most its burst plus n times the window.",
  ["schedules"], "every arrival history", "There are no limiter tests.",
  ["limiters.go"], [("token bucket","golang.org/x/time/rate")])
p("Z03", "The bloom-filter de-duplicator has the configured false-positive rate",
  "The share of never-seen URLs wrongly dropped stays at the rate implied by the filter's parameters.",
  ["inputs"], "every URL set", "Two URLs are tested.",
  ["dedupe.go"], [("filter","github.com/willf/bloom")])
p("Z04", "Requests to one host are spaced by its crawl delay",
  "Two page requests to the same host are never closer together in time than the crawl delay its robots.txt sets, whatever the number of workers.",
  ["schedules"], "every interleaving", "No test measures time between requests.",
  ["internal/robots/cache.go"], [("wait","internal/robots/cache.go Wait")])
p("Z05", "A stored and reloaded response equals the original",
  "For every response, dumping it on store and parsing it on load gives back the same status, headers and body bytes.",
  ["inputs"], "every response", "Tests compare a status and one header.",
  ["antcache/cachereader.go","antcache/httpcache.go"], [("dump and parse","net/http/httputil DumpResponse; net/http ReadResponse")])
p("Z06", "Distinct requests never share a cache key",
  "No two different method/URL pairs are given the same storage key.",
  ["inputs"], "every pair of requests", "Tests use one URL.",
  ["antcache/utils.go"], [("hash","murmur3")])
p("Z07", "A crawl of a finite site terminates having visited every reachable page",
  "On a site whose pages stay the same, a run without failures visits each reachable, allowed, matching page exactly once and then returns.",
  ["schedules","inputs"], "every finite site and schedule", "One five-page site is crawled.",
  ["engine.go"], [("worker loop","engine.go")])
p("Z08", "Text and attribute extraction equals the DOM's",
  "For every document and selector, the text and attributes extracted are those the HTML standard's DOM would give.",
  ["inputs"], "every document", "Small documents only.",
  ["internal/scan/nodes.go","list.go"], [("parser and selectors","golang.org/x/net/html; cascadia")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
