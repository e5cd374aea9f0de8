#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None,
         level="exploration", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], technique=technique, note=note, level=level, hook=hook))

SCHED = ("schedules are explored by seeded random yield points inserted into a scratch copy of the code and run on a "
         "virtual clock; random sampling, not exhaustive")

prop("C01", "A crawl visits every reachable page exactly once",
 "A crawl that ends without an error has requested every distinct URL reachable from its start URLs through the links its scraper returned (restricted to those the matcher accepts and robots rules permit) exactly once, whatever the number of workers, the concurrency limit, the latencies and the order in which pages complete. Every page that was fetched successfully was given to the scraper exactly once, pages answering 404 are requested but never scraped and do not stop the crawl, and no URL outside the reachable set is requested. The same holds for start URLs repeated, spelled differently, or added while the crawl runs.",
 ["inputs", "schedules", "configurations"],
 "every finite link graph, start set, matcher, robots file, worker count, concurrency limit, deduper, latency assignment and interleaving of the workers",
 "the engine tests crawl two small fixed sites with one schedule each; they count pages but never vary graph shape, worker count, concurrency, latency or interleaving",
 ["engine.go", "queue.go", "dedupe.go", "internal/normalize/url.go"],
 [("the queue's outstanding-URL count decides when the crawl is over", "queue.go Enqueue/Done/Wait"),
  ("children are enqueued before their parent is acknowledged", "engine.go process"),
  ("de-duplication after normalisation and matching", "engine.go enqueue")],
 ["requests seen by the HTTP client", "pages seen by the scraper", "return value of Run"],
 "property-based testing: random site graphs against a reference crawl, on seeded random schedules under a virtual clock",
 "random search; " + SCHED)

prop("C02", "A run always ends, and reports why it ended",
 "Whatever fails and whenever it fails (a request, robots.txt, a limiter, the de-duplicator, the scraper, the queue, or cancellation or expiry of the context), a crawl returns within bounded time even when the site is unbounded and even when a concurrency limit is set, and it returns an error from which the first failure can be recovered. It returns no error only if every reachable page was processed. When it returns, none of its work is still running and nothing more is requested.",
 ["fault_sequences", "schedules", "configurations"],
 "every fault kind and position in a crawl, every time of cancellation, every worker count and concurrency limit, every interleaving",
 "the tests cancel only before the run starts and inject one error into a one-worker crawl; errors with other work in flight, cancellation in the middle, and a saturated concurrency limit are never exercised",
 ["engine.go", "queue.go"],
 [("errgroup cancels the shared context on the first error", "engine.go Run/run"),
  ("every dequeued URL is acknowledged", "engine.go process"),
  ("the queue is closed when a worker stops", "engine.go Run")],
 ["return of Run and its error", "requests after the return"],
 "property-based fault injection: one generated fault or cancellation per crawl of a finite or endless site; termination judged by deadlock detection and a step budget on a virtual clock",
 "random search over fault kind, position and schedule; the endless site is judged by a generous bound on requests started after the failure")

prop("C03", "The concurrency limit is respected and never starves the crawl",
 "With a concurrency limit of N, at no moment are more than N pages being processed (checked against robots, rate limited, requested or scraped), summed over all workers and also while errors or 404s occur. N pages are processed simultaneously whenever at least N URLs are waiting, so the limit is never silently lower, and a crawl with any positive limit completes.",
 ["schedules", "configurations", "inputs"],
 "every limit, worker count, site shape, outcome of each page and interleaving",
 "no existing test observes how many pages are in flight; a permit leaked or released early on one path is invisible to them",
 ["engine.go"],
 [("global weighted semaphore acquired before a page's goroutine starts and released when it ends", "engine.go run")],
 ["number of requests and scrapes in flight over time"],
 "property-based testing with an in-flight monitor over random sites and schedules on a virtual clock",
 "random search; " + SCHED)

prop("C04", "robots.txt is fetched first, obeyed per host, and cached",
 "Unless impolite, the crawler requests a host's robots.txt before any page of that host, never requests a page that the file disallows for its user agent (longest matching rule, the group for its own name before the general one, rules applying to path and query), and does not drop a page that the file allows; a missing or failing robots.txt (status 4xx or 5xx) allows everything. The rules of one host never affect another, an obtained robots.txt is reused for an hour and asked for again once it is older, and with a crawl delay of D every page request of that host waits at least D and any two of them (repeated attempts at one page aside) are at least D apart. An impolite crawl never requests robots.txt.",
 ["inputs", "schedules", "configurations"],
 "every robots file in the generated grammar, every set of hosts and paths, every worker count and interleaving",
 "robots tests use one file and a handful of sequential calls to the cache; the engine's use of it (ordering, isolation, spacing between concurrent requests) is untested",
 ["internal/robots/cache.go", "engine.go"],
 [("per-host cache of parsed rules", "internal/robots/cache.go lookup"),
  ("permission check before the limiter and the fetch", "engine.go process"),
  ("crawl delay wait", "internal/robots/cache.go Wait")],
 ["requests seen by the HTTP transports, with their virtual times"],
 "property-based testing: generated robots files and sites judged by an independent robots reference and a timing invariant on a virtual clock",
 "random search; the reference implements the documented matching rules independently of the parser library")

prop("C05", "Rate limits are never exceeded and only slow what they match",
 "A limiter of n per second lets at most n + n*T matching requests through in any window of T seconds, whatever the number of goroutines calling it, and lets waiting requests through at that rate rather than slower. Requests whose host (for the host limiter) or host and path (for the pattern and regexp limiters, never scheme or query) do not match are not delayed, a cancelled context ends the wait with an error at once, and the host-and-path matching agrees with the URL matchers. The engine passes every page through its limiter before requesting it, requests nothing the limiter refused, and reports the refusal.",
 ["schedules", "inputs", "histories"],
 "every rate, arrival pattern, number of concurrent callers, URL and pattern, cancellation time",
 "the limiter tests check a single call and a cancelled context; rates over time, concurrent callers and the engine's use of limiters are untested",
 ["limiters.go", "engine.go"],
 [("token bucket shared by all calls of one limiter", "limiters.go"),
  ("limiter consulted between the robots check and the fetch", "engine.go limit")],
 ["virtual times at which Limit returns", "virtual times of requests"],
 "property-based testing: random arrival schedules on a virtual clock against a token-bucket bound, and random URLs against an independent matcher",
 "random search; time is virtual, so bounds are exact up to a stated slack")

prop("C06", "URL normalisation is sound, complete for the documented rules and idempotent",
 "Two spellings of a URL that differ only by the documented equivalences (case of scheme, host and percent escapes, escaped unreserved characters, dot segments, an empty path, the default port, an empty query, the order of query parameters, the fragment) are treated as one page. URLs that differ in any other way (path, trailing or doubled slash, escaped reserved characters, query values or their multiplicity, user, port, host) are different pages. What is requested is always an equivalent spelling of what was linked, and normalising twice changes nothing.",
 ["inputs"],
 "every absolute http(s) URL in a grammar covering userinfo, names, IPv4 and IPv6 hosts, ports, dot segments, escapes, duplicate slashes, repeated query parameters and fragments",
 "the tests check eleven fixed pairs, mostly one rule at a time; interactions of rules, idempotence and the absence of false merges are not checked",
 ["internal/normalize/url.go", "engine.go"],
 [("normalisation before matching and de-duplication", "engine.go enqueue"),
  ("component-wise normal form", "internal/normalize/url.go")],
 ["URLs requested for given start URLs"],
 "property-based testing: differential against an independent RFC 3986 normaliser plus metamorphic equivalences (respelling a URL must not change its identity)",
 "random search over a URL grammar plus byte-level mutation")

prop("C07", "De-duplication lets every URL through exactly once",
 "Over any history of calls from any number of goroutines, with overlapping batches and repeats within a batch, the map de-duplicator returns each distinct URL exactly once in total and never invents one; within a batch the order of the URLs is kept. The bloom-filter de-duplicator never returns a URL twice, and loses new URLs only at the false-positive rate its two parameters (bits, hash functions) allow.",
 ["histories", "schedules", "inputs"],
 "every sequence and interleaving of batches",
 "the tests make two sequential calls; concurrent callers with overlapping batches are never tried",
 ["dedupe.go"],
 [("atomic test-and-insert", "dedupe.go")],
 ["URLs returned by Dedupe"],
 "property-based testing: concurrent overlapping batches on seeded schedules against a set model; observed false-positive rate against the analytic bound",
 "random search; " + SCHED)

prop("C08", "The queue delivers every URL once, in order, and never strands anyone",
 "Whatever the interleaving of producers and consumers, every enqueued URL is delivered to exactly one dequeuer, in first-in first-out order, and no dequeuer stays blocked while a URL is available or after the queue was closed. After closing, enqueue and dequeue report end-of-file and undelivered URLs are discarded; waiting returns exactly when every enqueued URL was acknowledged or discarded and not before. A cancelled context makes enqueue fail without queueing anything.",
 ["histories", "schedules"],
 "every history of enqueue, dequeue, acknowledge, close and wait over any number of goroutines",
 "the queue conformance tests run one fixed sequence per method and one race of three readers; lost wakeups, close racing with the rest and the wait condition are not covered",
 ["queue.go"],
 [("condition variable over a slice of pending URLs", "queue.go Enqueue/Dequeue"),
  ("wait group counts undelivered and unacknowledged URLs", "queue.go Enqueue/Done/Close")],
 ["results of the queue's methods"],
 "stateful property-based testing of concurrent histories on seeded schedules against a FIFO model, with deadlock detection",
 "random search; " + SCHED)

prop("C09", "Fetching retries exactly what is temporary, a bounded number of times",
 "A fetch repeats a request if and only if the response status is 429, 503 or 504 or the client's error reports itself (or an error it wraps reports itself) as temporary; it makes at most the configured number of attempts (5 by default), waits attempt² times the minimum backoff capped at the maximum between them, and stops waiting as soon as its context is cancelled. It returns the page of the first response below 400 (with that response's final URL, header and body), nothing and no error for a 404, and otherwise an error carrying the last status or wrapping the client's error. Every request is a GET of the given URL carrying the configured user agent and accepting HTML.",
 ["fault_sequences", "inputs", "configurations"],
 "every sequence of statuses and errors, every attempts/backoff configuration, every cancellation time",
 "the tests try one status at a time with one configuration; sequences, backoff timing and wrapped network errors are not covered",
 ["fetcher.go"],
 [("attempt loop", "fetcher.go Fetch"), ("temporary classification", "fetcher.go isTemporary"), ("backoff timer", "fetcher.go backoff")],
 ["requests with virtual times", "returned page and error"],
 "property-based testing: random outcome sequences against a reference retry model, timing exact on a virtual clock",
 "random search")

prop("C10", "Every response body is read to the end and closed exactly by the end",
 "For every response the crawler, fetcher, page and cache receive (successful, redirected, error status, retried, 404, rejected by validation, robots.txt, or followed by a scraper error or cancellation), the body is closed by the time the operation that owns it is over, so that no connection is leaked however the crawl goes. Bodies of responses that the fetcher and the cache discard and of pages the engine has scraped are read to their end first so that connections can be reused.",
 ["fault_sequences", "inputs", "histories"],
 "every mix of response kinds and faults in a crawl, a fetch or a sequence of cached requests",
 "no test tracks the bodies; a leak on one error path is invisible to them",
 ["fetcher.go", "page.go", "engine.go", "antcache/httpcache.go", "internal/robots/cache.go"],
 [("discard drains and closes", "fetcher.go discard"), ("page closed after scraping", "engine.go scrape"),
  ("stale response bodies discarded on revalidation", "antcache/httpcache.go verify")],
 ["reads and closes of every body handed out by the fake server"],
 "property-based fault injection with a body-accounting monitor",
 "random search; bodies are in-memory monitors, checked when the owning call has returned")

prop("C11", "Page links are exactly the valid http(s) targets, resolved like a browser",
 "The links of a page are, in document order, exactly the href values of the anchors (or of the elements a selector matches) that resolve against the page's final URL to an absolute http or https URL with a host; relative, scheme-relative, query-only, fragment-only and dot-segment references resolve as RFC 3986 says. Anything else (other schemes, unparsable or host-less references, elements without href, an invalid selector) is skipped without an error or a panic, and every link returned can be enqueued.",
 ["inputs"],
 "every HTML document and href string in a grammar and under byte mutation",
 "the tests resolve a few absolute and relative links; odd references, other schemes and host-less URLs are not covered",
 ["page.go"],
 [("selector query, then parse, resolve and scheme filter", "page.go resolve")],
 ["URLs and Next of a fetched page"],
 "property-based testing against an independent RFC 3986 reference resolver over generated documents",
 "random search")

prop("C12", "Scanning fills exactly the tagged fields with what their selectors match",
 "For every supported destination type (strings, byte slices, int, uint and float kinds, structs with selector tags, slices and nestings of these) scanning sets each tagged field to the text, or the attribute named after @, of the first element its selector matches inside the enclosing element, slices to one item per match in document order, numbers to the parsed value or zero, and leaves untagged fields alone. A nested struct is filled from the first element its own selector matches and stays zero when there is none. Unsupported types, bad selectors and non-pointer destinations give an error, never a panic, and the outcome does not depend on what was scanned before or concurrently.",
 ["inputs", "programs", "schedules"],
 "every generated struct type, HTML tree and order of scans",
 "the tests scan a dozen fixed types over fixed documents; combinations of nesting, attributes, missing matches and type errors are not covered",
 ["internal/scan/scan.go", "internal/scan/struct.go", "internal/scan/slice.go", "internal/scan/scanner.go", "internal/scan/nodes.go", "page.go", "list.go"],
 [("scan functions composed per type and cached", "internal/scan/scanner.go"), ("tag parsing", "internal/scan/struct.go")],
 ["destination values after Page.Scan and List.Scan"],
 "property-based testing: reflect-generated types and random HTML trees against a naive reference scanner",
 "random search; element selection in the reference uses an independent matcher for the generated selector grammar")

prop("C13", "Page and list queries agree with a naive selector evaluation",
 "Querying a page or list returns exactly the elements at or below its nodes that match the selector, in document order per node; membership, indexing (negative from the end, out of range gives an empty list), text and attribute lookup agree with walking the tree directly. Invalid selectors and empty lists give empty results, never a panic, results do not depend on earlier queries, and a page's document can be parsed, queried, rendered and scanned any number of times and in any order with the same results.",
 ["inputs", "histories"],
 "every HTML tree, selector and order of calls in the generated grammar",
 "the tests run fixed selectors on fixed files",
 ["list.go", "page.go", "internal/selectors/selectors.go", "internal/scan/nodes.go"],
 [("memoised parsing", "page.go parse"), ("selector cache", "internal/selectors/selectors.go")],
 ["results of the query methods"],
 "property-based testing against a naive tree-walking evaluator, with random call sequences (stateful)",
 "random search")

prop("C14", "The JSON scraper writes one faithful line per page and returns its links",
 "For any number of pages scraped concurrently, the writer receives for each page exactly one complete line that decodes to the value scanning that page gives, never interleaved with another and never written twice. The links returned are those of the given selectors in order, or all links of the page when no selector is given. A type that is not a struct gives an error on the first scrape and writes nothing, and an error of the writer or of scanning is returned.",
 ["inputs", "schedules", "fault_sequences"],
 "every record type, set of pages, selector list, writer fault and interleaving",
 "the tests scrape one page sequentially",
 ["json.go"],
 [("encoder guarded by a lock", "json.go encode")],
 ["bytes received by the writer", "returned URLs and error"],
 "property-based testing: round-trip of the written lines against independent scans, on seeded schedules with a fragmenting and failing writer",
 "random search; " + SCHED)

prop("C15", "URL matchers and patterns judge host and path only, as documented",
 "The host matcher accepts exactly the URLs of that host; the pattern matcher accepts exactly the URLs whose host followed by the path matches the glob ('*' any run of characters, '?' one character, backslash escapes); the regexp matcher accepts exactly those whose host and path contain a match. Scheme, user, query and fragment never change the verdict. The engine requests only URLs its matcher accepted, start URLs included, and consults it with normalised URLs.",
 ["inputs"],
 "every URL and every pattern in the generated grammars",
 "the tests check three or four fixed pairs per matcher",
 ["matchers.go", "engine.go"],
 [("host plus path string", "matchers.go"), ("filter before de-duplication and queueing", "engine.go matches")],
 ["Match results", "requests made by a crawl"],
 "property-based testing: differential against an independent glob and regexp evaluation, metamorphic invariance under scheme/query/fragment changes",
 "random search")

prop("C16", "The cache never stores or reuses what must not be cached",
 "A request whose method is not GET or HEAD, or that carries no-store, a range or credentials (an Authorization header), is always passed to the origin unchanged and its response is never reused for another request. A response is reused only if its status is cacheable, neither it nor its request said no-store (the standard strategy), and it has a date and a positive explicit lifetime (standard) or a date (aggressive). Directives count however they are written: any case, spacing, order, quoting-free arguments, and spread over several header lines.",
 ["histories", "inputs", "configurations"],
 "every history of requests and origin responses over methods, statuses, directives and headers, for both strategies and every storage",
 "unit tests enumerate single predicate calls; the end-to-end effect over histories of requests is tested for a few fixed pairs",
 ["antcache/httpcache.go", "antcache/rfc7234.go", "antcache/aggressive.go", "antcache/directives.go", "antcache/utils.go"],
 [("request gate", "antcache/rfc7234.go cache"), ("response gate", "antcache/rfc7234.go store, antcache/aggressive.go store")],
 ["requests reaching the origin", "responses returned"],
 "stateful property-based testing: random request/response histories on a virtual clock against a reference cache policy (three-valued)",
 "random search; the reference is three-valued and asserts only where the specification decides")

prop("C17", "The cache serves a response without asking the origin only while it is fresh",
 "With the standard strategy a stored response is served without contacting the origin exactly while its age (plus the request's min-fresh, minus the request's max-stale) is below its lifetime (max-age before Expires minus Date, lowered but never raised by the request's max-age), and never when the request or the response says no-cache, nor past its lifetime when the response says must-revalidate. With the aggressive strategy it is served exactly while its age is below the configured age (24 hours by default) unless the request says no-cache.",
 ["histories", "inputs", "configurations"],
 "every lifetime, age, combination of request and response directives and sequence of requests",
 "unit tests cover single combinations at one age; boundaries and combinations are not covered",
 ["antcache/rfc7234.go", "antcache/aggressive.go", "antcache/directives.go", "antcache/utils.go"],
 [("freshness decision", "antcache/rfc7234.go fresh, antcache/aggressive.go fresh")],
 ["requests reaching the origin at virtual times"],
 "property-based testing on a virtual clock: ages generated around the lifetime boundary, reference freshness formula",
 "random search; ages are whole virtual seconds, boundaries included")

prop("C18", "A stale response is revalidated, and validation updates or replaces it",
 "A stale stored response causes a conditional request carrying its validators (unless the caller supplied its own) and otherwise the caller's headers. On 304 the caller gets the stored status and body with the headers updated from the 304 (hop-by-hop headers excepted) and later requests are served the updated response; on a full response the caller gets that response and it replaces the stored one if it may be stored; on a 5xx the caller gets the stale response if it allowed stale-if-error and the 5xx otherwise. A failed validation is reported as an error and the caller never receives an empty or mixed response.",
 ["histories", "fault_sequences", "inputs"],
 "every history of stores, expirations, validations, validation outcomes and body sizes",
 "the tests run each validation outcome once and do not look at bodies and later requests",
 ["antcache/httpcache.go", "antcache/utils.go"],
 [("conditional request and outcome handling", "antcache/httpcache.go verify"), ("header merge", "antcache/utils.go merge")],
 ["conditional requests at the origin", "responses returned now and later"],
 "stateful property-based testing: versioned resources on a virtual clock against a reference cache; every returned body and header compared with the version it must come from",
 "random search")

prop("C19", "A cached response is the response the origin sent, never a truncated one",
 "A response served from the cache has the status, headers (apart from the cache's own mark and transfer framing), body and URL (the one the client was redirected to, if it was) of the response that was stored, for any body bytes, framing (length, chunked, connection close, none), protocol version and decompression by the client, for any storage. A response whose body was not read to its end without error, or not closed, is never served to a later request, whatever the order of reads and closes and however often it is closed. What the caller receives while the response is being stored is also exactly what the origin sent.",
 ["inputs", "histories", "fault_sequences"],
 "every body, header set, framing, read pattern, abort point and read fault",
 "the tests read small fixed bodies completely; aborted or failing bodies, chunked and binary bodies are not covered",
 ["antcache/cachereader.go", "antcache/httpcache.go", "antcache/memstore.go"],
 [("body recorded while read, dumped and stored at close", "antcache/cachereader.go")],
 ["responses returned by the cache compared with the origin's"],
 "property-based testing: round-trip of generated wire responses with random read/abort patterns and injected read faults",
 "random search")

prop("C20", "A cached response is only used for a request it matches",
 "A stored response is used only for a request with the same method and the same URL (scheme, host, path and query included), and, with the standard strategy, when the stored response names request headers in Vary, only if those headers of the new request equal those of the request that produced it; Vary: * never matches. A response to HEAD never answers GET nor the other way round.",
 ["histories", "inputs"],
 "every pair and history of requests over methods, URLs and headers",
 "the tests check a single pair for the Vary comparison and none for key separation",
 ["antcache/httpcache.go", "antcache/utils.go"],
 [("storage key from method and URL", "antcache/utils.go keyof"), ("vary comparison", "antcache/utils.go matches")],
 ["which origin response answers each request"],
 "stateful property-based testing: an origin that tags each response with the request that caused it; every reuse compared with the request at hand",
 "random search")

prop("C21", "The disk store is a persistent map, concurrently and across reopening",
 "Without expiry or size pressure, a load returns the bytes of the latest completed store of that key (nothing if there is none), or of a store running concurrently with it, for any bytes, empty ones included, with and without compression, from any number of goroutines. Closing and reopening the directory, also while a previous store's temporary files or foreign files lie in it, preserves every completed store, and loads never see another key's or a partial value. Stores and sweeps running while the directory is being read at startup never lose or resurrect a value.",
 ["histories", "schedules", "inputs"],
 "every history of store, load, sweep, close and reopen over any number of goroutines",
 "the tests store and load one key sequentially; concurrency, reopening under load and startup races are not covered",
 ["antcache/disk.go"],
 [("temporary file, fsync, rename, directory fsync, then index update", "antcache/disk.go Store/add"),
  ("index rebuilt at startup without overwriting newer entries", "antcache/disk.go warmup")],
 ["results of Load"],
 "stateful property-based testing: random concurrent histories on seeded schedules against a per-key linearisability model (versions), with reopen",
 "random search; " + SCHED)

prop("C22", "The disk store survives a crash at any point",
 "If the process or the machine stops at any moment, reopening the directory gives for every key either a value whose store had completed and was not superseded by a completed later store, or the value of a store that was in progress; a store that had returned success is never lost and no load ever returns partial, mixed or corrupt bytes or fails because of leftovers. Keys not being stored are unaffected.",
 ["crash_points", "histories", "fault_sequences"],
 "every prefix of the file-system operations of every history, with every subset of unsynced data and directory entries lost",
 "no existing test stops the store in the middle of an operation",
 ["antcache/disk.go"],
 [("write temporary, fsync file, rename, fsync directory", "antcache/disk.go Store/add"), ("temporary names are not cache entries", "antcache/disk.go warmup")],
 ["loads after reopening the reconstructed directory"],
 "property-based crash-point enumeration: the file-system operations of a generated history are recorded through a shim and every crash point is replayed with several loss patterns into a fresh directory which is then reopened",
 "every operation boundary (and torn writes) of each generated history is tried; the model of what an unsynced file or directory entry may lose is stated in DESIGN.md",
 level="fault_enumeration")

prop("C23", "An I/O error in the disk store is reported and leaves the store intact",
 "When any file-system operation of a store fails (create, write including short writes, fsync, stat, close, rename, directory fsync), the store reports an error, leaves no open file and, if removing works, no temporary file behind, and afterwards a load returns either the previous value of that key or the complete new one; other keys are untouched and later stores work. A failing read is reported by the load and never answered with wrong or partial data; failures while reading the directory at startup, or removing files in a sweep, neither hang the store nor lose other entries.",
 ["fault_sequences", "histories"],
 "every operation index of every history failing with every error kind, singly and repeatedly",
 "no existing test injects a file-system error",
 ["antcache/disk.go"],
 [("cleanup on each failing step", "antcache/disk.go Store"), ("errors wrapped and returned", "antcache/disk.go Load/add")],
 ["errors and values returned", "files left in the directory"],
 "property-based fault enumeration: every operation index of a generated history fails in turn through a file-system shim, judged against a reference map",
 "all operation indices of each generated history are enumerated with several error kinds",
 level="fault_enumeration")

prop("C24", "Sweeping removes exactly what is expired or over the size limit, oldest first",
 "After a sweep no entry older than the maximum age remains, the total size of the remaining entries does not exceed the maximum size, and nothing else was removed: an entry goes only if it is expired, or if it is among the oldest whose removal is needed to get the unexpired rest under the limit. Removed entries load as absent without an error and disappear from the directory, also when stores run concurrently; age and size limits of zero or less are unlimited, and sweeping happens at the configured interval or not at all.",
 ["histories", "schedules", "configurations"],
 "every set of entry sizes and ages, limits, intervals, and interleaving of stores with the sweeper",
 "the tests sweep a few equal-sized files once; which files go under mixed ages and sizes, and stores racing with a sweep, are not covered",
 ["antcache/disk.go"],
 [("sweep over a snapshot sorted by modification time", "antcache/disk.go sweep")],
 ["loads and directory contents after the sweeper ran"],
 "property-based testing on a virtual clock with file times under control, against a reference eviction policy; concurrent stores on seeded schedules",
 "random search; " + SCHED)

prop("C25", "A browser-rendered response is the document's own response",
 "Whatever the order and number of network events (sub-resources, other frames, redirects, responses before or after the page becomes ready), a request through the browser client ends, and returns the status, protocol, headers and URL of the navigated document's final response, the rendered document as the body with a matching length, and the browser's cookies. The request's headers and cookies are set before navigation and the requested URL is the one navigated to. Errors of any step, navigation error texts and cancellation are returned as errors, promptly.",
 ["schedules", "inputs", "fault_sequences"],
 "every order and subset of protocol events and every failing step",
 "the existing tests need a real browser and are skipped without one",
 ["antcdp/tx.go", "antcdp/client.go"],
 [("wait loop over request and response events", "antcdp/tx.go wait"), ("response assembly", "antcdp/tx.go merge/readbody/readcookies")],
 ["HTTP response returned", "commands received by the fake browser"],
 "property-based protocol fuzzing: a fake browser on loopback plays generated event orders and failures, judged against the generated document",
 "random search; a hang is judged when the fake browser has had nothing left to do or to receive for 5 s of real time")

prop("C26", "A browser tab serves one request at a time and connections are not leaked",
 "However many goroutines use the browser client, no tab is used by two requests at once, every request talks only to its own tab, and a tab that a request has released may be reused by a later one. When a request is over, successfully or not, its debugger connection is closed. A cancelled request returns the context's error.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of concurrent requests and every failing step",
 "the existing tests need a real browser and are skipped without one",
 ["antcdp/targets.go", "antcdp/transport.go", "antcdp/tx.go"],
 [("pool of idle tabs", "antcdp/targets.go"), ("release, discard and close around a request", "antcdp/transport.go roundtrip/transact")],
 ["connections and commands seen by the fake browser"],
 "property-based testing: concurrent requests with injected failures against a fake browser that monitors tab exclusivity and open connections",
 "random search; interleavings come from random delays in the fake browser and real goroutines")

prop("C27", "Everything documented as goroutine-safe is free of data races",
 "Using one crawl engine, fetcher, queue, de-duplicator, limiter, matcher, JSON scraper, HTTP cache, memory or disk storage, robots cache or selector and scan machinery from several goroutines, in any combination the documentation allows, never causes a data race. URL values and responses handed to the caller or received from it are not modified concurrently by the library, also when a scraper returns the same URL values for several pages.",
 ["schedules", "histories"],
 "every concurrent workload over the goroutine-safe API",
 "the existing tests use these objects almost always from one goroutine",
 ["engine.go", "queue.go", "dedupe.go", "limiters.go", "json.go", "antcache/httpcache.go", "antcache/memstore.go", "antcache/disk.go", "internal/scan/scanner.go", "internal/selectors/selectors.go", "internal/robots/cache.go"],
 [("locks, sync.Map and per-call state", "all of the above")],
 ["reports of the Go race detector"],
 "property-based concurrency fuzzing: generated parallel workloads run under the Go race detector as the oracle",
 "random search; the race detector reports only races on executed paths, and has no false positives")

prop("C28", "The test helpers judge correctly",
 "The queue conformance suite passes for every queue that keeps the queue contract, whatever its internals, and fails for one that violates the parts it tests (order, delivery to concurrent readers, end-of-file after close, context errors). The page fetching helper returns a usable page, or fails the test when the page could not be fetched successfully, a 404 included.",
 ["programs", "inputs"],
 "every correct queue variant, every single-fault queue variant in the generated family, every status and body",
 "the suite is only ever run on the one in-memory queue",
 ["anttest/queue.go", "anttest/anttest.go"],
 [("sub-tests per queue method", "anttest/queue.go TestQueue"), ("fatal on error", "anttest/anttest.go Fetch")],
 ["verdict of the suite in a child process", "page or fatal of the helper"],
 "property-based mutation of the checked object: generated correct and faulty queues, and generated responses, must get the right verdict",
 "random search over a family of queue variants")

prop("C29", "Temporary errors are retried instead of ending the crawl",
 "An error that reports itself as temporary, from a page request, a robots.txt request, the scraper or the de-duplicator, does not end the crawl on its first occurrence: the operation is retried (a page may be requested again so that it can be scraped again), and if it then succeeds the same pages are visited and scraped as if the error had not occurred. An error that is not temporary is not retried and ends the crawl, one that does not go away ends it after a bounded number of attempts, in both cases with an error that tells the cause, and a cancellation ends a crawl that is retrying promptly.",
 ["fault_sequences", "inputs"],
 "every position and number of temporary and permanent errors over page and robots.txt requests, scrapes and de-duplications, and cancellations while they are retried",
 "the tests make a request fail temporarily once; other operations and whole crawls are not covered",
 ["engine.go", "fetcher.go", "ant.go", "dedupe.go"],
 [("retry loop of the fetcher", "fetcher.go Fetch"), ("retry loops of the engine", "engine.go retry/scrape/dedupe/allowed")],
 ["result of the crawl with and without the temporary errors"],
 "property-based metamorphic testing: the same crawl with and without injected temporary errors must visit the same pages",
 "random search over the position, kind and number of errors; " + SCHED)

prop("C30", "A failing cache storage fails the request it serves, never the content",
 "When the storage of the HTTP cache fails to load an entry, Do returns an error from which the storage's own error can be recovered, no response, and leaves no response of the origin open. When it fails to store one, the caller has still received the complete response, and closing its body returns an error that carries the storage's, together with an error of closing the origin's body; this also holds after a validation. A loaded entry that is not a stored response, or is cut short, gives an error, a new response of the origin, or a body whose reading fails, never a panic or other content, and is not stored again. The storage is given each complete response exactly once, after its body was closed, under the key by which it is looked up and with the request's context, and the bytes it was given are not modified later. Once the storage works again, so does the cache.",
 ["fault_sequences", "histories", "inputs"],
 "every history of requests over every sequence of load and store failures, damaged entries, validation outcomes and read/close patterns",
 "the tests use storages that always work",
 ["antcache/httpcache.go", "antcache/cachereader.go"],
 [("errors of Load wrapped and returned", "antcache/httpcache.go load"), ("errors of Store returned by the body's Close", "antcache/cachereader.go Close")],
 ["responses and errors of Do, Read and Close", "calls the storage receives"],
 "stateful model-based testing with fault injection: a storage of the test that fails by plan, against a model of what it holds",
 "random search")

prop("C31", "The disk store opens, waits and closes cleanly, also while it is being read",
 "Open fails for a relative path, a path that is missing, is not a directory or cannot be opened, and when an option fails; the error carries the cause and nothing stays behind: no open file, no goroutine, no change of the directory. Otherwise it returns at once and the store can be used while the directory is being read, which stores and loads do not wait for. Wait returns nil once every entry that was there can be loaded, and its context's error promptly if that is done before. Close, at any time of the reading or of a sweep, returns after both ended, reports an error of closing the directory, and afterwards nothing of the store runs, no file is open and the directory is not touched. Stores of different directories do not influence each other.",
 ["fault_sequences", "schedules", "histories"],
 "every kind of path and option, every interleaving of waits, stores, loads, sweeps and the close with the reading of directories of any size",
 "the tests open one small directory and close it when it is idle",
 ["antcache/disk.go"],
 [("checks of the path, options", "antcache/disk.go Open/init"), ("reading in the background", "antcache/disk.go warmup/Wait"), ("wait group and stop channel", "antcache/disk.go Close/sweeper")],
 ["errors and durations of Open, Wait, Store, Load and Close", "file system calls, open files and goroutines"],
 "property-based testing with fault injection on a file system whose operations take virtual time and are counted",
 "random search; " + SCHED)

prop("C32", "A crawl through the HTTP cache is the crawl of what it may serve",
 "A crawl whose fetcher uses the HTTP cache, in memory or on disk, compressed or not, with either strategy, visits and scrapes the same pages, each with its own URL (after redirects), headers and content, as a crawl of the versions of the pages that the cache may serve: the origin's current version of everything that is not fresh, the cached one otherwise. Every page that a crawl fetched, including pages whose scraper ignored or only partly used them, pages that were not found and pages that were redirected, is stored: while it is fresh, later crawls do not ask the origin for it, also after the disk store was reopened. Several crawls may share a cache. All responses of the origin are closed.",
 ["histories", "schedules", "inputs"],
 "every site, every sequence of crawls, pauses, changes of the site and reopenings, every strategy and storage",
 "the tests never combine the engine with the cache",
 ["engine.go", "fetcher.go", "page.go", "antcache/httpcache.go", "antcache/cachereader.go", "antcache/disk.go"],
 [("body drained and closed by the engine and the fetcher", "page.go close, fetcher.go discard"), ("stored at close", "antcache/cachereader.go"), ("URL kept with the response", "antcache/httpcache.go store/load")],
 ["pages that the scraper is given", "requests that the origin receives"],
 "property-based differential testing: crawls through the cache against the reference crawl of the page versions that may be served",
 "random search; " + SCHED)

CLAIMED = None  # None: all

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=p["hook"]))
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    claimed = [p for p in P if os.path.exists(os.path.join(ROOT, "claims", p["id"]))]
    m = dict(version=1, setup_cmd="bash ./setup.sh",
             hooks=dict(guard="none", enable="none: the checks instrument a scratch copy of /repo's current sources through 'go build -overlay'; no hook was added to /repo", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd="bash ./check %s quick" % p["id"],
                          thorough_cmd="bash ./check %s thorough" % p["id"],
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in claimed],
             not_applicable=[dict(property=p["id"], reason="not claimed yet: its check is still being built") for p in P if p not in claimed])
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

main()
