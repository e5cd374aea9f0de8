From 9db2de44cc365fc196d7e294b7acf72b30a1f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 01/37] fix: normalize URL paths as RFC 3986 defines, keeping
 the slashes

The leading and trailing slashes of a path were dropped, which changed the
requested resource and what matchers and limiters see, escaped delimiters
were decoded and leading dot segments were kept. Empty and IPv6 default
ports and escapes in the query were not normalized.
---
 internal/normalize/url.go | 112 +++++++++++++++++++++++++++++++-------
 1 file changed, 93 insertions(+), 19 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index aef861b..6f9341f 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -5,8 +5,8 @@ package normalize
 
 import (
 	"net/url"
-	"path"
 	"sort"
+	"strconv"
 	"strings"
 )
 
@@ -34,10 +34,11 @@ func RawURL(rawurl string) (string, error) {
 func URL(u *url.URL) *url.URL {
 	u.Scheme = strings.ToLower(u.Scheme)
 	u.Host = hostname(u)
-	u.Path = pathname(u)
+	u.Path, u.RawPath = pathname(u)
 	u.RawQuery = query(u.RawQuery)
 	u.ForceQuery = false
 	u.Fragment = ""
+	u.RawFragment = ""
 	return u
 }
 
@@ -45,33 +46,106 @@ func URL(u *url.URL) *url.URL {
 func hostname(u *url.URL) string {
 	var host = strings.ToLower(u.Host)
 
-	if j := strings.IndexByte(host, ':'); j != -1 {
-		switch port := host[j+1:]; {
-		case u.Scheme == "http" && port == "80":
-			return host[:j]
-		case u.Scheme == "https" && port == "443":
-			return host[:j]
-		}
+	switch port := u.Port(); {
+	case port == "":
+		return strings.TrimSuffix(host, ":")
+	case u.Scheme == "http" && port == "80":
+		return strings.TrimSuffix(host, ":80")
+	case u.Scheme == "https" && port == "443":
+		return strings.TrimSuffix(host, ":443")
 	}
 
 	return host
 }
 
-// Pathname normalizes the pathname.
-func pathname(u *url.URL) string {
-	switch u.Path {
-	case "", "/":
-		return "/"
-	default:
-		parts := strings.Split(u.Path, "/")
-		return path.Join(parts...)
+// Pathname normalizes the pathname, it returns the path
+// and the raw path of the URL.
+//
+// The path is normalized in its escaped form, so that an escaped
+// delimiter is never mistaken for a delimiter.
+func pathname(u *url.URL) (path, rawpath string) {
+	rawpath = dotsegments(triplets(u.EscapedPath()))
+
+	path, err := url.PathUnescape(rawpath)
+	if err != nil {
+		return u.Path, u.RawPath
 	}
+
+	// The raw path is only set when it is not the default encoding.
+	if (&url.URL{Path: path}).EscapedPath() == rawpath {
+		rawpath = ""
+	}
+
+	return path, rawpath
+}
+
+// Dotsegments removes the dot segments of the given path.
+//
+// https://tools.ietf.org/html/rfc3986#section-5.2.4
+func dotsegments(path string) string {
+	var parts = strings.Split(strings.TrimPrefix(path, "/"), "/")
+	var ret = make([]string, 0, len(parts))
+
+	for j, part := range parts {
+		var last = j == len(parts)-1
+
+		switch part {
+		case ".":
+		case "..":
+			if len(ret) > 0 {
+				ret = ret[:len(ret)-1]
+			}
+		default:
+			ret = append(ret, part)
+			continue
+		}
+
+		if last {
+			ret = append(ret, "")
+		}
+	}
+
+	return "/" + strings.Join(ret, "/")
+}
+
+// Triplets normalizes the percent-encoded triplets in the given string.
+//
+// Triplets of unreserved characters are decoded, others are uppercased.
+//
+// https://tools.ietf.org/html/rfc3986#section-6.2.2
+func triplets(str string) string {
+	var b strings.Builder
+
+	for j := 0; j < len(str); j++ {
+		if str[j] == '%' && j+2 < len(str) {
+			if v, err := strconv.ParseUint(str[j+1:j+3], 16, 8); err == nil {
+				if c := byte(v); unreserved(c) {
+					b.WriteByte(c)
+				} else {
+					b.WriteString(strings.ToUpper(str[j : j+3]))
+				}
+				j += 2
+				continue
+			}
+		}
+		b.WriteByte(str[j])
+	}
+
+	return b.String()
+}
+
+// Unreserved returns true if c is an unreserved character.
+func unreserved(c byte) bool {
+	return 'a' <= c && c <= 'z' ||
+		'A' <= c && c <= 'Z' ||
+		'0' <= c && c <= '9' ||
+		c == '-' || c == '.' || c == '_' || c == '~'
 }
 
-// Query sorts the given query.
+// Query normalizes and sorts the given query.
 func query(query string) string {
 	if query != "" {
-		parts := strings.Split(query, "&")
+		parts := strings.Split(triplets(query), "&")
 		sort.Strings(parts)
 		return strings.Join(parts, "&")
 	}
-- 
2.43.0


From 7f44137895cbedd15d2948692bab57f8bcbbe817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 02/37] fix: stop the engine on the first error and always
 return it

A URL that was dequeued while the context got canceled under a concurrency
limit was never acknowledged, so Run never returned. An error only stopped
the worker it happened in, so a crawl of an unbounded site never returned
it, and cancellation could be reported as success by idle workers.
---
 engine.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/engine.go b/engine.go
index eda6204..0b33d9f 100644
--- a/engine.go
+++ b/engine.go
@@ -146,22 +146,27 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 	for i := 0; i < eng.workers; i++ {
 		eg.Go(func() error {
 			defer eng.queue.Close(ctx)
-			return eng.run(subctx)
+			return eng.run(subctx, eg)
 		})
 	}
 
+	// Stop all workers on the first error or when the
+	// context is canceled, pending URLs are discarded.
+	stop := context.AfterFunc(subctx, func() {
+		eng.queue.Close(ctx)
+	})
+
 	// Wait until all URLs are handled.
 	eng.queue.Wait()
-	if err := eng.queue.Close(ctx); err != nil {
-		return err
-	}
+	stop()
+	closeErr := eng.queue.Close(ctx)
 
 	// Wait until all workers shutdown.
 	if err := eg.Wait(); err != nil {
 		return fmt.Errorf("ant: run - %w", err)
 	}
 
-	return nil
+	return closeErr
 }
 
 // Enqueue enqueues the given set of URLs.
@@ -204,6 +209,10 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 	}
 
 	if err := eng.queue.Enqueue(ctx, next); err != nil {
+		// The queue is closed when the context is canceled.
+		if ctx.Err() != nil {
+			return ctx.Err()
+		}
 		return err
 	}
 
@@ -214,14 +223,15 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 //
 // The worker is in charge of fetching a url from
 // the queue, creating a page and then calling the scraper.
-func (eng *Engine) run(ctx context.Context) error {
-	eg, subctx := errgroup.WithContext(ctx)
+//
+// All URLs are processed in the given group, so that the
+// first error of any worker is the one that is returned.
+func (eng *Engine) run(ctx context.Context, eg *errgroup.Group) error {
 	for {
 		url, err := eng.queue.Dequeue(ctx)
 
-		if errors.Is(err, io.EOF) ||
-			errors.Is(err, context.Canceled) {
-			return eg.Wait()
+		if errors.Is(err, io.EOF) {
+			return ctx.Err()
 		}
 		if err != nil {
 			return err
@@ -229,6 +239,7 @@ func (eng *Engine) run(ctx context.Context) error {
 
 		if eng.sema != nil {
 			if err := eng.sema.Acquire(ctx, 1); err != nil {
+				eng.queue.Done(ctx, url)
 				return err
 			}
 		}
@@ -237,7 +248,7 @@ func (eng *Engine) run(ctx context.Context) error {
 			if eng.sema != nil {
 				defer eng.sema.Release(1)
 			}
-			return eng.process(subctx, url)
+			return eng.process(ctx, url)
 		})
 	}
 }
-- 
2.43.0


From 8fd832f5e1ca7effc932314a1bf86ebc6541b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 03/37] fix: make the bloom filter deduper safe for concurrent
 use

---
 dedupe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedupe.go b/dedupe.go
index 738bcb4..8fdbdba 100644
--- a/dedupe.go
+++ b/dedupe.go
@@ -57,6 +57,7 @@ func (d *deduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 
 // Dedupebf implements a bloom filter deduper.
 type dedupebf struct {
+	mutex  sync.Mutex
 	filter *bloom.BloomFilter
 }
 
@@ -77,6 +78,9 @@ func DedupeBF(k, m uint) Deduper {
 func (d *dedupebf) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 	var ret = make(URLs, 0, len(urls))
 
+	d.mutex.Lock()
+	defer d.mutex.Unlock()
+
 	for _, u := range urls {
 		v := []byte(u.String())
 		if !d.filter.Test(v) {
-- 
2.43.0


From d28ed6c37acc00a6064e104a010d4e2f7a15b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 04/37] fix: do not modify the URLs that a scraper returns

They may be shared with other pages that are scraped concurrently.
---
 engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index 0b33d9f..af07e2f 100644
--- a/engine.go
+++ b/engine.go
@@ -199,11 +199,15 @@ func (eng *Engine) Enqueue(ctx context.Context, rawurls ...string) error {
 
 // Enqueue enqueues the given parsed urls.
 func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
+	var urls = make(URLs, len(batch))
+
+	// Normalize copies, the URLs belong to the scraper.
 	for j := range batch {
-		batch[j] = normalize.URL(batch[j])
+		u := *batch[j]
+		urls[j] = normalize.URL(&u)
 	}
 
-	next, err := eng.dedupe(ctx, eng.matches(batch))
+	next, err := eng.dedupe(ctx, eng.matches(urls))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d2133b01f0d70d5c7138b84c6ffd269a59793cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 05/37] fix: let MemoryQueue.Wait run concurrently with Enqueue

sync.WaitGroup panics when it is reused before a previous Wait returned;
count the outstanding URLs under the queue's lock instead.
---
 queue.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/queue.go b/queue.go
index 01d3a91..6a78d86 100644
--- a/queue.go
+++ b/queue.go
@@ -50,10 +50,10 @@ type Queue interface {
 
 // MemoryQueue implements a naive in-memory queue.
 type memoryQueue struct {
-	pending URLs
-	cond    *sync.Cond
-	stopped bool
-	wg      *sync.WaitGroup
+	pending     URLs
+	cond        *sync.Cond
+	stopped     bool
+	outstanding int
 }
 
 // MemoryQueue returns a new memory queue.
@@ -62,7 +62,6 @@ func MemoryQueue(size int) Queue {
 		pending: make(URLs, 0, size),
 		cond:    sync.NewCond(&sync.RWMutex{}),
 		stopped: false,
-		wg:      &sync.WaitGroup{},
 	}
 }
 
@@ -84,7 +83,7 @@ func (mq *memoryQueue) Enqueue(ctx context.Context, urls URLs) error {
 	}
 
 	mq.pending = append(mq.pending, urls...)
-	mq.wg.Add(len(urls))
+	mq.outstanding += len(urls)
 	mq.cond.Broadcast()
 
 	return nil
@@ -113,13 +112,23 @@ func (mq *memoryQueue) Dequeue(ctx context.Context) (*URL, error) {
 
 // Done implementation.
 func (mq *memoryQueue) Done(_ context.Context, _ *URL) error {
-	mq.wg.Done()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	mq.outstanding--
+	mq.cond.Broadcast()
+
 	return nil
 }
 
 // Wait implementation.
 func (mq *memoryQueue) Wait() {
-	mq.wg.Wait()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	for mq.outstanding > 0 {
+		mq.cond.Wait()
+	}
 }
 
 // Close implementation.
@@ -127,11 +136,8 @@ func (mq *memoryQueue) Close(_ context.Context) error {
 	mq.cond.L.Lock()
 	defer mq.cond.L.Unlock()
 
-	for range mq.pending {
-		mq.wg.Done()
-	}
-
 	mq.stopped = true
+	mq.outstanding -= len(mq.pending)
 	mq.pending = mq.pending[:0]
 	mq.cond.Broadcast()
 	return nil
-- 
2.43.0


From 98a8c9b7d90165a2f8e02a8eacbe76705577a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 06/37] fix: retry temporary errors that are wrapped by the
 client or the fetcher

---
 fetcher.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index fc56b88..154f1f1 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -2,6 +2,7 @@ package ant
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -285,8 +286,9 @@ func (f *Fetcher) maxBackoff() time.Duration {
 	return maxBackoff
 }
 
-// IsTemporary returns true if the error is temporary.
+// IsTemporary returns true if the error, or an error
+// that it wraps, is temporary.
 func isTemporary(err error) bool {
-	t, ok := err.(interface{ Temporary() bool })
-	return ok && t.Temporary()
+	var t interface{ Temporary() bool }
+	return errors.As(err, &t) && t.Temporary()
 }
-- 
2.43.0


From c7f96a0ef7d9b0a1e5d4aee3fdd95e8e51fd9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 07/37] fix: space concurrent requests to a host by its crawl
 delay

---
 internal/robots/cache.go | 48 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index a379cd0..92317ee 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"net/http"
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/segmentio/agecache"
@@ -63,8 +64,11 @@ func (h *Host) test(path, ua string) bool {
 // domain is seen the cache will fetch the robots.txt
 // parse it, and add it to the cache.
 type Cache struct {
-	lru    *agecache.Cache
-	client *http.Client
+	lru      *agecache.Cache
+	client   *http.Client
+	capacity int
+	mu       sync.Mutex
+	next     map[string]time.Time
 }
 
 // NewCache returns a new cache with the client and cache capacity.
@@ -75,7 +79,12 @@ func NewCache(c *http.Client, capacity int) *Cache {
 		ExpirationType:     agecache.PassiveExpration,
 		ExpirationInterval: 1 * time.Minute,
 	})
-	return &Cache{lru: lru, client: c}
+	return &Cache{
+		lru:      lru,
+		client:   c,
+		capacity: capacity,
+		next:     make(map[string]time.Time),
+	}
 }
 
 // Allowed returns true if the request is allowed.
@@ -110,7 +119,8 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 // Wait blocks until the given request can be sent.
 //
 // Some robots.txt define a crawl delay for all or some of the useragents.
-// The method will block until the request can go through.
+// The method will block until the request can go through, concurrent
+// requests to the same host are spaced by the crawl delay.
 func (c *Cache) Wait(ctx context.Context, req Request) error {
 	var ua = req.userAgent()
 
@@ -121,7 +131,7 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 
 	if g, ok := host.find(ua); ok {
 		if d := g.CrawlDelay; d > 0 {
-			t := time.NewTimer(d)
+			t := time.NewTimer(c.reserve(req.URL.Host, d))
 			defer t.Stop()
 			select {
 			case <-ctx.Done():
@@ -135,6 +145,34 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 	return nil
 }
 
+// Reserve reserves the next request to host and returns the
+// time to wait for it.
+func (c *Cache) reserve(host string, delay time.Duration) time.Duration {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	var now = time.Now()
+	var at = now.Add(delay)
+
+	if prev, ok := c.next[host]; ok {
+		if t := prev.Add(delay); t.After(at) {
+			at = t
+		}
+	}
+
+	// Past requests do not delay the next ones.
+	if len(c.next) >= c.capacity {
+		for k, t := range c.next {
+			if !t.After(now) {
+				delete(c.next, k)
+			}
+		}
+	}
+
+	c.next[host] = at
+	return at.Sub(now)
+}
+
 // Lookup returns a host from url.
 //
 // Note that there's a logical race, the method may send multiple requests
-- 
2.43.0


From 670c0b325e38a80361c2d59253219e7af2ba86a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 08/37] fix: match robots.txt rules against the escaped path
 and the query

---
 internal/robots/cache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index 92317ee..debd52b 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -101,13 +101,18 @@ func NewCache(c *http.Client, capacity int) *Cache {
 // The method returns an error if the context is canceled
 // or if a parsing error occurs.
 func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
-	var path = req.URL.Path
+	var path = req.URL.EscapedPath()
 	var ua = req.userAgent()
 
 	if len(path) > 0 && path[0] != '/' {
 		path = "/" + path
 	}
 
+	// Rules apply to the escaped path and the query.
+	if query := req.URL.RawQuery; query != "" {
+		path += "?" + query
+	}
+
 	host, err := c.lookup(ctx, req.URL)
 	if err != nil {
 		return false, err
-- 
2.43.0


From e5881ce66d9e04faac342a654f926fcea3756b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 09/37] fix: return the intact response after a cache
 validation

A 304 drained the stored response before it was returned, so that the
caller and the storage got an empty body. Responses that validate nothing
or that may not be stored were dropped or leaked.
---
 antcache/httpcache.go | 24 +++++++++++++++++-------
 antcache/utils.go     | 16 ++++++++++++++++
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index dc68224..4efc4dc 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -215,6 +215,10 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	var req = resp.Request.Clone(ctx)
 	var hdr = resp.Header
 
+	if req.Header == nil {
+		req.Header = make(http.Header)
+	}
+
 	if etag := hdr.Get("ETag"); etag != "" {
 		if req.Header.Get("If-None-Match") == "" {
 			req.Header.Set("If-None-Match", etag)
@@ -240,15 +244,25 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
+			c.discard(newresp)
 			return resp, nil
 		}
+		c.discard(resp)
 		return newresp, nil
 	}
 
 	// A 304 (Not Modified) response status code indicates that the
 	// stored response can be updated and reused; see Section 4.3.4.
 	if newresp.StatusCode == 304 {
-		c.discard(resp)
+		c.discard(newresp)
+
+		// The response was selected by the caller's own condition, it says
+		// nothing about the stored response.
+		if !selects(newresp.Header, hdr) {
+			c.discard(resp)
+			return nil, nil
+		}
+
 		merge(resp.Header, newresp.Header)
 		c.store(key, resp)
 		return resp, nil
@@ -258,16 +272,12 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// none of the stored responses nominated in the conditional request
 	// is suitable.  Instead, the cache MUST use the full response to
 	// satisfy the request and MAY replace the stored response(s).
+	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.discard(resp)
 		c.store(key, newresp)
-		return newresp, nil
 	}
 
-	// Verification failed, cleanup and close the response readers.
-	c.discard(newresp)
-	c.discard(resp)
-	return nil, nil
+	return newresp, nil
 }
 
 // Store stores the given response.
diff --git a/antcache/utils.go b/antcache/utils.go
index 3f340d3..a551f30 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -12,6 +12,7 @@ import (
 func merge(a http.Header, b http.Header) {
 	for key := range b {
 		switch key {
+		case "Connection":
 		case "Keep-Alive":
 		case "Proxy-Authenticate":
 		case "Proxy-Authorization":
@@ -26,6 +27,21 @@ func merge(a http.Header, b http.Header) {
 	}
 }
 
+// Selects returns true if the validators of a not modified
+// response select the stored response.
+//
+// https://tools.ietf.org/html/rfc7234#section-4.3.4
+func selects(notmodified, stored http.Header) bool {
+	for _, key := range []string{"ETag", "Last-Modified"} {
+		a := strings.TrimPrefix(notmodified.Get(key), "W/")
+		b := strings.TrimPrefix(stored.Get(key), "W/")
+		if a != "" && b != "" {
+			return a == b
+		}
+	}
+	return true
+}
+
 // Keyof returns a cache key of req.
 func keyof(req *http.Request) uint64 {
 	return murmur3.Sum64([]byte(
-- 
2.43.0


From 48432079d8fbb5e9bdc455bff05b02c4cfa80996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 10/37] fix: do not cache a response whose body was not read to
 its end

---
 antcache/cachereader.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 69a47cd..f2f9388 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -19,6 +19,7 @@ type cachereader struct {
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
+	err   error
 	once  sync.Once
 	ctx   context.Context
 	store func(ctx context.Context, key uint64, v []byte) error
@@ -29,14 +30,31 @@ func (cr *cachereader) Read(p []byte) (n int, err error) {
 	if n, err = cr.rc.Read(p); n > 0 {
 		cr.buf.Write(p[:n])
 	}
+	if cr.err == nil {
+		cr.err = err
+	}
 	return n, err
 }
 
+// Complete returns true if the whole body was read without an error.
+func (cr *cachereader) complete() bool {
+	if cr.err != nil {
+		return cr.err == io.EOF
+	}
+	return cr.rc == http.NoBody ||
+		cr.resp.Request.Method == "HEAD" ||
+		cr.resp.ContentLength > 0 && cr.resp.ContentLength == int64(cr.buf.Len())
+}
+
 // Close implementation.
 func (cr *cachereader) Close() error {
 	cerr := cr.rc.Close()
 
 	cr.once.Do(func() {
+		if !cr.complete() {
+			return
+		}
+
 		resp := *cr.resp
 
 		r := bytes.NewReader(cr.buf.Bytes())
-- 
2.43.0


From 1145f1cd395d578a66b0d637d274bc49be9254aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 11/37] fix: read every Cache-Control header line and large
 arguments

Only the first line was read, arguments with spaces were ignored and large
ones overflowed into the past.
---
 antcache/directives.go | 19 +++++++++++++++++--
 antcache/utils.go      |  2 +-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 10192f5..eed9b33 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -1,18 +1,24 @@
 package antcache
 
 import (
+	"errors"
 	"net/http"
 	"strconv"
 	"strings"
 	"time"
 )
 
+// Maxseconds is the maximum amount of seconds of a directive.
+//
+// https://tools.ietf.org/html/rfc7234#section-1.2.1
+const maxseconds = 1 << 31
+
 // Directives represents cache-control directives.
 type directives map[string]string
 
 // DirectivesFrom returns directives from h.
 func directivesFrom(h http.Header) directives {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h["Cache-Control"], ",")
 	var d directives
 
 	for _, item := range split(c, ",") {
@@ -21,7 +27,7 @@ func directivesFrom(h http.Header) directives {
 		}
 
 		if j := strings.IndexByte(item, '='); j != -1 {
-			d[item[:j]] = item[j+1:]
+			d[strings.TrimSpace(item[:j])] = strings.TrimSpace(item[j+1:])
 		} else {
 			d[item] = ""
 		}
@@ -42,6 +48,15 @@ func (d directives) has(name string) bool {
 func (d directives) duration(name string) (td time.Duration, ok bool) {
 	if v, has := d[name]; has {
 		n, err := strconv.ParseInt(v, 10, 64)
+		if errors.Is(err, strconv.ErrRange) {
+			err = nil
+		}
+		if n > maxseconds {
+			n = maxseconds
+		}
+		if n < -maxseconds {
+			n = -maxseconds
+		}
 		td, ok = (time.Duration(n) * time.Second), err == nil
 	}
 	return
diff --git a/antcache/utils.go b/antcache/utils.go
index a551f30..112860e 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -68,7 +68,7 @@ func matches(req *http.Request, resp *http.Response) bool {
 
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h["Cache-Control"], ",")
 
 	for _, v := range split(c, ",") {
 		if v == "no-store" {
-- 
2.43.0


From 881273c7d497ed0a3860e33297efdb0567971fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 12/37] fix: do not serve a response past its lifetime

The max-age of a request raised the lifetime of the response, max-stale
overruled must-revalidate and the no-cache pragma was ignored.
---
 antcache/rfc7234.go | 12 +++++++++---
 antcache/utils.go   | 17 +++++++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 6d0ffb8..29739fd 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -98,7 +98,7 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	//
 	// the stored response does not contain the no-cache cache directive
 	// (Section 5.2.2.2), unless it is successfully validated (Section 4.3)
-	if reqd.has("no-cache") || resd.has("no-cache") {
+	if reqd.has("no-cache") || resd.has("no-cache") || pragma(req.Header) {
 		return stale
 	}
 
@@ -111,22 +111,28 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	if d, ok := date(resp.Header); ok {
 		var age = time.Since(d)
 		var lifetime time.Duration
+		var explicit = true
 
 		if maxage, ok := resd.duration("max-age"); ok {
 			lifetime = maxage
 		} else if exp, ok := expires(resp.Header); ok {
 			lifetime = exp.Sub(d)
+		} else {
+			explicit = false
 		}
 
+		// The request may lower the lifetime, it may not raise it.
 		if maxage, ok := reqd.duration("max-age"); ok {
-			lifetime = maxage
+			if !explicit || maxage < lifetime {
+				lifetime = maxage
+			}
 		}
 
 		if minfresh, ok := reqd.duration("min-fresh"); ok {
 			age += minfresh
 		}
 
-		if reqd.has("max-stale") {
+		if reqd.has("max-stale") && !resd.has("must-revalidate") {
 			ms, ok := reqd.duration("max-stale")
 
 			if !ok {
diff --git a/antcache/utils.go b/antcache/utils.go
index 112860e..9063ed3 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -79,6 +79,23 @@ func nostore(h http.Header) bool {
 	return false
 }
 
+// Pragma returns true if the no-cache pragma applies.
+//
+// https://tools.ietf.org/html/rfc7234#section-5.4
+func pragma(h http.Header) bool {
+	if len(h["Cache-Control"]) > 0 {
+		return false
+	}
+
+	for _, v := range split(strings.Join(h["Pragma"], ","), ",") {
+		if v == "no-cache" {
+			return true
+		}
+	}
+
+	return false
+}
+
 // Expires returns the expires timestamp.
 //
 // When expires does not exist or is zero, ok is false.
-- 
2.43.0


From 144a20c2ffcb749d5b096e160798eb41e5f44307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 13/37] fix: let no-cache requests bypass the aggressive cache
 as documented

---
 antcache/aggressive.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/antcache/aggressive.go b/antcache/aggressive.go
index 253e076..a8d63da 100644
--- a/antcache/aggressive.go
+++ b/antcache/aggressive.go
@@ -66,7 +66,13 @@ func (a aggressive) store(resp *http.Response) bool {
 }
 
 // Fresh implementation.
+//
+// A request with the "no-cache" directive bypasses the cache.
 func (a aggressive) fresh(resp *http.Response) freshness {
+	if hdr := resp.Request.Header; directivesFrom(hdr).has("no-cache") || pragma(hdr) {
+		return transparent
+	}
+
 	if date, ok := date(resp.Header); ok {
 		if time.Since(date) < a.lifetime() {
 			return fresh
-- 
2.43.0


From c0f5b2283750fd78d6c7c2a72daa0209cc515017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 14/37] fix: only reuse a response for requests that match its
 Vary header

The nominated headers were taken from the request and compared with the
response. They are now stored with the response, and compared with those
of the next request.
---
 antcache/cachereader.go |  5 +++++
 antcache/httpcache.go   | 16 +++++++++++-----
 antcache/utils.go       | 37 +++++++++++++++++++++++++++++++++++++
 3 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index f2f9388..9aed049 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -16,6 +16,7 @@ import (
 // a response when it is closed.
 type cachereader struct {
 	resp  *http.Response
+	vary  http.Header
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
@@ -56,6 +57,10 @@ func (cr *cachereader) Close() error {
 		}
 
 		resp := *cr.resp
+		resp.Header = resp.Header.Clone()
+		for k, v := range cr.vary {
+			resp.Header[k] = v
+		}
 
 		r := bytes.NewReader(cr.buf.Bytes())
 		resp.Body = io.NopCloser(r)
diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 4efc4dc..a6d3500 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -161,7 +161,7 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if c.strategy.store(resp) {
-		c.store(key, resp)
+		c.store(key, req, resp)
 	}
 
 	return resp, nil
@@ -197,7 +197,10 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
 	}
 
-	switch c.strategy.fresh(resp) {
+	f := c.strategy.fresh(resp)
+	deselect(resp.Header)
+
+	switch f {
 	case fresh:
 		return resp, nil
 
@@ -264,7 +267,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 		}
 
 		merge(resp.Header, newresp.Header)
-		c.store(key, resp)
+		c.store(key, req, resp)
 		return resp, nil
 	}
 
@@ -274,7 +277,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// satisfy the request and MAY replace the stored response(s).
 	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.store(key, newresp)
+		c.store(key, req, newresp)
 	}
 
 	return newresp, nil
@@ -286,11 +289,14 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 // that will write the response to the storage when it is closed.
 //
 // If the response body is not closed, the response is never stored in the cache.
-func (c *Cache) store(key uint64, resp *http.Response) {
+//
+// The headers of req that select the response are stored with it.
+func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	rc := resp.Body
 
 	resp.Body = &cachereader{
 		resp:  resp,
+		vary:  selecting(req.Header, resp.Header),
 		key:   key,
 		rc:    rc,
 		ctx:   resp.Request.Context(),
diff --git a/antcache/utils.go b/antcache/utils.go
index 9063ed3..7299b89 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -49,6 +49,34 @@ func keyof(req *http.Request) uint64 {
 	))
 }
 
+// Varyprefix prefixes the headers of a stored response that hold
+// the request headers that selected it.
+const varyprefix = "X-Ant-Vary-"
+
+// Selecting returns the headers of a request which the response
+// nominates, they are to be stored with it.
+func selecting(req, resp http.Header) http.Header {
+	var ret = make(http.Header)
+
+	for _, h := range split(strings.Join(resp["Vary"], ","), ",") {
+		if h != "*" {
+			key := http.CanonicalHeaderKey(h)
+			ret.Set(varyprefix+key, strings.Join(req[key], ", "))
+		}
+	}
+
+	return ret
+}
+
+// Deselect removes the request headers from a stored response.
+func deselect(h http.Header) {
+	for key := range h {
+		if strings.HasPrefix(key, varyprefix) {
+			delete(h, key)
+		}
+	}
+}
+
 // Matches ensures that the given request and response match.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.1
@@ -63,6 +91,15 @@ func matches(req *http.Request, resp *http.Response) bool {
 		}
 	}
 
+	// The request headers that the stored response nominates
+	// equal those of the request that it was stored for.
+	for _, h := range split(strings.Join(resp.Header["Vary"], ","), ",") {
+		key := http.CanonicalHeaderKey(h)
+		if h == "*" || resp.Header.Get(varyprefix+key) != strings.Join(req.Header[key], ", ") {
+			return false
+		}
+	}
+
 	return true
 }
 
-- 
2.43.0


From 2aa9cde5365465592016d6d9ede4511380a353d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 15/37] fix: allow sweeping to be turned off more than once

SweepEvery(0) twice dereferenced a nil ticker.
---
 antcache/disk.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index d2646e8..0551343 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -65,12 +65,13 @@ func Maxsize(size int64) DiskOption {
 // the maxsize is reached.
 func SweepEvery(d time.Duration) DiskOption {
 	return func(ds *Diskstore) error {
-		if d > 0 {
-			ds.ticker = time.NewTicker(d)
-		} else {
+		if ds.ticker != nil {
 			ds.ticker.Stop()
 			ds.ticker = nil
 		}
+		if d > 0 {
+			ds.ticker = time.NewTicker(d)
+		}
 		return nil
 	}
 }
-- 
2.43.0


From 96ed9427d88735b6f3f68f82ede2831479e9d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 16/37] fix: load an empty value from a compressed disk store

snappy.Decode(nil, ...) returns a nil slice for an empty value, which means
that nothing was found.
---
 antcache/disk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 0551343..8d6db1d 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -436,7 +436,7 @@ func (d *Diskstore) Load(_ context.Context, key uint64) (v []byte, err error) {
 	}
 
 	if v != nil && d.compress {
-		if v, err = snappy.Decode(nil, v); err != nil {
+		if v, err = snappy.Decode([]byte{}, v); err != nil {
 			err = fmt.Errorf(
 				"antcache: compress is on but snappy can't decode %s/%d - %w",
 				d.path,
-- 
2.43.0


From 99b09214400cf47ab0495d13d01e78766a781585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 17/37] fix: only index the files that the disk store writes

A file "007" took the place of the entry 7, and directories with a
number for a name were loaded as entries.
---
 antcache/disk.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 8d6db1d..870253f 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -268,7 +268,7 @@ func (d *Diskstore) warmup() {
 			}
 
 			n, err := strconv.ParseUint(name, 10, 64)
-			if err != nil {
+			if err != nil || strconv.FormatUint(n, 10) != name {
 				log.Printf("antcache: disk cache invalid entry - %s", name)
 				continue
 			}
@@ -279,6 +279,11 @@ func (d *Diskstore) warmup() {
 				continue
 			}
 
+			if !stat.Mode().IsRegular() {
+				log.Printf("antcache: disk cache invalid entry - %s", name)
+				continue
+			}
+
 			files = append(files, file{
 				key:   n,
 				path:  path,
-- 
2.43.0


From db79cbf79f70c2fcc00a2a18c6b3623ab1c3e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 18/37] fix: end the warmup of the disk store when its
 directory cannot be read

The warmup looped until the end of the directory, forever when reading it
failed, which also made Wait and Close hang.
---
 antcache/disk.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 870253f..4ef7bc4 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -256,10 +256,6 @@ func (d *Diskstore) warmup() {
 	for {
 		names, err := d.dir.Readdirnames(5)
 
-		if errors.Is(err, io.EOF) {
-			break
-		}
-
 		for _, name := range names {
 			var path = filepath.Join(d.path, name)
 
@@ -291,6 +287,13 @@ func (d *Diskstore) warmup() {
 				mtime: stat.ModTime(),
 			})
 		}
+
+		if err != nil {
+			if !errors.Is(err, io.EOF) {
+				log.Printf("antcache: disk read %s - %s", d.path, err)
+			}
+			break
+		}
 	}
 
 	d.readymu.Lock()
-- 
2.43.0


From 62b7a5d8cfb172651e875a6fd8a05b99d0d54568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 19/37] fix: sweep the disk store only once it is warm

The warmup re-added entries that the sweeper had removed meanwhile, loading
them failed from then on.
---
 antcache/disk.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/antcache/disk.go b/antcache/disk.go
index 4ef7bc4..b55613b 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -322,6 +322,13 @@ func (d *Diskstore) sweeper() {
 		d.wg.Done()
 	}()
 
+	// The warmup must not add files that were removed meanwhile.
+	select {
+	case <-d.stop:
+		return
+	case <-d.warm:
+	}
+
 	for {
 		select {
 		case <-d.stop:
-- 
2.43.0


From f1a4c09870ac0e5de22c02ac39e5480720f9d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 20/37] fix: do not sweep a file that is being replaced

The sweeper decided on a snapshot and removed files by path: a value that was
stored meanwhile was removed with the expired one, and loading it failed.
---
 antcache/disk.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index b55613b..7193418 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -139,6 +139,7 @@ type Diskstore struct {
 	warm     chan struct{}
 	wg       sync.WaitGroup
 	ticker   *time.Ticker
+	commitmu sync.Mutex
 	readymu  sync.RWMutex
 	ready    map[uint64]file
 	now      func() time.Time
@@ -371,11 +372,13 @@ func (d *Diskstore) sweep() (int, error) {
 		}
 	}
 
+	d.commitmu.Lock()
+	defer d.commitmu.Unlock()
 	d.readymu.Lock()
 	defer d.readymu.Unlock()
 
 	for _, f := range remove {
-		if _, ok := d.ready[f.key]; ok {
+		if cur, ok := d.ready[f.key]; ok && cur == f {
 			if err := os.Remove(f.path); err != nil {
 				log.Printf("antcache: disk remove - %s", err)
 				continue
@@ -478,6 +481,10 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)
 	}
 
+	// The file and its entry change together.
+	d.commitmu.Lock()
+	defer d.commitmu.Unlock()
+
 	if err := os.Rename(f.Name(), newpath); err != nil {
 		return fmt.Errorf("antcache: disk rename - %w", err)
 	}
-- 
2.43.0


From 78f8a4fffdc86c8e6bc0a747d9df9832c34ac9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 21/37] fix: sweep the oldest files to get under the maximum
 size

The sweeper kept the oldest files, removed newer ones, and counted expired
files towards the size.
---
 antcache/disk.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 7193418..34f7016 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -349,6 +349,7 @@ func (d *Diskstore) sweep() (int, error) {
 	var now = d.now()
 	var removed int
 	var remove []file
+	var keep []file
 	var sum int64
 
 	sort.Slice(files, func(i, j int) bool {
@@ -361,14 +362,21 @@ func (d *Diskstore) sweep() (int, error) {
 		if d.maxage > 0 {
 			if now.Sub(f.mtime) > d.maxage {
 				remove = append(remove, f)
+				continue
 			}
 		}
 
-		if d.maxsize > 0 {
-			if sum += f.size; sum > d.maxsize {
-				remove = append(remove, f)
-				sum -= f.size
+		keep = append(keep, f)
+		sum += f.size
+	}
+
+	if d.maxsize > 0 {
+		for _, f := range keep {
+			if sum <= d.maxsize {
+				break
 			}
+			remove = append(remove, f)
+			sum -= f.size
 		}
 	}
 
-- 
2.43.0


From 6efedb13123efb13f8ae6dafa67919400adb9923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 22/37] fix: skip links without a host

A link such as <a href="http:///x"> was returned by the page's
methods and queued, the request then failed and ended the crawl.
---
 page.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/page.go b/page.go
index 3974753..ccf2111 100644
--- a/page.go
+++ b/page.go
@@ -128,6 +128,11 @@ func (p *Page) resolve(selector string) URLs {
 				u = p.URL.ResolveReference(u)
 			}
 
+			// A URL without a host cannot be requested.
+			if u.Hostname() == "" {
+				continue
+			}
+
 			switch u.Scheme {
 			case "https", "http":
 				ret = append(ret, u)
-- 
2.43.0


From 446e2e2fca1dbd14263c6e6f5af37c3351473688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 23/37] fix: return an error for types that cannot be scanned

Slices without a selector, recursive structs, a nil destination and
nil pointers panicked or overflowed the stack.
---
 internal/scan/scan.go    | 3 +++
 internal/scan/scanner.go | 9 +++++++--
 internal/scan/slice.go   | 7 +++++++
 internal/scan/struct.go  | 9 +++++++++
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/scan/scan.go b/internal/scan/scan.go
index 2345881..e0e766d 100644
--- a/internal/scan/scan.go
+++ b/internal/scan/scan.go
@@ -18,6 +18,9 @@ var (
 type Options struct {
 	Selector cascadia.Selector
 	Attr     string
+
+	// Parents are the structs that enclose the type.
+	parents []reflect.Type
 }
 
 // ScanFunc represents a scanner func.
diff --git a/internal/scan/scanner.go b/internal/scan/scanner.go
index 99101eb..26efb97 100644
--- a/internal/scan/scanner.go
+++ b/internal/scan/scanner.go
@@ -49,12 +49,17 @@ func NewScanner() *Scanner {
 // Scan scans from src node into dst value.
 func (s *Scanner) Scan(dst any, src *html.Node, opts Options) error {
 	var v = reflect.ValueOf(dst)
-	var t = v.Type()
 
-	if t.Kind() != reflect.Ptr {
+	if v.Kind() != reflect.Ptr {
 		return fmt.Errorf("scan: cannot scan into non ptr %T", dst)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("scan: cannot scan into nil %T", dst)
+	}
+
+	var t = v.Type()
+
 	f, ok := s.lookup(t)
 	if !ok {
 		scanFunc, err := s.register(t.Elem(), opts)
diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index ae02771..471eb05 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -1,6 +1,7 @@
 package scan
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/andybalholm/cascadia"
@@ -18,9 +19,15 @@ type sliceScanner struct {
 func Slice(opts Options, t reflect.Type) (ScanFunc, error) {
 	var eltype = t.Elem()
 
+	// Items of a slice are the nodes that match its selector.
+	if opts.Selector == nil {
+		return nil, fmt.Errorf("scan: cannot scan into type %s without a selector", t)
+	}
+
 	f, err := ScannerOf(eltype, Options{
 		Selector: nil,
 		Attr:     opts.Attr,
+		parents:  opts.parents,
 	})
 	if err != nil {
 		return nil, err
diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 093dbb9..87af7da 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -29,6 +29,14 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		name = t.String()
 	}
 
+	for _, parent := range opts.parents {
+		if parent == t {
+			return nil, fmt.Errorf("scan: cannot scan into recursive type %s", t)
+		}
+	}
+
+	parents := append(opts.parents[:len(opts.parents):len(opts.parents)], t)
+
 	for j := 0; j < t.NumField(); j++ {
 		var f = t.Field(j)
 		var tag = f.Tag
@@ -60,6 +68,7 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		scan, err := ScannerOf(f.Type, Options{
 			Selector: sel,
 			Attr:     attr,
+			parents:  parents,
 		})
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 687b3855f0438f55efdb238e3de0560aab18985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 24/37] fix: scan nested structs from the element their
 selector matches

The selector of a nested struct was ignored and its fields were
scanned from the enclosing element.
---
 internal/scan/struct.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 87af7da..bc99b31 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -17,7 +17,8 @@ type field struct {
 
 // StructScanner implements a struct scanner.
 type structScanner struct {
-	fields []field
+	selector cascadia.Selector
+	fields   []field
 }
 
 // Struct returns a scanfunc for a struct or an error.
@@ -84,11 +85,20 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		return nil, fmt.Errorf("scan: struct %v has no css tags", t)
 	}
 
-	return (structScanner{fields}).scan, nil
+	return (structScanner{
+		selector: opts.Selector,
+		fields:   fields,
+	}).scan, nil
 }
 
 // Scan implements a scan func.
 func (ss structScanner) scan(dst reflect.Value, src *html.Node) error {
+	if ss.selector != nil {
+		if src = ss.selector.MatchFirst(src); src == nil {
+			return nil
+		}
+	}
+
 	for _, f := range ss.fields {
 		v := dst.FieldByIndex(f.index)
 		if err := f.scan(v, src); err != nil {
-- 
2.43.0


From 9455817458033b859f6621f1968a88f9afb3e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 25/37] fix: return an error when the JSON scraper is not given
 a struct

Other types were scraped and written, nil panicked.
---
 json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index e2577c9..ea287d1 100644
--- a/json.go
+++ b/json.go
@@ -29,7 +29,7 @@ func JSON(w io.Writer, t any, selectors ...string) Scraper {
 	var typ = reflect.TypeOf(t)
 	var enc = json.NewEncoder(w)
 
-	if typ.Kind() == reflect.Ptr {
+	if typ != nil && typ.Kind() == reflect.Ptr {
 		typ = typ.Elem()
 	}
 
@@ -50,6 +50,10 @@ type jsonscraper struct {
 
 // Scrape implementation.
 func (j *jsonscraper) Scrape(ctx context.Context, p *Page) (URLs, error) {
+	if j.typ == nil || j.typ.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("ant: cannot scrape json into %v, expected a struct", j.typ)
+	}
+
 	var v = reflect.New(j.typ)
 
 	if err := p.Scan(v.Interface()); err != nil {
-- 
2.43.0


From 0288c2129cfc2ea0cfdccfe57e794e28f04a6f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 26/37] fix: temporary errors of the scraper, the de-duplicator
 and robots.txt requests are retried

They are documented to be retried, but ended the crawl.
---
 engine.go | 85 ++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 20 deletions(-)

diff --git a/engine.go b/engine.go
index af07e2f..774cf42 100644
--- a/engine.go
+++ b/engine.go
@@ -263,10 +263,7 @@ func (eng *Engine) process(ctx context.Context, url *URL) error {
 
 	// Check robots.txt.
 	if !eng.impolite {
-		allowed, err := eng.robots.Allowed(ctx, robots.Request{
-			URL:       url,
-			UserAgent: UserAgent.String(),
-		})
+		allowed, err := eng.allowed(ctx, url)
 		if err != nil {
 			return err
 		}
@@ -295,35 +292,83 @@ func (eng *Engine) process(ctx context.Context, url *URL) error {
 }
 
 // Scrape scrapes the given URL and returns the next URLs.
+//
+// The page is fetched and scraped again when the scraper
+// returns a temporary error, the fetcher retries its own.
 func (eng *Engine) scrape(ctx context.Context, url *URL) (URLs, error) {
-	page, err := eng.fetcher.Fetch(ctx, url)
+	for attempt := 1; ; attempt++ {
+		page, err := eng.fetcher.Fetch(ctx, url)
 
-	if err != nil {
-		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
-	}
+		if err != nil {
+			return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
+		}
 
-	if page == nil {
-		return nil, nil
-	}
+		if page == nil {
+			return nil, nil
+		}
 
-	defer page.close()
+		urls, err := eng.scrapePage(ctx, page)
+		if err == nil {
+			return urls, nil
+		}
 
-	urls, err := eng.scraper.Scrape(ctx, page)
-	if err != nil {
-		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
+		if err := eng.retry(ctx, attempt, err); err != nil {
+			return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
+		}
 	}
+}
 
-	return urls, nil
+// ScrapePage scrapes and closes the given page.
+func (eng *Engine) scrapePage(ctx context.Context, page *Page) (URLs, error) {
+	defer page.close()
+	return eng.scraper.Scrape(ctx, page)
 }
 
 // Dedupe de-duplicates the given slice of URLs.
 func (eng *Engine) dedupe(ctx context.Context, urls URLs) (URLs, error) {
-	deduped, err := eng.deduper.Dedupe(ctx, urls)
-	if err != nil {
-		return nil, fmt.Errorf("ant: dedupe - %w", err)
+	for attempt := 1; ; attempt++ {
+		deduped, err := eng.deduper.Dedupe(ctx, urls)
+		if err == nil {
+			return deduped, nil
+		}
+
+		if err := eng.retry(ctx, attempt, err); err != nil {
+			return nil, fmt.Errorf("ant: dedupe - %w", err)
+		}
+	}
+}
+
+// Allowed returns true if robots.txt allows the given URL.
+func (eng *Engine) allowed(ctx context.Context, url *URL) (bool, error) {
+	for attempt := 1; ; attempt++ {
+		allowed, err := eng.robots.Allowed(ctx, robots.Request{
+			URL:       url,
+			UserAgent: UserAgent.String(),
+		})
+		if err == nil {
+			return allowed, nil
+		}
+
+		if err := eng.retry(ctx, attempt, err); err != nil {
+			return false, err
+		}
+	}
+}
+
+// Retry waits before the next attempt, it returns an error
+// when err is not temporary or when there are no attempts left.
+//
+// The attempts and backoff are those of the fetcher.
+func (eng *Engine) retry(ctx context.Context, attempt int, err error) error {
+	if !isTemporary(err) {
+		return err
+	}
+
+	if max := eng.fetcher.maxAttempts(); attempt >= max {
+		return fmt.Errorf("ant: max attempts of %d reached - %w", max, err)
 	}
 
-	return deduped, nil
+	return eng.fetcher.backoff(ctx, attempt)
 }
 
 // Limit runs all configured limiters.
-- 
2.43.0


From 688822e24d4e3564f9f6ff802cf2d0cda83db713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 27/37] fix: antcdp waits for the navigated document's response
 only

Pages with sub-resources made the request hang, and the response of a
document that was loaded in the tab earlier was taken for the requested one.
---
 antcdp/tx.go | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 34f948f..0a4e671 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -27,7 +27,6 @@ type tx struct {
 	conn    *rpcc.Conn
 	client  *cdp.Client
 	events  struct {
-		req   network.RequestWillBeSentClient
 		res   network.ResponseReceivedClient
 		ready page.DOMContentEventFiredClient
 	}
@@ -62,11 +61,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	reqc, err := tx.client.Network.RequestWillBeSent(ctx)
-	if err != nil {
-		return err
-	}
-
 	resc, err := tx.client.Network.ResponseReceived(ctx)
 	if err != nil {
 		return err
@@ -77,7 +71,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	tx.events.req = reqc
 	tx.events.res = resc
 	tx.events.ready = ready
 	return nil
@@ -115,21 +108,15 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	return tx.resp, nil
 }
 
-// Wait waits for the network requests to load.
+// Wait waits for the response of the navigated document.
+//
+// Responses of other frames and of documents that were
+// loaded in the same tab earlier are ignored.
 func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
-	var ids = make(map[network.RequestID]struct{})
-	var reqc = tx.events.req
 	var resc = tx.events.res
 
 	for {
 		select {
-		case <-reqc.Ready():
-			event, err := reqc.Recv()
-			if err != nil {
-				return fmt.Errorf("antcdp: request recv - %w", err)
-			}
-			ids[event.RequestID] = struct{}{}
-
 		case <-resc.Ready():
 			event, err := resc.Recv()
 			if err != nil {
@@ -142,15 +129,15 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 			if id := event.FrameID; id != nil && *id != args.FrameID {
 				continue
 			}
+			if id := args.LoaderID; id != nil && *id != event.LoaderID {
+				continue
+			}
 
 			if err := tx.merge(event.Response); err != nil {
 				return fmt.Errorf("antcdp: merge response - %w", err)
 			}
 
-			delete(ids, event.RequestID)
-			if len(ids) == 0 {
-				return nil
-			}
+			return nil
 
 		case <-ctx.Done():
 			return ctx.Err()
@@ -296,7 +283,6 @@ func (tx *tx) setCookies(ctx context.Context) error {
 func (tx *tx) close() (err error) {
 	var closers = [...]io.Closer{
 		tx.conn,
-		tx.events.req,
 		tx.events.res,
 		tx.events.ready,
 	}
-- 
2.43.0


From 898066a97d97ef8d52a95c274283e01d996571dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 28/37] fix: antcdp responses carry the URL of the document
 that was redirected to

Links of a page were resolved against the URL before the redirects.
---
 antcdp/tx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 0a4e671..510f674 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"strconv"
 	"strings"
 
@@ -209,6 +210,13 @@ func (tx *tx) merge(resp network.Response) error {
 		return fmt.Errorf("antcdp: headers map - %w", err)
 	}
 
+	// The document may be the result of redirects.
+	if u, err := url.Parse(resp.URL); err == nil && u.Host != "" {
+		req := tx.request.Clone(tx.request.Context())
+		req.URL = u
+		tx.resp.Request = req
+	}
+
 	for k, v := range hdr {
 		if tx.resp.Header == nil {
 			tx.resp.Header = make(http.Header)
-- 
2.43.0


From 70fb7bde8476fc9614c8f8f64de8d461b7ca0078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 29/37] fix: antcdp closes the connection when a transaction
 fails to initialize

---
 antcdp/transport.go | 8 ++++----
 antcdp/tx.go        | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/antcdp/transport.go b/antcdp/transport.go
index edc59c6..b96e55f 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -34,14 +34,14 @@ func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
 		target:  target,
 	}
 
-	if err := tx.init(ctx); err != nil {
-		return nil, err
-	}
-
 	defer func() {
 		err = multierror.Append(err, tx.close())
 	}()
 
+	if err := tx.init(ctx); err != nil {
+		return nil, err
+	}
+
 	resp, err := tx.do(ctx)
 	if err != nil {
 		return nil, err
diff --git a/antcdp/tx.go b/antcdp/tx.go
index 510f674..bf35850 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -289,6 +289,11 @@ func (tx *tx) setCookies(ctx context.Context) error {
 
 // Close closes the transaction.
 func (tx *tx) close() (err error) {
+	// The connection could not be dialed.
+	if tx.conn == nil {
+		return nil
+	}
+
 	var closers = [...]io.Closer{
 		tx.conn,
 		tx.events.res,
-- 
2.43.0


From d66c3dcbbeed984d9ee45d9ff36671a5c397a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 30/37] fix: antcdp reloads the document when only the URL's
 fragment changed

The browser does not request anything then, the request hung.
---
 antcdp/tx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index bf35850..ee1aa22 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -90,6 +90,14 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 		return nil, fmt.Errorf("antcdp: navigate - %s", *errmsg)
 	}
 
+	// The tab already shows the document, only the fragment
+	// of the URL changed and nothing is requested.
+	if reply.LoaderID == nil {
+		if err := tx.client.Page.Reload(ctx, page.NewReloadArgs()); err != nil {
+			return nil, fmt.Errorf("antcdp: reload - %w", err)
+		}
+	}
+
 	if err := tx.wait(ctx, *reply); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 310be4fc2442e386a3a9b4de94282895c1894d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 31/37] fix: antcdp returns when the context is canceled during
 the handshake

---
 antcdp/tx.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index ee1aa22..c5b6c51 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -37,7 +37,7 @@ type tx struct {
 func (tx *tx) init(ctx context.Context) error {
 	var url = tx.target.WebSocketDebuggerURL
 
-	conn, err := rpcc.DialContext(ctx, url)
+	conn, err := dial(ctx, url)
 	if err != nil {
 		return fmt.Errorf("antcdp: dial %q - %w", url, err)
 	}
@@ -77,6 +77,37 @@ func (tx *tx) init(ctx context.Context) error {
 	return nil
 }
 
+// Dial dials the given websocket URL.
+//
+// The websocket handshake ignores the context, the connection
+// is closed when it completes after the context is canceled.
+func dial(ctx context.Context, url string) (*rpcc.Conn, error) {
+	type result struct {
+		conn *rpcc.Conn
+		err  error
+	}
+
+	var ch = make(chan result, 1)
+
+	go func() {
+		conn, err := rpcc.DialContext(ctx, url)
+		ch <- result{conn, err}
+	}()
+
+	select {
+	case r := <-ch:
+		return r.conn, r.err
+
+	case <-ctx.Done():
+		go func() {
+			if r := <-ch; r.conn != nil {
+				r.conn.Close()
+			}
+		}()
+		return nil, ctx.Err()
+	}
+}
+
 // Do sends the navigates to the page.
 func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	var args = page.NewNavigateArgs(tx.request.URL.String())
-- 
2.43.0


From 17e693697811e956a15ddd751f51685c5aad0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 32/37] fix: antcdp does not reuse the tab of a failed request

The tab may still load the page, its events were taken for those of the
next request.
---
 antcdp/targets.go   | 10 ++++++++++
 antcdp/transport.go | 29 ++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/antcdp/targets.go b/antcdp/targets.go
index 3fcb334..6405fcc 100644
--- a/antcdp/targets.go
+++ b/antcdp/targets.go
@@ -3,6 +3,7 @@ package antcdp
 import (
 	"context"
 	"fmt"
+	"time"
 
 	"github.com/mafredri/cdp/devtool"
 )
@@ -52,3 +53,12 @@ func (t *targets) release(target *devtool.Target) error {
 	}
 	return nil
 }
+
+// Discard closes the given target in the background.
+func (t *targets) discard(target *devtool.Target) {
+	go func() {
+		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
+		defer cancel()
+		t.client.Close(ctx, target)
+	}()
+}
diff --git a/antcdp/transport.go b/antcdp/transport.go
index b96e55f..0e03810 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -1,9 +1,10 @@
 package antcdp
 
 import (
+	"context"
 	"net/http"
 
-	"github.com/hashicorp/go-multierror"
+	"github.com/mafredri/cdp/devtool"
 )
 
 // Transport implements a CDP request transport.
@@ -27,25 +28,31 @@ func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	defer t.pool.release(target)
 
+	// The state of the tab is unknown after an error, it
+	// may still load the page and send events for it.
+	resp, err := t.transact(ctx, target, req)
+	if err != nil {
+		t.pool.discard(target)
+		return nil, err
+	}
+
+	t.pool.release(target)
+	return resp, nil
+}
+
+// Transact performs the request using the given target.
+func (t *transport) transact(ctx context.Context, target *devtool.Target, req *http.Request) (*http.Response, error) {
 	tx := &tx{
 		request: req,
 		target:  target,
 	}
 
-	defer func() {
-		err = multierror.Append(err, tx.close())
-	}()
+	defer tx.close()
 
 	if err := tx.init(ctx); err != nil {
 		return nil, err
 	}
 
-	resp, err := tx.do(ctx)
-	if err != nil {
-		return nil, err
-	}
-
-	return resp, nil
+	return tx.do(ctx)
 }
-- 
2.43.0


From b5b5fcebe7a5ba3b9282c976b0e76d6f22710131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 33/37] fix: antcdp returns the context's error when creating a
 tab is canceled

---
 antcdp/targets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/antcdp/targets.go b/antcdp/targets.go
index 6405fcc..d74159f 100644
--- a/antcdp/targets.go
+++ b/antcdp/targets.go
@@ -39,6 +39,9 @@ func (t *targets) acquire(ctx context.Context) (*devtool.Target, error) {
 	default:
 		v, err := t.client.Create(ctx)
 		if err != nil {
+			if ctx.Err() != nil {
+				return nil, ctx.Err()
+			}
 			return nil, fmt.Errorf("antcdp: create target - %w", err)
 		}
 		return v, nil
-- 
2.43.0


From 588b8d9e824748648c9700b0ff798ed1701ea7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 34/37] fix: anttest: fail the test when the page is not found

---
 anttest/anttest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anttest/anttest.go b/anttest/anttest.go
index 623a3fb..e7fdaf3 100644
--- a/anttest/anttest.go
+++ b/anttest/anttest.go
@@ -34,5 +34,10 @@ func Fetch(t testing.TB, url string) *ant.Page {
 		t.Fatalf("anttest: %s", err)
 	}
 
+	// The fetcher returns no page and no error on 404.
+	if page == nil {
+		t.Fatalf("anttest: fetch %q - not found", url)
+	}
+
 	return page
 }
-- 
2.43.0


From 99490f304734d97f5e699bf22d7edd1691a4d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 35/37] fix: do not end a crawl while a URL is being enqueued

A URL is known to the de-duplicator before it is queued, when the queue
was closed in between, pages linked by others were never visited.
---
 engine.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index 774cf42..49928a9 100644
--- a/engine.go
+++ b/engine.go
@@ -5,7 +5,9 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"net/url"
+	"sync/atomic"
 
 	"github.com/yields/ant/internal/normalize"
 	"github.com/yields/ant/internal/robots"
@@ -90,6 +92,8 @@ type Engine struct {
 	impolite bool
 	workers  int
 	sema     *semaphore.Weighted
+	enqueues *semaphore.Weighted
+	enqueued atomic.Int64
 }
 
 // NewEngine returns a new engine.
@@ -130,6 +134,7 @@ func NewEngine(c EngineConfig) (*Engine, error) {
 		impolite: c.Impolite,
 		workers:  c.Workers,
 		sema:     sema,
+		enqueues: semaphore.NewWeighted(math.MaxInt64),
 	}, nil
 }
 
@@ -157,9 +162,8 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 	})
 
 	// Wait until all URLs are handled.
-	eng.queue.Wait()
+	closeErr := eng.wait(ctx, subctx)
 	stop()
-	closeErr := eng.queue.Close(ctx)
 
 	// Wait until all workers shutdown.
 	if err := eg.Wait(); err != nil {
@@ -169,6 +173,29 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 	return closeErr
 }
 
+// Wait waits until all URLs are handled and closes the queue.
+//
+// A URL that is being enqueued is already known to the
+// de-duplicator, the queue must not be closed before it
+// was queued.
+func (eng *Engine) wait(ctx, subctx context.Context) error {
+	for {
+		n := eng.enqueued.Load()
+		eng.queue.Wait()
+
+		if eng.enqueues.Acquire(subctx, math.MaxInt64) != nil {
+			return eng.queue.Close(ctx)
+		}
+
+		if n == eng.enqueued.Load() {
+			defer eng.enqueues.Release(math.MaxInt64)
+			return eng.queue.Close(ctx)
+		}
+
+		eng.enqueues.Release(math.MaxInt64)
+	}
+}
+
 // Enqueue enqueues the given set of URLs.
 //
 // The method blocks until all URLs are queued
@@ -207,6 +234,11 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 		urls[j] = normalize.URL(&u)
 	}
 
+	if err := eng.enqueues.Acquire(ctx, 1); err != nil {
+		return err
+	}
+	defer eng.enqueues.Release(1)
+
 	next, err := eng.dedupe(ctx, eng.matches(urls))
 	if err != nil {
 		return err
@@ -220,6 +252,7 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 		return err
 	}
 
+	eng.enqueued.Add(int64(len(next)))
 	return nil
 }
 
-- 
2.43.0


From 0d6ed0d1773f8284c508bd9aa13d4a1a8d169eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:45 +0000
Subject: [PATCH 36/37] fix: report errors of the queue's Done

---
 engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index 49928a9..1deb64e 100644
--- a/engine.go
+++ b/engine.go
@@ -291,8 +291,12 @@ func (eng *Engine) run(ctx context.Context, eg *errgroup.Group) error {
 }
 
 // Process processes a single url.
-func (eng *Engine) process(ctx context.Context, url *URL) error {
-	defer eng.queue.Done(ctx, url)
+func (eng *Engine) process(ctx context.Context, url *URL) (err error) {
+	defer func() {
+		if e := eng.queue.Done(ctx, url); e != nil && err == nil {
+			err = fmt.Errorf("ant: done %q - %w", url, e)
+		}
+	}()
 
 	// Check robots.txt.
 	if !eng.impolite {
-- 
2.43.0


From 8d696461518c210bdff6366f8878eed3a6b2091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 37/37] fix: cached responses keep the URL that the client was
 redirected to

---
 antcache/httpcache.go | 22 ++++++++++++++++++----
 antcache/utils.go     | 22 ++++++++++++++++++++--
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index a6d3500..3897300 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -198,14 +198,16 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 	}
 
 	f := c.strategy.fresh(resp)
+	loc := location(req, resp.Header)
 	deselect(resp.Header)
 
 	switch f {
 	case fresh:
+		resp.Request = loc
 		return resp, nil
 
 	case stale:
-		return c.verify(ctx, key, resp)
+		return c.verify(ctx, key, resp, loc)
 	}
 
 	return nil, nil
@@ -213,11 +215,16 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 
 // Verify verifies that the given response is still valid.
 //
+// The given location is the request that resp answered, it differs from
+// the response's request when the client was redirected.
+//
 // https://tools.ietf.org/html/rfc7234#section-4.3.
-func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*http.Response, error) {
+func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response, loc *http.Request) (*http.Response, error) {
 	var req = resp.Request.Clone(ctx)
 	var hdr = resp.Header
 
+	resp.Request = loc
+
 	if req.Header == nil {
 		req.Header = make(http.Header)
 	}
@@ -290,13 +297,20 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 //
 // If the response body is not closed, the response is never stored in the cache.
 //
-// The headers of req that select the response are stored with it.
+// The headers of req that select the response are stored with it, and the
+// URL of the response when the client was redirected.
 func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	rc := resp.Body
 
+	hdr := selecting(req.Header, resp.Header)
+	hdr[locationkey] = nil
+	if u := resp.Request.URL.String(); u != req.URL.String() {
+		hdr.Set(locationkey, u)
+	}
+
 	resp.Body = &cachereader{
 		resp:  resp,
-		vary:  selecting(req.Header, resp.Header),
+		vary:  hdr,
 		key:   key,
 		rc:    rc,
 		ctx:   resp.Request.Context(),
diff --git a/antcache/utils.go b/antcache/utils.go
index 7299b89..2962969 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -2,6 +2,7 @@ package antcache
 
 import (
 	"net/http"
+	"net/url"
 	"strings"
 	"time"
 
@@ -68,10 +69,27 @@ func selecting(req, resp http.Header) http.Header {
 	return ret
 }
 
-// Deselect removes the request headers from a stored response.
+// Locationkey is the header of a stored response that holds its URL,
+// when it is not the one that was requested.
+const locationkey = "X-Ant-Location"
+
+// Location returns the request that the response with the given
+// headers answers, req itself unless the client was redirected.
+func location(req *http.Request, h http.Header) *http.Request {
+	if v := h.Get(locationkey); v != "" {
+		if u, err := url.Parse(v); err == nil {
+			ret := req.Clone(req.Context())
+			ret.URL, ret.Host = u, u.Host
+			return ret
+		}
+	}
+	return req
+}
+
+// Deselect removes the request headers and the URL from a stored response.
 func deselect(h http.Header) {
 	for key := range h {
-		if strings.HasPrefix(key, varyprefix) {
+		if strings.HasPrefix(key, varyprefix) || key == locationkey {
 			delete(h, key)
 		}
 	}
-- 
2.43.0

