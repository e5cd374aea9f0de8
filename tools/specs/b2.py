# Planted bugs, second batch. See plant.py.
bugs = []
def bug(**k): bugs.append(k)

CLIENT = '''
type demoClient func(*http.Request) (*http.Response, error)

func (f demoClient) Do(req *http.Request) (*http.Response, error) { return f(req) }

func demoResp(req *http.Request, status int, body string, hdr ...string) *http.Response {
	h := make(http.Header)
	for j := 0; j+1 < len(hdr); j += 2 {
		h.Add(hdr[j], hdr[j+1])
	}
	return &http.Response{
		Status: strconv.Itoa(status) + " " + http.StatusText(status), StatusCode: status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req,
	}
}
'''
SCRAPER = '''
type demoScraper func(context.Context, *Page) (URLs, error)

func (f demoScraper) Scrape(ctx context.Context, p *Page) (URLs, error) { return f(ctx, p) }
'''
PAGE = '''
func demoPage(rawurl, body string) *Page {
	u, _ := url.Parse(rawurl)
	return &Page{URL: u, Header: http.Header{}, body: io.NopCloser(strings.NewReader(body))}
}
'''
def go(pkg, imports, *parts):
    return 'package %s\n\nimport (\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in sorted(imports.split()))) + '\n'.join(parts)

bug(id='c02-limit-opaque', property='C02', pkg='.', edits=[('engine.go', 'fmt.Errorf("limit %q - %w", url, err)', 'fmt.Errorf("limit %q - %v", url, err)')],
    needs='a limiter that fails', breaks='the first failure cannot be recovered from the error that Run returns',
    demo=go('ant', 'context errors io net/http net/url strconv strings testing', CLIENT, SCRAPER, '''
func TestDemo(t *testing.T) {
	cause := errors.New("cause")
	eng, err := NewEngine(EngineConfig{
		Scraper:  demoScraper(func(context.Context, *Page) (URLs, error) { return nil, nil }),
		Fetcher:  &Fetcher{Client: demoClient(func(r *http.Request) (*http.Response, error) { return demoResp(r, 200, "x"), nil })},
		Limiter:  LimiterFunc(func(context.Context, *url.URL) error { return cause }),
		Impolite: true,
	})
	if err != nil {
		t.Fatal(err)
	}
	if err := eng.Run(context.Background(), "http://a/"); !errors.Is(err, cause) {
		t.Fatalf("Run returns %v", err)
	}
}
'''))

bug(id='c03-workers-bound', property='C03', pkg='.', edits=[('engine.go', 'if n := int64(c.Concurrency); n > 0 {', 'if n := int64(c.Concurrency); n > 0 && n > int64(c.Workers) {')],
    needs='at least as many workers as the concurrency limit', breaks='the limit is dropped, because every worker starts a goroutine per URL',
    demo=go('ant', 'context io net/http net/url strconv strings sync/atomic testing time', CLIENT, SCRAPER, '''
func TestDemo(t *testing.T) {
	var now, max int64
	eng, err := NewEngine(EngineConfig{
		Scraper: demoScraper(func(_ context.Context, p *Page) (URLs, error) {
			var ret URLs
			if p.URL.Path == "/" {
				for j := 0; j < 10; j++ {
					ret = append(ret, &url.URL{Scheme: "http", Host: "a", Path: "/" + strconv.Itoa(j)})
				}
			}
			return ret, nil
		}),
		Fetcher: &Fetcher{Client: demoClient(func(r *http.Request) (*http.Response, error) {
			if n := atomic.AddInt64(&now, 1); n > atomic.LoadInt64(&max) {
				atomic.StoreInt64(&max, n)
			}
			time.Sleep(30 * time.Millisecond)
			atomic.AddInt64(&now, -1)
			return demoResp(r, 200, "x"), nil
		})},
		Workers: 2, Concurrency: 2, Impolite: true,
	})
	if err != nil {
		t.Fatal(err)
	}
	if err := eng.Run(context.Background(), "http://a/"); err != nil {
		t.Fatal(err)
	}
	if max > 2 {
		t.Fatalf("%d pages at the same time", max)
	}
}
'''))

ROBOTS = '''
type demoRT func(*http.Request) (*http.Response, error)

func (f demoRT) RoundTrip(req *http.Request) (*http.Response, error) { return f(req) }
'''
bug(id='c04-only-4xx', property='C04', pkg='internal/robots', edits=[('internal/robots/cache.go', 'if resp.StatusCode >= 400 {', 'if resp.StatusCode >= 400 && resp.StatusCode < 500 {')],
    needs='a robots.txt that answers 5xx', breaks='the pages of the host are dropped',
    demo=go('robots', 'context io net/http net/url strconv strings testing', CLIENT.replace('demoClient', 'demoUnused'), ROBOTS, '''
func TestDemo(t *testing.T) {
	c := NewCache(&http.Client{Transport: demoRT(func(r *http.Request) (*http.Response, error) { return demoResp(r, 500, "oops"), nil })}, 10)
	u, _ := url.Parse("http://a/x")
	if ok, err := c.Allowed(context.Background(), Request{URL: u, UserAgent: "bot"}); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c04-delay-agent', property='C04', pkg='.', edits=[('engine.go', '''	err := eng.robots.Wait(ctx, robots.Request{
		URL:       url,
		UserAgent: UserAgent.String(),
	})''', '''	err := eng.robots.Wait(ctx, robots.Request{URL: url})''')],
    needs='a robots.txt with a crawl delay for the crawler by name', breaks='the delay of the general group applies instead',
    demo=go('ant', 'context io net/http strconv strings testing time', CLIENT, SCRAPER, '''
type demoRT func(*http.Request) (*http.Response, error)

func (f demoRT) RoundTrip(req *http.Request) (*http.Response, error) { return f(req) }

func TestDemo(t *testing.T) {
	prev := DefaultClient.Transport
	defer func() { DefaultClient.Transport = prev }()
	DefaultClient.Transport = demoRT(func(r *http.Request) (*http.Response, error) {
		return demoResp(r, 200, "User-agent: antbot\\nCrawl-delay: 1\\n\\nUser-agent: *\\nDisallow: /x\\n"), nil
	})
	eng, err := NewEngine(EngineConfig{
		Scraper: demoScraper(func(context.Context, *Page) (URLs, error) { return nil, nil }),
		Fetcher: &Fetcher{Client: demoClient(func(r *http.Request) (*http.Response, error) { return demoResp(r, 200, "x"), nil })},
	})
	if err != nil {
		t.Fatal(err)
	}
	start := time.Now()
	if err := eng.Run(context.Background(), "http://a/"); err != nil {
		t.Fatal(err)
	}
	if d := time.Since(start); d < 900*time.Millisecond {
		t.Fatalf("requested after %s", d)
	}
}
'''))

bug(id='c05-pattern-port', property='C05', pkg='.', edits=[('limiters.go', 'match.Match(u.Host+u.Path, pattern)', 'match.Match(u.Hostname()+u.Path, pattern)')],
    needs='a URL with a port', breaks='the pattern limiter judges the host without its port',
    demo=go('ant', 'context net/url testing time', '''
func TestDemo(t *testing.T) {
	l := LimitPattern(1, "a:8080/*")
	u, _ := url.Parse("http://a:8080/x")
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	if err := l.Limit(ctx, u); err != nil {
		t.Fatal(err)
	}
	if err := l.Limit(ctx, u); err == nil {
		t.Fatal("the second request is not limited")
	}
}
'''))

bug(id='c06-query-compact', property='C06', pkg='internal/normalize', edits=[('internal/normalize/url.go', '''		sort.Strings(parts)
		return strings.Join(parts, "&")''', '''		sort.Strings(parts)
		uniq := parts[:1]
		for _, p := range parts[1:] {
			if p != uniq[len(uniq)-1] {
				uniq = append(uniq, p)
			}
		}
		return strings.Join(uniq, "&")''')],
    needs='a URL that repeats a query parameter with the same value', breaks='different pages are treated as one',
    demo=go('normalize', 'testing', '''
func TestDemo(t *testing.T) {
	s, err := RawURL("http://a/?x=1&x=1")
	if err != nil || s != "http://a/?x=1&x=1" {
		t.Fatal(s, err)
	}
}
'''))

bug(id='c07-map-scheme', property='C07', pkg='.', edits=[('dedupe.go', '''		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {''', '''		if _, exists := d.m.LoadOrStore(u.Host+u.RequestURI(), nil); !exists {''')],
    needs='the same page with different schemes', breaks='a distinct URL is lost',
    demo=go('ant', 'context net/url testing', '''
func TestDemo(t *testing.T) {
	d := DedupeMap()
	a, _ := url.Parse("http://a/x")
	b, _ := url.Parse("https://a/x")
	if r, _ := d.Dedupe(context.Background(), URLs{a, b}); len(r) != 2 {
		t.Fatal(r)
	}
}
'''))

bug(id='c08-signal', property='C08', pkg='.', edits=[('queue.go', '''	mq.outstanding += len(urls)
	mq.cond.Broadcast()
''', '''	mq.outstanding += len(urls)
	for range urls {
		mq.cond.Signal()
	}
''')],
    needs='a goroutine in Wait and one in Dequeue while a URL is enqueued', breaks='the URL wakes the waiter, the dequeuer stays blocked while a URL is available',
    demo=go('ant', 'context net/url testing time', '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	q := MemoryQueue(1)
	u := &url.URL{Scheme: "http", Host: "a", Path: "/"}
	q.Enqueue(ctx, URLs{u})
	q.Dequeue(ctx)
	go q.Wait()
	time.Sleep(100 * time.Millisecond)
	got := make(chan bool)
	go func() {
		q.Dequeue(ctx)
		close(got)
	}()
	time.Sleep(100 * time.Millisecond)
	q.Enqueue(ctx, URLs{u})
	select {
	case <-got:
	case <-time.After(3 * time.Second):
		t.Fatal("the dequeuer is stranded")
	}
}
'''))

bug(id='c09-final-url', property='C09', pkg='.', edits=[('fetcher.go', '''		URL:    resp.Request.URL,
		Header: resp.Header,''', '''		URL:    url,
		Header: resp.Header,''')],
    needs='a page that redirects', breaks='the page carries the URL that was requested, its links resolve against the wrong base',
    demo=go('ant', 'context io net/http net/url strconv strings testing', CLIENT, '''
func TestDemo(t *testing.T) {
	final, _ := url.Parse("http://a/dir/final")
	f := &Fetcher{Client: demoClient(func(r *http.Request) (*http.Response, error) {
		resp := demoResp(r, 200, "<a href=x>")
		resp.Request = r.Clone(r.Context())
		resp.Request.URL = final
		return resp, nil
	})}
	u, _ := url.Parse("http://a/start")
	p, err := f.Fetch(context.Background(), u)
	if err != nil {
		t.Fatal(err)
	}
	if p.URL.String() != final.String() {
		t.Fatal(p.URL)
	}
}
'''))

bug(id='c09-exponential', property='C09', pkg='.', edits=[('fetcher.go', 'time.Duration(attempt*attempt) * min', '(min / 2) << attempt')],
    needs='three attempts or more', breaks='the wait between the attempts is not attempt squared times the minimum backoff',
    demo=go('ant', 'context io net/http net/url strconv strings testing time', CLIENT, '''
func TestDemo(t *testing.T) {
	var at []time.Time
	f := &Fetcher{MinBackoff: 100 * time.Millisecond, MaxBackoff: 10 * time.Second, MaxAttempts: 4, Client: demoClient(func(r *http.Request) (*http.Response, error) {
		at = append(at, time.Now())
		return demoResp(r, 503, ""), nil
	})}
	u, _ := url.Parse("http://a/")
	f.Fetch(context.Background(), u)
	if len(at) != 4 {
		t.Fatal(len(at))
	}
	if d := at[3].Sub(at[2]); d < 850*time.Millisecond {
		t.Fatalf("third wait is %s", d)
	}
}
'''))

bug(id='c10-robots-missing', property='C10', pkg='internal/robots', edits=[('internal/robots/cache.go', '''	defer resp.Body.Close()

	if resp.StatusCode >= 400 {
		s := &Host{}
		c.lru.Set(url.Host, s)
		return s, nil
	}
''', '''	if resp.StatusCode >= 400 {
		s := &Host{}
		c.lru.Set(url.Host, s)
		return s, nil
	}
	defer resp.Body.Close()
''')],
    needs='a host without a robots.txt', breaks='the body of the answer is not closed and its connection leaks',
    demo=go('robots', 'context io net/http net/url strconv strings testing', CLIENT.replace('demoClient', 'demoUnused'), ROBOTS, '''
type demoBody struct {
	io.Reader
	closed bool
}

func (b *demoBody) Close() error { b.closed = true; return nil }

func TestDemo(t *testing.T) {
	b := &demoBody{Reader: strings.NewReader("gone")}
	c := NewCache(&http.Client{Transport: demoRT(func(r *http.Request) (*http.Response, error) {
		resp := demoResp(r, 404, "")
		resp.Body = b
		return resp, nil
	})}, 10)
	u, _ := url.Parse("http://a/x")
	if ok, err := c.Allowed(context.Background(), Request{URL: u, UserAgent: "bot"}); !ok || err != nil {
		t.Fatal(ok, err)
	}
	if !b.closed {
		t.Fatal("the body is open")
	}
}
'''))

bug(id='c10-page-unread', property='C10', pkg='.', edits=[('page.go', '''	io.Copy(io.Discard, p.body)
	return p.body.Close()''', '''	return p.body.Close()''')],
    needs='a scraper that does not read its page', breaks='the rest of the body is not read, so the connection cannot be reused',
    demo=go('ant', 'context io net/http strconv strings testing', CLIENT, SCRAPER, '''
func TestDemo(t *testing.T) {
	body := strings.NewReader(strings.Repeat("x", 10000))
	eng, err := NewEngine(EngineConfig{
		Scraper:  demoScraper(func(context.Context, *Page) (URLs, error) { return nil, nil }),
		Fetcher:  &Fetcher{Client: demoClient(func(r *http.Request) (*http.Response, error) {
			resp := demoResp(r, 200, "")
			resp.Body = io.NopCloser(body)
			return resp, nil
		})},
		Impolite: true,
	})
	if err != nil {
		t.Fatal(err)
	}
	if err := eng.Run(context.Background(), "http://a/"); err != nil {
		t.Fatal(err)
	}
	if body.Len() > 0 {
		t.Fatalf("%d bytes are left", body.Len())
	}
}
'''))

bug(id='c11-schemeless', property='C11', pkg='.', edits=[('page.go', 'if !u.IsAbs() {', 'if u.Host == "" {')],
    needs='a link that starts with //', breaks='the link has no scheme and is skipped',
    demo=go('ant', 'io net/http net/url strings testing', PAGE, '''
func TestDemo(t *testing.T) {
	p := demoPage("https://a/", `<a href="//b/x">`)
	if l := p.URLs(); len(l) != 1 || l[0].String() != "https://b/x" {
		t.Fatal(l)
	}
}
'''))

bug(id='c11-empty-href', property='C11', pkg='.', edits=[('page.go', 'if href, ok := scan.Attr(a, "href"); ok {', 'if href, ok := scan.Attr(a, "href"); ok && href != "" {')],
    needs='a link with an empty href', breaks='the link to the page itself is dropped',
    demo=go('ant', 'io net/http net/url strings testing', PAGE, '''
func TestDemo(t *testing.T) {
	p := demoPage("https://a/x?q=1", `<a href="">`)
	if l := p.URLs(); len(l) != 1 || l[0].String() != "https://a/x?q=1" {
		t.Fatal(l)
	}
}
'''))

bug(id='c12-base0', property='C12', pkg='.', edits=[('internal/scan/scan.go', 'strconv.ParseUint(str, 10, 64)', 'strconv.ParseUint(str, 0, 64)')],
    needs='a number with a leading zero', breaks='the number is read as octal',
    demo=go('ant', 'io net/http net/url strings testing', PAGE, '''
func TestDemo(t *testing.T) {
	var v struct {
		N uint `css:"b"`
	}
	if err := demoPage("https://a/", `<b>010</b>`).Scan(&v); err != nil || v.N != 10 {
		t.Fatal(v.N, err)
	}
}
'''))

bug(id='c12-float32', property='C12', pkg='.', edits=[('internal/scan/scan.go', 'strconv.ParseFloat(str, 64)', 'strconv.ParseFloat(str, 32)')],
    needs='a float64 with more digits than a float32 holds', breaks='the number is rounded',
    demo=go('ant', 'io net/http net/url strings testing', PAGE, '''
func TestDemo(t *testing.T) {
	var v struct {
		N float64 `css:"b"`
	}
	if err := demoPage("https://a/", `<b>16777217.25</b>`).Scan(&v); err != nil || v.N != 16777217.25 {
		t.Fatal(v.N, err)
	}
}
'''))

bug(id='c13-selector-key', property='C13', pkg='.', edits=[('internal/selectors/selectors.go', '''	if s, ok := c.m.Load(selector); ok {''', '''	key := strings.ToLower(strings.TrimSpace(selector))
	if s, ok := c.m.Load(key); ok {'''), ('internal/selectors/selectors.go', 'c.m.Store(selector, v)', 'c.m.Store(key, v)'), ('internal/selectors/selectors.go', '''	"sync"
''', '''	"strings"
	"sync"
''')],
    needs='two selectors that differ only in the case of a class', breaks='the second is answered with what the first matches',
    demo=go('ant', 'io net/http net/url strings testing', PAGE, '''
func TestDemo(t *testing.T) {
	p := demoPage("https://a/", `<p class="demo">1</p><p class="Demo">2</p>`)
	if a, b := p.Text(".demo"), p.Text(".Demo"); a != "1" || b != "2" {
		t.Fatal(a, b)
	}
}
'''))

bug(id='c13-lastattr', property='C13', pkg='.', edits=[('internal/scan/nodes.go', '''			val, ok = a.Val, true
			break
''', '''			val, ok = a.Val, true
''')],
    needs='an element with a repeated attribute', breaks='the last value is returned',
    demo=go('ant', 'io net/http net/url strings testing', PAGE, '''
func TestDemo(t *testing.T) {
	p := demoPage("https://a/", `<p x=1 x=2>`)
	if v, ok := p.Query("p").Attr("x"); v != "1" || !ok {
		t.Fatal(v, ok)
	}
}
'''))

bug(id='c14-fallback', property='C14', pkg='.', edits=[('json.go', '''			next = append(next, urls...)
		}
		return next, nil
	}
''', '''			next = append(next, urls...)
		}
		if len(next) > 0 {
			return next, nil
		}
	}
''')],
    needs='selectors that match nothing on a page with links', breaks='all links of the page are returned, the crawl leaves its path',
    demo=go('ant', 'context io net/http net/url strings testing', PAGE, '''
func TestDemo(t *testing.T) {
	type item struct {
		T string `css:"b"`
	}
	s := JSON(io.Discard, item{}, "a.next")
	l, err := s.Scrape(context.Background(), demoPage("https://a/", `<b>t</b><a href="/x">x</a>`))
	if err != nil || len(l) != 0 {
		t.Fatal(l, err)
	}
}
'''))

bug(id='c14-shared-value', property='C14', pkg='.', args='-race', edits=[('json.go', '''	var v = reflect.New(j.typ)

''', '''	j.lock.Lock()
	if !j.val.IsValid() {
		j.val = reflect.New(j.typ)
	}
	var v = j.val
	j.lock.Unlock()

'''), ('json.go', '''	selectors []string
	lock ''', '''	selectors []string
	val       reflect.Value
	lock ''')],
    needs='pages scraped one after the other, the second without an item of the first, or two at once', breaks='a line has values of another page',
    demo=go('ant', 'bytes context io net/http net/url strings testing', PAGE, '''
func TestDemo(t *testing.T) {
	type item struct {
		T []string `css:"b"`
	}
	var b bytes.Buffer
	s := JSON(&b, item{})
	s.Scrape(context.Background(), demoPage("https://a/", `<b>t</b>`))
	s.Scrape(context.Background(), demoPage("https://a/", `<i>t</i>`))
	if l := strings.Split(b.String(), "\\n"); len(l) != 3 || l[1] != `{"T":null}` {
		t.Fatal(l)
	}
}
'''))

bug(id='c15-escaped', property='C15', pkg='.', edits=[('matchers.go', 'match.Match(url.Host+normalizePath(url.Path), pattern)', 'match.Match(url.Host+normalizePath(url.EscapedPath()), pattern)')],
    needs='a path with a character that is escaped', breaks='the pattern is compared with the escaped path',
    demo=go('ant', 'net/url testing', '''
func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://a/x%20y")
	if !MatchPattern("a/x?y")(u) {
		t.Fatal("no match")
	}
}
'''))

CACHE = '''
type demoClient func(*http.Request) (*http.Response, error)

func (f demoClient) Do(req *http.Request) (*http.Response, error) { return f(req) }

func demoResp(req *http.Request, status int, body string, hdr ...string) *http.Response {
	h := make(http.Header)
	for j := 0; j+1 < len(hdr); j += 2 {
		h.Add(hdr[j], hdr[j+1])
	}
	return &http.Response{
		Status: strconv.Itoa(status) + " " + http.StatusText(status), StatusCode: status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req,
	}
}

func demoAgo(d time.Duration) string { return time.Now().Add(-d).UTC().Format(http.TimeFormat) }

// demoDo sends a GET and returns the body.
func demoDo(t *testing.T, c *Cache, rawurl string, hdr ...string) (*http.Response, string) {
	t.Helper()
	req, _ := http.NewRequest("GET", rawurl, nil)
	for j := 0; j+1 < len(hdr); j += 2 {
		req.Header.Add(hdr[j], hdr[j+1])
	}
	resp, err := c.Do(req)
	if err != nil {
		t.Fatal(err)
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		t.Fatal(err)
	}
	if err := resp.Body.Close(); err != nil {
		t.Fatal(err)
	}
	return resp, string(b)
}
'''
CI = 'io net/http strconv strings testing time'

bug(id='c16-zero-lifetime', property='C16', pkg='antcache', edits=[('antcache/rfc7234.go', 'return maxage > 0', 'return maxage >= 0')],
    needs='a response with max-age=0 and a later request that accepts stale ones', breaks='a response without a positive lifetime is served',
    demo=go('antcache', CI, CACHE, '''
func TestDemo(t *testing.T) {
	var n int
	c, _ := New(demoClient(func(r *http.Request) (*http.Response, error) {
		n++
		return demoResp(r, 200, "x", "Date", demoAgo(time.Second), "Cache-Control", "max-age=0"), nil
	}))
	demoDo(t, c, "http://a/")
	demoDo(t, c, "http://a/", "Cache-Control", "max-stale")
	if n != 2 {
		t.Fatalf("%d requests", n)
	}
}
'''))

bug(id='c17-expires-now', property='C17', pkg='antcache', edits=[('antcache/rfc7234.go', 'lifetime = exp.Sub(d)', 'lifetime = time.Until(exp)')],
    needs='a response with Expires and no max-age, past half of its life', breaks='the age counts twice, so it is not served while it is fresh',
    demo=go('antcache', CI, CACHE, '''
func TestDemo(t *testing.T) {
	var n int
	c, _ := New(demoClient(func(r *http.Request) (*http.Response, error) {
		n++
		return demoResp(r, 200, "x", "Date", demoAgo(40*time.Minute), "Expires", demoAgo(-20*time.Minute)), nil
	}))
	demoDo(t, c, "http://a/")
	demoDo(t, c, "http://a/")
	if n != 1 {
		t.Fatalf("%d requests", n)
	}
}
'''))

bug(id='c17-minfresh-maxstale', property='C17', pkg='antcache', edits=[('antcache/rfc7234.go', '''			age -= ms
''', '''			if ms > 0 {
				return fresh
			}
''')],
    needs='a request with a bounded max-stale for a response that is older', breaks='max-stale=N is treated like max-stale',
    demo=go('antcache', CI, CACHE, '''
func TestDemo(t *testing.T) {
	var n int
	c, _ := New(demoClient(func(r *http.Request) (*http.Response, error) {
		n++
		return demoResp(r, 200, "x", "Date", demoAgo(time.Hour), "Cache-Control", "max-age=60"), nil
	}))
	demoDo(t, c, "http://a/")
	demoDo(t, c, "http://a/", "Cache-Control", "max-stale=10")
	if n != 2 {
		t.Fatalf("%d requests", n)
	}
}
'''))

bug(id='c18-own-validator', property='C18', pkg='antcache', edits=[('antcache/httpcache.go', '''		if req.Header.Get("If-Modified-Since") == "" {
			req.Header.Set("If-Modified-Since", t)
		}''', '''		req.Header.Set("If-Modified-Since", t)''')],
    needs='a caller that sends its own If-Modified-Since while the stored response is stale', breaks='the header of the caller is replaced',
    demo=go('antcache', CI, CACHE, '''
func TestDemo(t *testing.T) {
	var got []string
	c, _ := New(demoClient(func(r *http.Request) (*http.Response, error) {
		got = append(got, r.Header.Get("If-Modified-Since"))
		return demoResp(r, 200, "x", "Date", demoAgo(time.Hour), "Cache-Control", "max-age=60", "Last-Modified", "Mon, 02 Jan 2006 15:04:05 GMT"), nil
	}))
	demoDo(t, c, "http://a/")
	demoDo(t, c, "http://a/", "If-Modified-Since", "Tue, 03 Jan 2006 15:04:05 GMT")
	if len(got) != 2 || got[1] != "Tue, 03 Jan 2006 15:04:05 GMT" {
		t.Fatal(got)
	}
}
'''))

bug(id='c18-599', property='C18', pkg='antcache', edits=[('antcache/httpcache.go', '''		if reqd.has("stale-if-error") {''', '''		if reqd.has("stale-if-error") && newresp.StatusCode != 501 {''')],
    needs='stale-if-error and an origin that answers the validation with 501', breaks='the caller gets the error',
    demo=go('antcache', CI, CACHE, '''
func TestDemo(t *testing.T) {
	var n int
	c, _ := New(demoClient(func(r *http.Request) (*http.Response, error) {
		if n++; n > 1 {
			return demoResp(r, 501, "no"), nil
		}
		return demoResp(r, 200, "x", "Date", demoAgo(time.Hour), "Cache-Control", "max-age=60"), nil
	}))
	demoDo(t, c, "http://a/")
	if resp, body := demoDo(t, c, "http://a/", "Cache-Control", "stale-if-error"); body != "x" || resp.StatusCode != 200 {
		t.Fatal(resp.StatusCode, body)
	}
}
'''))

bug(id='c19-shared-buffer', property='C19', pkg='antcache', edits=[('antcache/memstore.go', '''		return v.([]byte), nil''', '''		b := v.([]byte)
		if len(b) > 64<<10 {
			b = b[:64<<10]
		}
		return b, nil''')],
    needs='a response of more than 64 kB', breaks='it is served truncated',
    demo=go('antcache', CI, CACHE, '''
func TestDemo(t *testing.T) {
	want := strings.Repeat("0123456789", 10000)
	c, _ := New(demoClient(func(r *http.Request) (*http.Response, error) {
		return demoResp(r, 200, want, "Date", demoAgo(time.Second), "Cache-Control", "max-age=60"), nil
	}))
	for i := 0; i < 2; i++ {
		req, _ := http.NewRequest("GET", "http://a/", nil)
		resp, err := c.Do(req)
		if err != nil {
			t.Fatal(err)
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if string(b) != want {
			t.Fatal(len(b))
		}
	}
}
'''))

bug(id='c20-query-order', property='C20', pkg='antcache', edits=[('antcache/utils.go', '''		req.Method + ":" + req.URL.String(),
''', '''		req.Method + ":" + req.URL.Scheme + "://" + req.URL.Host + req.URL.EscapedPath() + "?" + req.URL.Query().Encode(),
''')],
    needs='two URLs whose queries decode to the same parameters', breaks='a URL is answered with the response of another',
    demo=go('antcache', CI, CACHE, '''
func TestDemo(t *testing.T) {
	c, _ := New(demoClient(func(r *http.Request) (*http.Response, error) {
		return demoResp(r, 200, r.URL.RawQuery, "Date", demoAgo(time.Second), "Cache-Control", "max-age=60"), nil
	}))
	demoDo(t, c, "http://a/?a=1&b=2")
	if _, body := demoDo(t, c, "http://a/?b=2&a=1"); body != "b=2&a=1" {
		t.Fatal(body)
	}
}
'''))

DISK = '''
func demoOpen(t *testing.T, dir string, opts ...DiskOption) *Diskstore {
	t.Helper()
	d, err := Open(dir, opts...)
	if err != nil {
		t.Fatal(err)
	}
	if err := d.Wait(context.Background()); err != nil {
		t.Fatal(err)
	}
	return d
}
'''
bug(id='c24-load-unlocked', property='C24', pkg='antcache', edits=[('antcache/disk.go', '''	d.readymu.RLock()
	defer d.readymu.RUnlock()

	if f, ok := d.ready[key]; ok {''', '''	d.readymu.RLock()
	f, ok := d.ready[key]
	d.readymu.RUnlock()

	if ok {''')],
    needs='a sweep that removes an entry while it is being loaded', breaks='the load fails instead of reporting an absent entry',
    demo=go('antcache', 'context sync testing time', DISK, '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	d := demoOpen(t, t.TempDir(), SweepEvery(0), Maxsize(1))
	defer d.Close()
	var wg sync.WaitGroup
	stop := make(chan struct{})
	errs := make(chan error, 8)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if _, err := d.Load(ctx, 1); err != nil {
					select {
					case errs <- err:
					default:
					}
					return
				}
			}
		}()
	}
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end) && len(errs) == 0; {
		if err := d.Store(ctx, 1, []byte("value")); err != nil {
			t.Fatal(err)
		}
		d.sweep()
	}
	close(stop)
	wg.Wait()
	select {
	case err := <-errs:
		t.Fatal(err)
	default:
	}
}
'''))

bug(id='c21-warm-overrides', property='C21', pkg='antcache', edits=[('antcache/disk.go', '''		if _, ok := d.ready[f.key]; !ok {
			d.ready[f.key] = f
		}
''', '''		d.ready[f.key] = f
''')],
    needs='a store while the directory is read at startup, after its key was seen', breaks='the entry keeps the age of the old file, and a sweep removes the new value',
    demo=go('antcache', 'context os path/filepath sync testing time', '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	dir := t.TempDir()
	old := time.Now().Add(-48 * time.Hour)
	// Foreign files make reading the directory slow.
	for i := 0; i < 3000; i++ {
		os.WriteFile(filepath.Join(dir, "f"+time.Duration(i).String()), nil, 0600)
	}
	for try := 0; try < 20; try++ {
		for k := 0; k < 10; k++ {
			name := filepath.Join(dir, string(rune('0'+k)))
			os.WriteFile(name, []byte("old"), 0600)
			os.Chtimes(name, old, old)
		}
		d, err := Open(dir, SweepEvery(0), Maxage(24*time.Hour))
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for k := 0; k < 10; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(try) * 500 * time.Microsecond)
				d.Store(ctx, uint64(k), []byte("new"))
			}()
		}
		wg.Wait()
		d.Wait(ctx)
		d.sweep()
		for k := 0; k < 10; k++ {
			if v, err := d.Load(ctx, uint64(k)); string(v) != "new" || err != nil {
				t.Fatalf("try %d key %d: %q %v", try, k, v, err)
			}
		}
		d.Close()
	}
}
'''))

bug(id='c22-nodirsync', property='C22', pkg='antcache', edits=[('antcache/disk.go', '''	if err := d.dir.Sync(); err != nil {
		return fmt.Errorf("antcache: disk fsync - %w", err)
	}

''', '')],
    needs='a machine that stops after a store returned', breaks='the rename may not be on the disk, a value whose store succeeded is lost',
    demo=go('antcache', 'context testing', DISK.replace('t.Helper()', 't.Helper()'), '''
func TestDemo(t *testing.T) {
	d := demoOpen(t, t.TempDir(), SweepEvery(0))
	d.dir.Close() // makes the fsync of the directory fail
	if err := d.Store(context.Background(), 1, []byte("v")); err == nil {
		t.Fatal("the directory is not synced")
	}
}
'''))
bug(id='c23-tmp-left', property='C23', pkg='antcache', edits=[('antcache/disk.go', '''	if err := d.add(key, f); err != nil {
		cleanup()
		return''', '''	if err := d.add(key, f); err != nil {
		f.Close()
		return''')],
    needs='a rename that fails', breaks='the temporary file stays in the directory',
    demo=go('antcache', 'context os path/filepath testing time', DISK, '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := demoOpen(t, dir)
	defer d.Close()
	os.MkdirAll(filepath.Join(dir, "7", "x"), 0700)
	if err := d.Store(context.Background(), 7, []byte("v")); err == nil {
		t.Fatal("no error")
	}
	if l, _ := filepath.Glob(filepath.Join(dir, "*.tmp")); len(l) != 0 {
		t.Fatal(l)
	}
	_ = time.Now
}
'''))


BROWSER = '''
// demoBrowser is a browser that answers every command, unless fail is its method.
type demoBrowser struct {
	srv  *httptest.Server
	html string
	fail string
	hook func(method string, params json.RawMessage)
	mu   sync.Mutex
	open int
	tabs int
}

func newDemoBrowser(t *testing.T) *demoBrowser {
	b := &demoBrowser{html: "<html></html>"}
	mux := http.NewServeMux()
	b.srv = httptest.NewServer(mux)
	t.Cleanup(b.srv.Close)
	mux.HandleFunc("/json/version", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "{}") })
	mux.HandleFunc("/json/close/", func(w http.ResponseWriter, r *http.Request) {})
	mux.HandleFunc("/json/new", func(w http.ResponseWriter, r *http.Request) {
		b.mu.Lock()
		b.tabs++
		n := b.tabs
		b.mu.Unlock()
		fmt.Fprintf(w, `{"id": "%d", "type": "page", "webSocketDebuggerUrl": "ws://%s/tab/%d"}`, n, r.Host, n)
	})
	mux.HandleFunc("/tab/", func(w http.ResponseWriter, r *http.Request) {
		up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
		ws, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer ws.Close()
		b.mu.Lock()
		b.open++
		b.mu.Unlock()
		defer func() {
			b.mu.Lock()
			b.open--
			b.mu.Unlock()
		}()
		for {
			var m struct {
				ID     int
				Method string
				Params json.RawMessage
			}
			if err := ws.ReadJSON(&m); err != nil {
				return
			}
			if b.hook != nil {
				b.hook(m.Method, m.Params)
			}
			if m.Method == b.fail {
				ws.WriteJSON(map[string]any{"id": m.ID, "error": map[string]any{"code": 1, "message": "fails"}})
				continue
			}
			var res any = map[string]any{}
			switch m.Method {
			case "Page.navigate":
				res = map[string]any{"frameId": "F", "loaderId": "L"}
			case "DOM.getDocument":
				res = map[string]any{"root": map[string]any{"nodeId": 1, "backendNodeId": 1, "nodeType": 9, "nodeName": "#document", "localName": "", "nodeValue": ""}}
			case "DOM.getOuterHTML":
				res = map[string]any{"outerHTML": b.html}
			case "Storage.getCookies":
				res = map[string]any{"cookies": []any{}}
			}
			ws.WriteJSON(map[string]any{"id": m.ID, "result": res})
			if m.Method == "Page.navigate" {
				var p struct{ URL string }
				json.Unmarshal(m.Params, &p)
				ws.WriteJSON(map[string]any{"method": "Network.responseReceived", "params": map[string]any{
					"requestId": "1", "loaderId": "L", "frameId": "F", "timestamp": 1, "type": "Document",
					"response": map[string]any{"url": p.URL, "status": 200, "statusText": "OK", "headers": map[string]string{}, "mimeType": "text/html",
						"connectionReused": false, "connectionId": 1, "encodedDataLength": 1, "securityState": "neutral", "protocol": "http/1.1"},
				}})
				ws.WriteJSON(map[string]any{"method": "Page.domContentEventFired", "params": map[string]any{"timestamp": 2}})
			}
		}
	})
	return b
}
'''
BI = 'encoding/json fmt github.com/gorilla/websocket io net/http net/http/httptest sync testing'

bug(id='c25-rune-length', property='C25', pkg='antcdp', edits=[('antcdp/tx.go', '''		size    = len(content)
''', '''		size    = utf8.RuneCountInString(content)
'''), ('antcdp/tx.go', '''	"strings"

''', '''	"strings"
	"unicode/utf8"

''')],
    needs='a document with characters outside of ASCII', breaks='the length of the response is not that of its body',
    demo=go('antcdp', BI, BROWSER, '''
func TestDemo(t *testing.T) {
	b := newDemoBrowser(t)
	b.html = "<p>h\\u00e9llo</p>"
	c := &Client{Addr: b.srv.URL}
	req, _ := http.NewRequest("GET", "http://a/", nil)
	resp, err := c.Do(req)
	if err != nil {
		t.Fatal(err)
	}
	body, _ := io.ReadAll(resp.Body)
	if int64(len(body)) != resp.ContentLength {
		t.Fatal(len(body), resp.ContentLength)
	}
}
'''))

bug(id='c25-cookies-late', property='C25', pkg='antcdp', edits=[('antcdp/tx.go', '''	if err := tx.setCookies(ctx); err != nil {
		return err
	}

''', ''), ('antcdp/tx.go', '''	if errmsg := reply.ErrorText; errmsg != nil {
		return nil, fmt.Errorf("antcdp: navigate - %s", *errmsg)
	}
''', '''	if errmsg := reply.ErrorText; errmsg != nil {
		return nil, fmt.Errorf("antcdp: navigate - %s", *errmsg)
	}

	if err := tx.setCookies(ctx); err != nil {
		return nil, err
	}
''')],
    needs='a request with a cookie', breaks='the cookie is set after the navigation started, so the document may be requested without it',
    demo=go('antcdp', BI, BROWSER, '''
func TestDemo(t *testing.T) {
	b := newDemoBrowser(t)
	var steps []string
	b.hook = func(m string, _ json.RawMessage) { steps = append(steps, m) }
	c := &Client{Addr: b.srv.URL}
	req, _ := http.NewRequest("GET", "http://a/", nil)
	req.AddCookie(&http.Cookie{Name: "a", Value: "b"})
	if _, err := c.Do(req); err != nil {
		t.Fatal(err)
	}
	for _, s := range steps {
		if s == "Storage.setCookies" {
			return
		}
		if s == "Page.navigate" {
			t.Fatal(steps)
		}
	}
}
'''))

bug(id='c26-close-order', property='C26', pkg='antcdp', edits=[('antcdp/tx.go', '''		tx.conn,
		tx.events.res,
		tx.events.ready,
	}

	for _, c := range closers {
		if c != nil {
			if e := c.Close(); e != nil {
				err = multierror.Append(err, e)
			}
		}
	}
''', '''		tx.events.ready,
		tx.events.res,
		tx.conn,
	}

	for _, c := range closers {
		if c == nil {
			break
		}
		if e := c.Close(); e != nil {
			err = multierror.Append(err, e)
		}
	}
''')],
    needs='a request that fails while its tab is set up', breaks='the connection to the tab stays open',
    demo=go('antcdp', BI + ' time', BROWSER, '''
func TestDemo(t *testing.T) {
	b := newDemoBrowser(t)
	b.fail = "Network.setExtraHTTPHeaders"
	c := &Client{Addr: b.srv.URL}
	req, _ := http.NewRequest("GET", "http://a/", nil)
	if _, err := c.Do(req); err == nil {
		t.Fatal("no error")
	}
	for i := 0; i < 50; i++ {
		time.Sleep(100 * time.Millisecond)
		b.mu.Lock()
		n := b.open
		b.mu.Unlock()
		if n == 0 {
			return
		}
	}
	t.Fatal("the connection is open")
}
'''))

bug(id='c27-lookup', property='C27', pkg='.', args='-race', edits=[('internal/scan/scanner.go', '''	s.mutex.RLock()
	f, ok := s.types[t]
	s.mutex.RUnlock()
	return f, ok''', '''	f, ok := s.types[t]
	return f, ok''')],
    needs='two goroutines scanning, one of them a new type', breaks='the map of types is read and written at the same time',
    demo=go('ant', 'io net/http net/url strings sync testing', PAGE, '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	run := func(dst func() any) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < 20; i++ {
				demoPage("http://a/", "<b>1</b>").Scan(dst())
			}
		}()
	}
	run(func() any { return &struct { A string `css:"b"` }{} })
	run(func() any { return &struct { B string `css:"b"` }{} })
	run(func() any { return &struct { C string `css:"b"` }{} })
	close(start)
	wg.Wait()
}
'''))

bug(id='c27-lazy-client', property='C27', pkg='.', args='-race', edits=[('fetcher.go', '''	if f.Client != nil {
		return f.Client
	}
	return DefaultClient
''', '''	if f.Client == nil {
		f.Client = DefaultClient
	}
	return f.Client
''')],
    needs='a fetcher without a client used by two goroutines', breaks='both write its client',
    demo=go('ant', 'context io net/http net/url strings sync testing', '''
type demoRT func(*http.Request) (*http.Response, error)

func (f demoRT) RoundTrip(req *http.Request) (*http.Response, error) { return f(req) }

func TestDemo(t *testing.T) {
	prev := DefaultClient.Transport
	defer func() { DefaultClient.Transport = prev }()
	DefaultClient.Transport = demoRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Request: r}, nil
	})
	f := &Fetcher{}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f.Fetch(context.Background(), &url.URL{Scheme: "http", Host: "a", Path: "/"})
		}()
	}
	wg.Wait()
}
'''))

bug(id='c28-any-error', property='C28', pkg='anttest', edits=[('anttest/queue.go', '''		err = queue.Enqueue(ctx, urls)
		assert.Equal(io.EOF, err)''', '''		err = queue.Enqueue(ctx, urls)
		assert.Error(err)''')],
    needs='a queue that reports another error than end-of-file after it was closed', breaks='the suite passes for it',
    demo=go('anttest', 'context errors github.com/yields/ant io testing', '''
type demoQueue struct {
	ant.Queue
}

func (q demoQueue) Enqueue(ctx context.Context, urls ant.URLs) error {
	err := q.Queue.Enqueue(ctx, urls)
	if err == io.EOF {
		return errors.New("closed")
	}
	return err
}

func TestDemo(t *testing.T) {
	ok := testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "suite", F: func(t *testing.T) {
		TestQueue(t, func(testing.TB) ant.Queue { return demoQueue{ant.MemoryQueue(1)} })
	}}})
	if ok {
		t.Fatal("the suite passes")
	}
}
'''))

bug(id='c29-sleep', property='C29', pkg='.', edits=[('fetcher.go', '''	var timer = time.NewTimer(dur)
	defer timer.Stop()

	select {
	case <-timer.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}''', '''	time.Sleep(dur)
	return ctx.Err()''')],
    needs='a cancellation while an attempt waits to be repeated', breaks='the crawl ends only after the wait',
    demo=go('ant', 'context io net/http net/url strconv strings testing time', CLIENT, '''
func TestDemo(t *testing.T) {
	f := &Fetcher{MinBackoff: 3 * time.Second, MaxBackoff: 4 * time.Second, Client: demoClient(func(r *http.Request) (*http.Response, error) {
		return demoResp(r, 503, ""), nil
	})}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	start := time.Now()
	f.Fetch(ctx, &url.URL{Scheme: "http", Host: "a", Path: "/"})
	if d := time.Since(start); d > 2*time.Second {
		t.Fatal(d)
	}
}
'''))

bug(id='c29-status-500', property='C29', pkg='.', edits=[('fetcher.go', '''		err.Status == 504 || // Gateway Timeout.
''', '''		err.Status >= 504 || // Gateway Timeout and above.
''')],
    needs='a page that answers 505 or above', breaks='an error that is not temporary is retried',
    demo=go('ant', 'context io net/http net/url strconv strings testing time', CLIENT, '''
func TestDemo(t *testing.T) {
	var n int
	f := &Fetcher{MinBackoff: time.Millisecond, MaxBackoff: 2 * time.Millisecond, Client: demoClient(func(r *http.Request) (*http.Response, error) {
		n++
		return demoResp(r, 505, ""), nil
	})}
	f.Fetch(context.Background(), &url.URL{Scheme: "http", Host: "a", Path: "/"})
	if n != 1 {
		t.Fatal(n)
	}
}
'''))

bug(id='c08-compact', property='C08', pkg='.', edits=[('queue.go', '''	url := mq.pending[0]
	mq.pending = mq.pending[1:]
''', '''	url := mq.pending[mq.head]
	mq.pending[mq.head] = nil
	mq.head++

	// Release the memory of the dequeued URLs.
	if mq.head > 512 && mq.head*2 > len(mq.pending) {
		n := copy(mq.pending, mq.pending[mq.head:])
		mq.pending = mq.pending[:n]
	}
	if mq.head >= len(mq.pending) {
		mq.pending, mq.head = mq.pending[:0], 0
	}
'''), ('queue.go', 'for len(mq.pending) == 0 {', 'for len(mq.pending) == mq.head {'), ('queue.go', '''	mq.stopped = true
	mq.outstanding -= len(mq.pending)
	mq.pending = mq.pending[:0]
''', '''	mq.stopped = true
	mq.outstanding -= len(mq.pending) - mq.head
	mq.pending, mq.head = mq.pending[:0], 0
'''), ('queue.go', '''	outstanding int
}''', '''	outstanding int
	head        int
}''')],
    needs='a backlog of more than a thousand URLs', breaks='the head is not moved when the backlog is compacted, so URLs are skipped',
    demo=go('ant', 'context net/url strconv testing time', '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	q := MemoryQueue(1)
	var urls URLs
	for i := 0; i < 2000; i++ {
		urls = append(urls, &url.URL{Path: strconv.Itoa(i)})
	}
	q.Enqueue(ctx, urls)
	time.AfterFunc(5*time.Second, func() { q.Close(ctx) })
	for i := 0; i < 2000; i++ {
		u, err := q.Dequeue(ctx)
		if err != nil || u.Path != strconv.Itoa(i) {
			t.Fatal(i, u, err)
		}
	}
}
'''))
