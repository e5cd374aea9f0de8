# Planted bugs, third batch. See plant.py.
import runpy
_b2 = runpy.run_path('/verif/tools/specs/b2.py')
CLIENT, SCRAPER, CACHE, CI, DISK, go = (_b2[k] for k in ('CLIENT', 'SCRAPER', 'CACHE', 'CI', 'DISK', 'go'))
bugs = []
def bug(**k): bugs.append(k)

bug(id='c09-too-early', property='C09', pkg='.', edits=[('fetcher.go', 'err.Status == 429 // Too many requests.', 'err.Status == 429 || // Too many requests.\n\t\terr.Status == 425 // Too early.')],
    needs='a response with status 425', breaks='the request is repeated, and the error does not carry the status as the first answer',
    demo=go('ant', 'context io net/http strconv strings testing', CLIENT, '''
func TestDemo(t *testing.T) {
	n := 0
	f := &Fetcher{Client: demoClient(func(r *http.Request) (*http.Response, error) { n++; return demoResp(r, 425, "x"), nil }), MaxAttempts: 2}
	u := demoURL("http://a/")
	if _, err := f.Fetch(context.Background(), u); err == nil || n != 1 {
		t.Fatal(err, n)
	}
}

func demoURL(s string) *URL {
	req, _ := http.NewRequest("GET", s, nil)
	return req.URL
}
'''))

bug(id='c08-same-twice', property='C08', pkg='.', edits=[('queue.go', '	mq.pending = append(mq.pending, urls...)\n', '''	for j, u := range urls {
		if j == 0 || u != urls[j-1] {
			mq.pending = append(mq.pending, u)
		}
	}
''')],
    needs='a batch in which the same URL value follows itself', breaks='the second is never delivered, and waiting never ends',
    demo=go('ant', 'context net/url testing time', '''
func TestDemo(t *testing.T) {
	q := MemoryQueue(4)
	u := &url.URL{Scheme: "http", Host: "a"}
	ctx := context.Background()
	if err := q.Enqueue(ctx, URLs{u, u}); err != nil {
		t.Fatal(err)
	}
	time.AfterFunc(5*time.Second, func() { q.Close(ctx) })
	for n := 0; n < 2; n++ {
		if got, err := q.Dequeue(ctx); err != nil || got.String() != u.String() {
			t.Fatal(n, got, err)
		}
	}
}
'''))

bug(id='c30-load-timeout', property='C30', pkg='antcache', edits=[('antcache/httpcache.go', '''	buf, err := c.storage.Load(ctx, key)
	if err != nil {''', '''	buf, err := c.storage.Load(ctx, key)
	if err != nil && !errors.Is(err, context.DeadlineExceeded) {''')],
    needs='a storage that fails with a timeout', breaks='the failure is hidden, the request goes to the origin',
    demo=go('antcache', 'context '+CI, CACHE, '''
type demoStore struct{ memstore }

func (s *demoStore) Load(context.Context, uint64) ([]byte, error) { return nil, context.DeadlineExceeded }

func TestDemo(t *testing.T) {
	c, err := New(demoClient(func(r *http.Request) (*http.Response, error) { return demoResp(r, 200, "x"), nil }), WithStorage(&demoStore{}))
	if err != nil {
		t.Fatal(err)
	}
	req, _ := http.NewRequest("GET", "http://a/", nil)
	if _, err := c.Do(req); err == nil {
		t.Fatal("no error", time.Now())
	}
}
'''))

bug(id='c30-store-lost', property='C30', pkg='antcache', edits=[('antcache/cachereader.go', '		if err := cr.store(cr.ctx, cr.key, buf); err != nil {', '		if err := cr.store(cr.ctx, cr.key, buf); err != nil && cerr == nil {')],
    needs='a body whose Close fails and a storage that fails', breaks='the error of the storage is lost',
    demo=go('antcache', 'context errors '+CI, CACHE, '''
type demoStore struct{ memstore }

var errDemo = errors.New("full")

func (s *demoStore) Store(context.Context, uint64, []byte) error { return errDemo }

type demoBody struct{ io.Reader }

func (demoBody) Close() error { return io.ErrClosedPipe }

func TestDemo(t *testing.T) {
	c, err := New(demoClient(func(r *http.Request) (*http.Response, error) {
		resp := demoResp(r, 200, "x", "Date", demoAgo(0), "Cache-Control", "max-age=60")
		resp.Body = demoBody{resp.Body}
		return resp, nil
	}), WithStorage(&demoStore{}))
	if err != nil {
		t.Fatal(err)
	}
	req, _ := http.NewRequest("GET", "http://a/", nil)
	resp, err := c.Do(req)
	if err != nil {
		t.Fatal(err)
	}
	io.ReadAll(resp.Body)
	if err := resp.Body.Close(); !errors.Is(err, errDemo) || !strings.Contains(strconv.Quote(err.Error()), "closed pipe") {
		t.Fatal(err)
	}
}
'''))

bug(id='c32-drain', property='C32', pkg='antcache', edits=[('page.go', '	io.Copy(io.Discard, p.body)\n', '	io.CopyN(io.Discard, p.body, 64<<10)\n')],
    needs='a scraper that leaves more than 64 kB of a page unread', breaks='the page is not stored in the cache, and its connection is not reused',
    demo='package antcache_test\n\nimport (\n%s)\n' % ''.join('\t"%s"\n' % i for i in 'context io net/http net/http/httptest strings testing github.com/yields/ant github.com/yields/ant/antcache'.split()) + '''
type demoScraper struct{}

func (demoScraper) Scrape(context.Context, *ant.Page) (ant.URLs, error) { return nil, nil }

func TestDemo(t *testing.T) {
	n := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		w.Header().Set("Cache-Control", "max-age=600")
		io.WriteString(w, strings.Repeat("<p>text</p>", 40000))
	}))
	defer srv.Close()
	cache, err := antcache.New(srv.Client())
	if err != nil {
		t.Fatal(err)
	}
	for j := 0; j < 2; j++ {
		eng, err := ant.NewEngine(ant.EngineConfig{Scraper: demoScraper{}, Fetcher: &ant.Fetcher{Client: cache}, Impolite: true})
		if err != nil {
			t.Fatal(err)
		}
		if err := eng.Run(context.Background(), srv.URL+"/"); err != nil {
			t.Fatal(err)
		}
	}
	if n != 1 {
		t.Fatalf("%d requests", n)
	}
}
''')

bug(id='c31-close-running', property='C31', pkg='antcache', edits=[('antcache/disk.go', '''	close(d.stop)
	d.wg.Wait()
''', '''	close(d.stop)
	<-d.warm
''')],
    needs='a close while a sweep is running', breaks='the sweep goes on after Close returned, and removes files that belong to the next store',
    demo=go('antcache', 'context os path/filepath testing time', DISK, '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := demoOpen(t, dir, SweepEvery(time.Millisecond), Maxage(time.Hour))
	if err := d.Store(context.Background(), 1, []byte("x")); err != nil {
		t.Fatal(err)
	}
	// the clock is read at the begin of a sweep, which is slow.
	began, once := make(chan struct{}), false
	d.readymu.Lock()
	d.now = func() time.Time {
		if !once {
			once = true
			close(began)
			time.Sleep(200 * time.Millisecond)
		}
		return time.Now().Add(48 * time.Hour)
	}
	d.readymu.Unlock()
	<-began
	if err := d.Close(); err != nil {
		t.Fatal(err)
	}
	_, before := os.Stat(filepath.Join(dir, "1"))
	time.Sleep(400 * time.Millisecond)
	if _, after := os.Stat(filepath.Join(dir, "1")); (before == nil) != (after == nil) {
		t.Fatal("removed after Close")
	}
}
'''))

bug(id='c04-day-old', property='C04', pkg='internal/robots', edits=[('internal/robots/cache.go', '1 * time.Hour', '24 * time.Hour')],
    needs='a crawl of several hours in which the robots.txt of a host changes', breaks='a robots.txt is relied on for a day instead of an hour',
    demo=go('robots', 'context io net/http net/url strings testing testing/synctest time', '', '''
type demoTrip func(*http.Request) (*http.Response, error)

func (f demoTrip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		file := "User-agent: *\\nDisallow: /y\\n"
		c := NewCache(&http.Client{Transport: demoTrip(func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(file)), Request: r}, nil
		})}, 10)
		u, _ := url.Parse("http://a.test/x")
		ok, err := c.Allowed(context.Background(), Request{URL: u, UserAgent: "ant"})
		if !ok || err != nil {
			t.Fatal(ok, err)
		}
		file = "User-agent: *\\nDisallow: /x\\n"
		time.Sleep(2 * time.Hour)
		ok, err = c.Allowed(context.Background(), Request{URL: u, UserAgent: "ant"})
		if ok || err != nil {
			t.Fatal("an old robots.txt is relied on", ok, err)
		}
	})
}
'''))

bug(id='c24-future', property='C24', pkg='antcache', edits=[('antcache/disk.go', 'if now.Sub(f.mtime) > d.maxage {', 'if now.Sub(f.mtime).Abs() > d.maxage {')],
    needs='an entry whose file is dated more than the maximal age in the future, because the clock was set back', breaks='the entry is removed although it is not expired',
    demo=go('antcache', 'context os path/filepath testing time', DISK, '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := demoOpen(t, dir)
	if err := d.Store(context.Background(), 1, []byte("x")); err != nil {
		t.Fatal(err)
	}
	if err := d.Close(); err != nil {
		t.Fatal(err)
	}
	at := time.Now().Add(2 * time.Hour)
	if err := os.Chtimes(filepath.Join(dir, "1"), at, at); err != nil {
		t.Fatal(err)
	}
	d = demoOpen(t, dir, SweepEvery(10*time.Millisecond), Maxage(time.Hour))
	defer d.Close()
	time.Sleep(300 * time.Millisecond)
	if v, err := d.Load(context.Background(), 1); err != nil || string(v) != "x" {
		t.Fatalf("%q %v", v, err)
	}
}
'''))

bug(id='c23-store-readonly', property='C23', pkg='antcache', edits=[('antcache/disk.go', '	if err := f.Sync(); err != nil {', '	if err := f.Sync(); err != nil && !errors.Is(err, os.ErrPermission) && !errors.Is(err, os.ErrInvalid) {')],
    needs='an fsync that fails with a certain kind of error', breaks='the store reports success although the entry may not be on disk',
    demo=None)
bugs.pop()
