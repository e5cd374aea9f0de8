package core

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C14",
		Rule: "JSON scrapers of generated types (also pointers, types that cannot be scanned, types that are not structs, nil) with random selectors scrape up to 16 generated pages, some unreadable or large, from up to 6 goroutines, " +
			"into a writer that takes its time and may fail, on a seeded schedule; non-trivial: at least 3 lines written by at least 2 goroutines",
		Assumptions: []string{"after the writer failed further scrapes may fail too"},
		Subs: []vf.Sub{
			vf.S("scrape", 30000, 900000, genC14, runC14),
			vf.S("large", 800, 20000, genC14l, runC14),
		},
	})
}

type c14P struct {
	Docs   []docP       `json:"docs"`
	Broken []int        `json:"broken"` // bytes after which the body fails, -1: never
	Type   typeP        `json:"type"`
	Form   string       `json:"form"` // value, ptr, ptrptr, nil
	Sels   []selP       `json:"sels"`
	Gors   int          `json:"gors"`
	Fail   int          `json:"fail"` // which write fails, -1: none
	Part   int          `json:"part"` // bytes that a failing write takes
	Sched  zsched.Sched `json:"sched"`
}

func genC14(t *rapid.T) *c14P {
	p := &c14P{Fail: -1, Form: "value"}
	n := uni(t, 1, 8, "docs")
	for i := 0; i < n; i++ {
		p.Docs = append(p.Docs, genPlainDoc(t))
		b := -1
		if oneIn(t, 12, "broken") {
			b = uni(t, 0, 40, "at")
		}
		p.Broken = append(p.Broken, b)
	}
	switch uni(t, 0, 9, "tkind") {
	case 8:
		p.Type = genStruct(t, 2, false)
	case 9:
		p.Type = genType(t, 1, false)
	default:
		p.Type = genStruct(t, uni(t, 1, 3, "depth"), true)
	}
	if oneIn(t, 3, "form") {
		p.Form = rapid.SampledFrom([]string{"ptr", "ptr", "ptrptr", "nil"}).Draw(t, "formv")
	}
	n = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "nsels")
	for i := 0; i < n; i++ {
		s := genC11Sel(t)
		if i > 0 && oneIn(t, 4, "again") {
			s = p.Sels[0]
		}
		p.Sels = append(p.Sels, s)
	}
	p.Gors = uni(t, 1, 4, "gors")
	if oneIn(t, 4, "faulty") {
		p.Fail = uni(t, 0, len(p.Docs)-1, "fail")
		p.Part = rapid.SampledFrom([]int{0, 1, 5, 1000}).Draw(t, "part")
	}
	p.Sched = vf.GenSched(t)
	return p
}

// genC14l has long lines from several goroutines.
func genC14l(t *rapid.T) *c14P {
	p := genC14(t)
	p.Type, p.Form = genStruct(t, uni(t, 1, 3, "ldepth"), true), "value"
	for i := range p.Docs {
		p.Docs[i].Muts = nil
		if oneIn(t, 3, "otherwise") {
			enlarge(t, &p.Docs[i], 30)
		} else {
			p.Docs[i].Long = pick(t, "longtext2", 300, 1100, 2100, 4200, 9000, 40000, 70000)
		}
	}
	p.Docs = append(p.Docs, p.Docs...)
	p.Broken = append(p.Broken, p.Broken...)
	p.Gors = uni(t, 2, 6, "lgors")
	return p
}

var errWriter = errors.New("the writer broke")

// slowWriter takes what it is given in pieces and fails once.
type slowWriter struct {
	mu     sync.Mutex
	buf    bytes.Buffer
	calls  int
	failAt int
	part   int
	failed bool
}

func (w *slowWriter) put(p []byte) {
	w.mu.Lock()
	w.buf.Write(p)
	w.mu.Unlock()
}

func (w *slowWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	call := w.calls
	w.calls++
	w.mu.Unlock()
	n := len(p)
	if call == w.failAt {
		n = min(w.part, len(p)-1)
	}
	for i := 0; i < n; {
		k := min(1+len(p)/3, n-i)
		w.put(p[i : i+k])
		i += k
		zsched.P()
	}
	if call == w.failAt {
		w.mu.Lock()
		w.failed = true
		w.mu.Unlock()
		return n, errWriter
	}
	return n, nil
}

type c14Res struct {
	gor  int
	urls ant.URLs
	err  error
	ran  bool
}

func (p *c14P) arg() (arg any, structp bool) {
	switch p.Form {
	case "nil":
		return nil, false
	case "ptr":
		v := reflect.New(p.Type.goType())
		return v.Interface(), v.Elem().Kind() == reflect.Struct
	case "ptrptr":
		v := reflect.New(p.Type.goType())
		vv := reflect.New(v.Type())
		vv.Elem().Set(v)
		return vv.Interface(), false
	}
	v := reflect.New(p.Type.goType()).Elem()
	return v.Interface(), v.Kind() == reflect.Struct
}

func runC14(c *vf.Case, p *c14P) error {
	return vf.Bubble(c, p.Sched, func() error {
		const base = "http://base.test/d/e"
		u, _ := url.Parse(base)
		var pages, twins []*ant.Page
		var refs []*refDoc
		for i, d := range p.Docs {
			b := d.bytes()
			ref, err := parseRef(b)
			if err != nil {
				return nil
			}
			refs = append(refs, ref)
			for j := 0; j < 2; j++ {
				web := newWeb(func(reqT) reply {
					if at := p.Broken[i]; at >= 0 {
						return reply{status: 200, reader: &flakyReader{bytes.NewReader(b), at % (len(b) + 1)}}
					}
					return reply{status: 200, body: b}
				})
				pg, err := (&ant.Fetcher{Client: web}).Fetch(context.Background(), u)
				if err != nil {
					return err
				}
				if j == 0 {
					pages = append(pages, pg)
				} else {
					twins = append(twins, pg)
				}
			}
		}
		arg, structp := p.arg()
		var sels []string
		for _, s := range p.Sels {
			sels = append(sels, s.String())
		}
		w := &slowWriter{failAt: p.Fail, part: p.Part}
		scr := ant.JSON(w, arg, sels...)
		res := make([]c14Res, len(pages))
		var wg sync.WaitGroup
		for g := 0; g < p.Gors; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := g; i < len(pages); i += p.Gors {
					us, err := scr.Scrape(context.Background(), pages[i])
					res[i] = c14Res{g, us, err, true}
				}
			}()
		}
		wg.Wait()
		out := w.buf.String()

		// What every page has to give.
		gt := p.Type.goType()
		var lines []string // of the scrapes that returned no error
		gors := map[int]bool{}
		maybe := map[string]int{}
		writerErrs := 0
		for i, r := range res {
			if !structp {
				if r.err == nil {
					return fmt.Errorf("page %d: no error although %T is not a struct", i, arg)
				}
				continue
			}
			v := reflect.New(gt)
			scanErr := twins[i].Scan(v.Interface())
			line := []byte(nil)
			encErr := error(nil)
			if scanErr == nil {
				line, encErr = json.Marshal(v.Interface())
			}
			switch {
			case p.Type.bad(false) != (scanErr != nil) && p.Broken[i] < 0:
				return fmt.Errorf("page %d: scanning gave %v", i, scanErr)
			case scanErr != nil:
				if r.err == nil {
					return fmt.Errorf("page %d: no error although scanning gives %v", i, scanErr)
				}
				if p.Broken[i] >= 0 && !p.Type.bad(false) && !errors.Is(r.err, errBody) {
					return fmt.Errorf("page %d: %v, expected the error of the body", i, r.err)
				}
				continue
			case encErr != nil:
				if r.err == nil {
					return fmt.Errorf("page %d: no error although encoding gives %v", i, encErr)
				}
				continue
			case r.err != nil:
				if !w.failed || !errors.Is(r.err, errWriter) {
					return fmt.Errorf("page %d: %v", i, r.err)
				}
				writerErrs++
				maybe[string(line)]++
				continue
			}
			lines = append(lines, string(line))
			gors[r.gor] = true
			c11 := &c11P{Base: base, Fuzz: true}
			want := []c11Want{}
			if len(p.Sels) == 0 {
				want = c11.want(selP{Alt: [][]compoundP{{{Tag: "a", Simple: []simpleP{{Kind: "attr", A: "href"}}}}}}.all(refs[i].root))
			}
			for _, s := range p.Sels {
				want = append(want, c11.want(s.all(refs[i].root))...)
			}
			if err := align(fmt.Sprintf("page %d: links of %q", i, sels), want, r.urls); err != nil {
				return err
			}
		}
		c.NT(len(lines) >= 3 && len(gors) >= 2)
		c.LabelIf(!structp, "not a struct")
		c.LabelIf(w.failed, "the writer failed")
		c.LabelIf(len(lines) >= 3, "3 lines or more")
		c.Note("%d pages, %d goroutines, %d lines, %d writer errors", len(pages), p.Gors, len(lines), writerErrs)
		if w.failed && writerErrs == 0 {
			return fmt.Errorf("the writer failed and no scrape returned its error")
		}

		// The lines that were written.
		decode := func(l string) (string, error) {
			v := reflect.New(gt)
			if err := json.Unmarshal([]byte(l), v.Interface()); err != nil {
				return "", err
			}
			b, err := json.Marshal(v.Interface())
			return string(b), err
		}
		canon := func(ls []string) (ret []string, err error) {
			for _, l := range ls {
				d, err := decode(l)
				if err != nil {
					return nil, fmt.Errorf("%q: %w", l, err)
				}
				ret = append(ret, d)
			}
			sort.Strings(ret)
			return ret, nil
		}
		if !structp || len(lines) == 0 && !w.failed {
			if out != "" {
				return fmt.Errorf("%q was written, expected nothing", out)
			}
			return nil
		}
		if !w.failed {
			if !strings.HasSuffix(out, "\n") {
				return fmt.Errorf("the last line of %q is not complete", out)
			}
			got, err := canon(strings.Split(strings.TrimSuffix(out, "\n"), "\n"))
			if err != nil {
				return fmt.Errorf("a line does not decode: %w; written: %q", err, out)
			}
			want, err := canon(lines)
			if err != nil {
				vf.Bug("%v", err)
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				return fmt.Errorf("the lines are %q, expected %q", got, want)
			}
			return nil
		}
		// With a failed write, every scrape without error has its line once.
		rest := out
		for _, l := range lines {
			i := strings.Index(rest, l+"\n")
			if i < 0 {
				return fmt.Errorf("line %q of a scrape without error is missing in %q", l, out)
			}
			rest = rest[:i] + rest[i+len(l)+1:]
		}
		if strings.Count(rest, "\n") > 0 {
			return fmt.Errorf("%q was written beside the lines of the scrapes without error", rest)
		}
		return nil
	})
}
