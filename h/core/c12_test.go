package core

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"sync"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

func init() {
	vf.Register(vf.Check{
		ID: "C12",
		Rule: "scan: sequences of scans of generated struct types (nested structs, slices, attributes, skipped and untagged fields, unsupported types, bad selectors, named, same-named and recursive types) over generated documents, with Page.Scan and List.Scan, " +
			"compared with a reference scanner; concurrent: the same with several goroutines on shared pages and a seeded schedule; " +
			"non-trivial: at least 3 tagged fields in a type that scans, one of them nested or a slice, and at least 2 leaf values that are not zero",
		Assumptions: []string{
			"destinations start with zero values in the tagged fields",
			"numbers out of range may give the nearest value or zero; signs, hexadecimal and white space in numbers as strconv has them",
		},
		Subs: []vf.Sub{
			vf.S("scan", 30000, 1000000, genC12, runC12),
			vf.S("concurrent", 12000, 400000, genC12c, runC12c),
		},
	})
}

// typeP describes a destination type.
type typeP struct {
	Kind   string   `json:"k"`
	Elem   *typeP   `json:"e,omitempty"`
	Fields []fieldP `json:"f,omitempty"`
	Static int      `json:"static,omitempty"` // 1 + index of a declared type
}

type fieldP struct {
	Sel  selP   `json:"s"`
	Attr string `json:"a,omitempty"`
	Mode string `json:"m"` // tag, none, dash, empty, private
	T    typeP  `json:"t"`
}

// Declared types: named fields, two types of one name, recursion.

type namedString string
type namedInt int
type recList struct {
	Name string    `css:"b"`
	Kids []recList `css:"li"`
}
type recPair struct {
	A struct {
		Kids []recPair `css:"li"`
	} `css:"div"`
}
type embedded struct {
	A string `css:"a"`
}

func itemA() reflect.Type {
	type Item struct {
		V string `css:"a@href"`
		W int    `css:"li"`
	}
	return reflect.TypeOf(Item{})
}

func itemB() reflect.Type {
	type Item struct {
		V string `css:"b"`
		W int    `css:"span"`
	}
	return reflect.TypeOf(Item{})
}

type twoItems struct {
	V namedString `css:"p"`
	N namedInt    `css:"li"`
	E embedded    `css:"div"`
	L []embedded  `css:"li"`
}

type embedsOne struct {
	embedded        // unexported: left alone
	T        string `css:"title"`
}

type Embedded2 struct {
	A string `css:"a"`
}

type embedsTwo struct {
	Embedded2 `css:"div"`
	T         string `css:"b"`
}

func tagField(tag string, attr string, t typeP) fieldP {
	return fieldP{Sel: selTag(tag), Attr: attr, Mode: "tag", T: t}
}

var str, in = typeP{Kind: "string"}, typeP{Kind: "int"}

var embeddedP = typeP{Kind: "struct", Fields: []fieldP{tagField("a", "", str)}}

// statics are the declared types and what they mean.
var statics = []struct {
	t reflect.Type
	p typeP
}{
	{itemA(), typeP{Kind: "struct", Fields: []fieldP{tagField("a", "href", str), tagField("li", "", in)}}},
	{itemB(), typeP{Kind: "struct", Fields: []fieldP{tagField("b", "", str), tagField("span", "", in)}}},
	{reflect.TypeOf(recList{}), typeP{Kind: "recursive"}},
	{reflect.TypeOf(recPair{}), typeP{Kind: "recursive"}},
	{reflect.TypeOf(twoItems{}), typeP{Kind: "struct", Fields: []fieldP{tagField("p", "", str), tagField("li", "", in),
		tagField("div", "", embeddedP), tagField("li", "", typeP{Kind: "slice", Elem: &embeddedP})}}},
	{reflect.TypeOf(embedsOne{}), typeP{Kind: "struct", Fields: []fieldP{{Mode: "private", T: embeddedP}, tagField("title", "", str)}}},
	{reflect.TypeOf(embedsTwo{}), typeP{Kind: "struct", Fields: []fieldP{tagField("div", "", embeddedP), tagField("b", "", str)}}},
}

// resolve replaces a static by its description.
func (t typeP) resolve() typeP {
	if t.Static > 0 {
		return statics[t.Static-1].p
	}
	return t
}

var goKinds = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte(nil)), "int": reflect.TypeOf(0), "uint": reflect.TypeOf(uint(0)),
	"f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)),
	// not supported
	"bool": reflect.TypeOf(false), "int64": reflect.TypeOf(int64(0)), "int8": reflect.TypeOf(int8(0)), "uint8": reflect.TypeOf(uint8(0)), "ptr": reflect.TypeOf((*string)(nil)), "map": reflect.TypeOf(map[string]string(nil)),
	"any": reflect.TypeOf((*any)(nil)).Elem(), "array": reflect.TypeOf([2]string{}), "chan": reflect.TypeOf((chan int)(nil)), "func": reflect.TypeOf((func())(nil)), "complex": reflect.TypeOf(complex(0, 0)),
}

var badKinds = []string{"bool", "int64", "int8", "ptr", "map", "any", "array", "chan", "func", "complex"}

func (t typeP) goType() reflect.Type {
	if t.Static > 0 {
		return statics[t.Static-1].t
	}
	switch t.Kind {
	case "slice":
		return reflect.SliceOf(t.Elem.goType())
	case "struct":
		var fs []reflect.StructField
		for i, f := range t.Fields {
			sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.T.goType()}
			tag := f.Sel.String()
			if f.Attr != "" {
				tag += "@" + f.Attr
			}
			switch f.Mode {
			case "tag":
				sf.Tag = reflect.StructTag(`json:"f` + strconv.Itoa(i) + `" css:` + strconv.Quote(tag))
			case "dash":
				sf.Tag = `css:"-"`
			case "empty":
				sf.Tag = `css:""`
			case "private":
				sf.Name, sf.PkgPath = fmt.Sprintf("f%d", i), "example.test/p"
				sf.Tag = reflect.StructTag(`css:` + strconv.Quote(tag))
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	return goKinds[t.Kind]
}

// bad tells whether the type cannot be scanned into.
func (t typeP) bad(selected bool) bool {
	t = t.resolve()
	switch t.Kind {
	case "string", "bytes", "int", "uint", "f32", "f64":
		return false
	case "slice":
		return !selected || t.Elem.bad(false)
	case "struct":
		n := 0
		for _, f := range t.Fields {
			if f.Mode != "tag" {
				continue
			}
			if n++; f.Sel.invalid() || f.T.bad(true) {
				return true
			}
		}
		return n == 0
	}
	return true
}

// val is a scanned value: leaf alternatives, a list or the fields of a struct.
type val struct {
	leaf   []any
	items  []val
	fields []val
	skip   bool // not to be touched
	zero   bool // stays zero
}

// refScan scans n like the documentation says; sel is nil when n itself is meant.
func refScan(t typeP, sel *selP, attr string, n *html.Node, leaves *int) val {
	t = t.resolve()
	if t.Kind == "slice" {
		var v val
		for _, m := range sel.all(n) {
			v.items = append(v.items, refScan(*t.Elem, nil, attr, m, leaves))
		}
		if v.items == nil {
			v.zero = true
		}
		return v
	}
	if sel != nil {
		ms := sel.all(n)
		if len(ms) == 0 {
			return val{zero: true}
		}
		n = ms[0]
	}
	if t.Kind == "struct" {
		var v val
		for i := range t.Fields {
			f := &t.Fields[i]
			if f.Mode != "tag" {
				v.fields = append(v.fields, val{skip: true})
				continue
			}
			v.fields = append(v.fields, refScan(f.T, &f.Sel, f.Attr, n, leaves))
		}
		return v
	}
	s := textOf(n)
	if attr != "" {
		s, _ = attrOf(n, attr)
	}
	if s != "" {
		*leaves++
	}
	switch t.Kind {
	case "string":
		return val{leaf: []any{s}}
	case "bytes":
		return val{leaf: []any{s}}
	case "int":
		x, err := strconv.ParseInt(s, 10, 64)
		if !isNumber(s, true) || errors.Is(err, strconv.ErrRange) {
			return val{leaf: []any{0, int(x)}}
		}
		y, _ := new(big.Int).SetString(s, 10)
		return val{leaf: []any{int(y.Int64())}}
	case "uint":
		x, err := strconv.ParseUint(s, 10, 64)
		if !isNumber(s, false) || errors.Is(err, strconv.ErrRange) {
			return val{leaf: []any{uint(0), uint(x)}}
		}
		y, _ := new(big.Int).SetString(s, 10)
		return val{leaf: []any{uint(y.Uint64())}}
	case "f32":
		x, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return val{leaf: []any{float32(x), float32(0)}}
		}
		y, _ := strconv.ParseFloat(s, 32)
		return val{leaf: []any{float32(x), float32(y)}}
	case "f64":
		x, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return val{leaf: []any{x, 0.0}}
		}
		return val{leaf: []any{x}}
	}
	vf.Bug("refScan of %s", t.Kind)
	return val{}
}

func isNumber(s string, sign bool) bool {
	if sign && s != "" && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// sentinels are what untagged fields hold before the scan.
func sentinel(v reflect.Value, t typeP) {
	t = t.resolve()
	if t.Kind != "struct" {
		return
	}
	for i, f := range t.Fields {
		fv := v.Field(i)
		switch {
		case f.Mode == "tag":
			sentinel(fv, f.T)
		case fv.CanSet():
			switch fv.Kind() {
			case reflect.String:
				fv.SetString("sentinel")
			case reflect.Int:
				fv.SetInt(4242)
			case reflect.Slice:
				fv.Set(reflect.MakeSlice(fv.Type(), 1, 1))
			}
		}
	}
}

// newDst returns a pointer to a new value with its sentinels.
func newDst(t typeP) reflect.Value {
	dst := reflect.New(t.goType())
	sentinel(dst.Elem(), t)
	return dst
}

func sameFloat(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// compare compares what was scanned with v; before is the value before the scan.
func (w val) compare(path string, v, before reflect.Value) error {
	switch {
	case w.skip:
		if before.IsValid() && before.CanInterface() && !reflect.DeepEqual(v.Interface(), before.Interface()) {
			return fmt.Errorf("%s is not tagged and became %v, it was %v", path, v, before)
		}
		if !v.CanInterface() && !v.IsZero() {
			return fmt.Errorf("%s is private and was set to %v", path, v)
		}
	case w.zero:
		if v.Kind() == reflect.Slice && v.Len() == 0 {
			return nil
		}
		if before.IsValid() && before.CanInterface() && reflect.DeepEqual(v.Interface(), before.Interface()) {
			return nil
		}
		if !v.IsZero() {
			return fmt.Errorf("%s is %#v although nothing matches", path, v)
		}
	case w.leaf != nil:
		for _, l := range w.leaf {
			switch x := l.(type) {
			case string:
				if v.Kind() == reflect.String && v.String() == x || v.Kind() == reflect.Slice && string(v.Bytes()) == x {
					return nil
				}
			case int:
				if v.Int() == int64(x) {
					return nil
				}
			case uint:
				if v.Uint() == uint64(x) {
					return nil
				}
			case float32:
				if v.Kind() == reflect.Float32 && sameFloat(v.Float(), float64(x)) {
					return nil
				}
			case float64:
				if v.Kind() == reflect.Float64 && sameFloat(v.Float(), x) {
					return nil
				}
			}
		}
		return fmt.Errorf("%s is %#v, expected %#v", path, v, w.leaf[0])
	case w.items != nil:
		if v.Len() != len(w.items) {
			return fmt.Errorf("%s has %d items, expected %d", path, v.Len(), len(w.items))
		}
		for i, x := range w.items {
			if err := x.compare(fmt.Sprintf("%s[%d]", path, i), v.Index(i), reflect.Value{}); err != nil {
				return err
			}
		}
	default:
		for i, x := range w.fields {
			var b reflect.Value
			if before.IsValid() {
				b = before.Field(i)
			}
			if err := x.compare(path+"."+v.Type().Field(i).Name, v.Field(i), b); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- generators --------------------------------------------------------------

func genScanSel(t *rapid.T) selP {
	switch uni(t, 0, 9, "ssel") {
	case 0:
		return genSel(t)
	case 1:
		return selP{Alt: [][]compoundP{{{Tag: "li", Simple: []simpleP{{Kind: "class", A: rapid.SampledFrom([]string{"c", "d", "item"}).Draw(t, "cls")}}}}}}
	case 2:
		return selP{Alt: [][]compoundP{{{Simple: []simpleP{{Kind: "class", A: rapid.SampledFrom([]string{"c", "d", "item", "next"}).Draw(t, "cls")}}}}}}
	case 3:
		return selP{Alt: [][]compoundP{{{Tag: "div"}, {Comb: ">", Tag: rapid.SampledFrom([]string{"a", "p", "*"}).Draw(t, "child")}}}}
	}
	return selTag(rapid.SampledFrom([]string{"a", "div", "span", "p", "*", "ul", "li", "b", "i", "h1", "section", "td", "body"}).Draw(t, "stag"))
}

func genField(t *rapid.T, depth int, clean bool) fieldP {
	f := fieldP{Mode: "tag"}
	if oneIn(t, 6, "untagged") {
		f.Mode = rapid.SampledFrom([]string{"none", "dash", "empty", "private"}).Draw(t, "mode")
	}
	f.Sel = genScanSel(t)
	if f.Sel.invalid() && f.Sel.Raw == "" {
		f.Sel.Raw = "["
	}
	if clean {
		for f.Sel.invalid() {
			f.Sel = selTag("li")
		}
	}
	f.T = genType(t, depth, clean)
	if oneIn(t, 3, "hasattr") {
		f.Attr = rapid.SampledFrom([]string{"class", "href", "class", "href", "data-v", "id", "lang", "nosuch"}).Draw(t, "attr")
	}
	return f
}

func genType(t *rapid.T, depth int, clean bool) typeP {
	if !clean && oneIn(t, 25, "bad") {
		return typeP{Kind: rapid.SampledFrom(badKinds).Draw(t, "badkind")}
	}
	kinds := []string{"string", "int", "bytes", "uint", "f32", "f64", "string"}
	if depth > 0 {
		kinds = append(kinds, "struct", "slice", "struct", "slice", "slice")
	}
	switch k := rapid.SampledFrom(kinds).Draw(t, "kind"); k {
	case "slice":
		e := genType(t, depth-1, clean)
		if clean && e.Kind == "slice" {
			e = str
		}
		return typeP{Kind: k, Elem: &e}
	case "struct":
		return genStruct(t, depth-1, clean)
	default:
		return typeP{Kind: k}
	}
}

func genStruct(t *rapid.T, depth int, clean bool) typeP {
	if oneIn(t, 8, "static") {
		i := rapid.SampledFrom([]int{0, 1, 4, 5, 6, 2, 3}).Draw(t, "statici")
		if clean && statics[i].p.Kind == "recursive" {
			i = 0
		}
		return typeP{Static: i + 1}
	}
	s := typeP{Kind: "struct"}
	n := uni(t, 2, 6, "nfields")
	for i := 0; i < n; i++ {
		s.Fields = append(s.Fields, genField(t, depth, clean))
	}
	if clean {
		s.Fields[0].Mode = "tag"
	}
	return s
}

// scanP is one scan.
type scanP struct {
	Doc   int    `json:"doc"`
	Type  int    `json:"type"`
	List  bool   `json:"list"` // List.Scan of the first match
	Sel   selP   `json:"sel"`
	Dst   string `json:"dst"`             // "", nil, nilptr, value
	Again bool   `json:"again,omitempty"` // into the same destination, after its value was copied
}

type c12P struct {
	Docs  []docP       `json:"docs"`
	Types []typeP      `json:"types"`
	Scans []scanP      `json:"scans"`
	Gors  int          `json:"gors"`
	Sched zsched.Sched `json:"sched"`
}

func genC12(t *rapid.T) *c12P {
	p := &c12P{}
	n := uni(t, 1, 2, "docs")
	for i := 0; i < n; i++ {
		p.Docs = append(p.Docs, genPlainDoc(t))
	}
	if oneIn(t, 150, "islarge") {
		enlarge(t, &p.Docs[0], 40)
	}
	n = uni(t, 1, 3, "types")
	for i := 0; i < n; i++ {
		clean := !oneIn(t, 3, "dirty")
		switch uni(t, 0, 9, "top") {
		case 0:
			p.Types = append(p.Types, genType(t, 2, clean))
		default:
			p.Types = append(p.Types, genStruct(t, uni(t, 2, 4, "depth"), clean))
		}
	}
	n = uni(t, 1, 5, "scans")
	for i := 0; i < n; i++ {
		s := scanP{Doc: uni(t, 0, len(p.Docs)-1, "doc"), Type: uni(t, 0, len(p.Types)-1, "type"), List: oneIn(t, 4, "list")}
		if s.List {
			s.Sel = genScanSel(t)
		}
		s.Again = oneIn(t, 3, "again")
		if oneIn(t, 20, "oddst") {
			s.Dst = rapid.SampledFrom([]string{"nil", "nilptr", "value"}).Draw(t, "dst")
		}
		p.Scans = append(p.Scans, s)
	}
	return p
}

func genC12c(t *rapid.T) *c12P {
	p := genC12(t)
	for len(p.Scans) < 4 {
		s := p.Scans[0]
		s.Doc, s.Type = uni(t, 0, len(p.Docs)-1, "doc"), uni(t, 0, len(p.Types)-1, "type")
		p.Scans = append(p.Scans, s)
	}
	p.Gors = uni(t, 2, 4, "gors")
	p.Sched = vf.GenSched(t)
	return p
}

// ---- runs --------------------------------------------------------------------

type c12Doc struct {
	page *ant.Page
	ref  *refDoc
}

// scan runs one scan and checks its outcome.
func (p *c12P) scan(s scanP, d c12Doc, others []c12Doc) (nt bool, err error) {
	t := p.Types[s.Type]
	dst, before := newDst(t), newDst(t)
	arg := dst.Interface()
	switch s.Dst {
	case "nil":
		arg = nil
	case "nilptr":
		arg = reflect.Zero(dst.Type()).Interface()
	case "value":
		arg = dst.Elem().Interface()
	}
	from := d.ref.root
	what := fmt.Sprintf("Page.Scan(%s)", dst.Type())
	if s.List {
		what = fmt.Sprintf("Query(%q).Scan(%s)", s.Sel, dst.Type())
		ms := s.Sel.all(d.ref.root)
		got := d.page.Query(s.Sel.String())
		if len(ms) == 0 {
			if err := got.Scan(arg); err != nil {
				return false, fmt.Errorf("%s of an empty list: %v", what, err)
			}
			if s.Dst == "" && !deepSame(dst.Elem(), before.Elem()) {
				return false, fmt.Errorf("%s of an empty list changed the destination", what)
			}
			return false, nil
		}
		from = ms[0]
		err = got.Scan(arg)
	} else {
		err = d.page.Scan(arg)
	}
	if s.Dst != "" || t.bad(false) {
		if err == nil {
			return false, fmt.Errorf("%s (%s destination) gave no error", what, s.Dst)
		}
		return false, nil
	}
	if err != nil {
		return false, fmt.Errorf("%s: %v", what, err)
	}
	leaves := 0
	want := refScan(t, nil, "", from, &leaves)
	if err := want.compare("dst", dst.Elem(), before.Elem()); err != nil {
		return false, fmt.Errorf("%s: %v", what, err)
	}
	if s.Again {
		// What was scanned before belongs to the caller, who may have
		// kept a copy of the value.
		kept := reflect.New(dst.Type().Elem()).Elem()
		kept.Set(dst.Elem())
		snap := fmt.Sprintf("%#v", kept)
		for _, o := range others {
			if err := o.page.Scan(arg); err != nil {
				return false, fmt.Errorf("%s, repeated: %v", what, err)
			}
			if now := fmt.Sprintf("%#v", kept); now != snap {
				return false, fmt.Errorf("a second scan into the destination of %s changed the copy of the first result from %s to %s", what, snap, now)
			}
		}
	}
	return leaves >= 2 && t.size() >= 3 && t.nested(), nil
}

func deepSame(a, b reflect.Value) bool {
	return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

func (t typeP) size() int {
	t = t.resolve()
	n := 0
	for _, f := range t.Fields {
		if f.Mode == "tag" {
			n += 1 + f.T.size()
		}
	}
	if t.Elem != nil {
		n += t.Elem.size()
	}
	return n
}

func (t typeP) nested() bool {
	t = t.resolve()
	for _, f := range t.Fields {
		if k := f.T.resolve().Kind; f.Mode == "tag" && (k == "slice" || k == "struct") {
			return true
		}
	}
	return false
}

func (p *c12P) docs() ([]c12Doc, error) {
	var docs []c12Doc
	for _, d := range p.Docs {
		b := d.bytes()
		ref, err := parseRef(b)
		if err != nil {
			return nil, nil
		}
		page, err := fetchPage("http://base.test/", b)
		if err != nil || page == nil {
			return nil, fmt.Errorf("fetch: %v %v", page, err)
		}
		docs = append(docs, c12Doc{page, ref})
	}
	return docs, nil
}

func (p *c12P) labels(c *vf.Case) {
	for _, t := range p.Types {
		if t.bad(false) {
			c.Label("a type that cannot be scanned")
			break
		}
	}
	for _, s := range p.Scans {
		if s.Dst != "" {
			c.Label("odd destination")
			break
		}
	}
	for _, s := range p.Scans {
		if s.List {
			c.Label("List.Scan")
			break
		}
	}
}

func runC12(c *vf.Case, p *c12P) error {
	docs, err := p.docs()
	if err != nil || docs == nil {
		return err
	}
	p.labels(c)
	for i, s := range p.Scans {
		nt, err := p.scan(s, docs[s.Doc], docs)
		if err != nil {
			return fmt.Errorf("scan %d: %w", i, err)
		}
		c.NT(nt)
	}
	c.Note("%d scans of %d types", len(p.Scans), len(p.Types))
	return nil
}

func runC12c(c *vf.Case, p *c12P) error {
	return vf.Bubble(c, p.Sched, func() error {
		docs, err := p.docs()
		if err != nil || docs == nil {
			return err
		}
		p.labels(c)
		var wg sync.WaitGroup
		var mu sync.Mutex
		var first error
		for g := 0; g < p.Gors; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range p.Scans {
					s := p.Scans[(i+g)%len(p.Scans)]
					zsched.P()
					nt, err := p.scan(s, docs[s.Doc], docs)
					mu.Lock()
					c.NT(nt)
					if err != nil && first == nil {
						first = fmt.Errorf("goroutine %d: %w", g, err)
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		return first
	})
}
