package vos

// Disk is what a directory holds after a crash.
type Disk map[string][]byte

type dirop_ struct {
	kind     string
	name, to string
	ino      int
}

type inode struct {
	durable []byte
	cur     []byte
	pending []Op
}

// Crash is the state of the file system after the first n operations of the
// log: what is durable, and what may be lost.
type Crash struct {
	inodes map[int]*inode
	dir    map[string]int // durable
	cur    map[string]int
	ops    []dirop_
}

func apply(d map[string]int, o dirop_) {
	switch o.kind {
	case "create":
		d[o.name] = o.ino
	case "remove":
		delete(d, o.name)
	case "rename":
		if d[o.name] == o.ino {
			delete(d, o.name)
		}
		d[o.to] = o.ino
	case "link":
		d[o.to] = o.ino
	}
}

func resize(b []byte, n int64) []byte {
	if int64(len(b)) >= n {
		return b[:n:n]
	}
	return append(b[:len(b):len(b)], make([]byte, n-int64(len(b)))...)
}

func write(b []byte, off int64, data []byte) []byte {
	b = append([]byte(nil), b...)
	if end := off + int64(len(data)); int64(len(b)) < end {
		b = resize(b, end)
	}
	copy(b[off:], data)
	return b
}

// NewCrash returns the state before the first operation.
func (c *Ctl) NewCrash() *Crash {
	s := &Crash{inodes: map[int]*inode{}, dir: map[string]int{}, cur: map[string]int{}}
	for name, n := range c.names {
		b := c.init[n]
		s.inodes[n] = &inode{durable: b, cur: b}
		s.dir[name] = n
		s.cur[name] = n
	}
	return s
}

func (s *Crash) get(ino int) *inode {
	f := s.inodes[ino]
	if f == nil {
		f = &inode{}
		s.inodes[ino] = f
	}
	return f
}

// Step applies an operation of the log.
func (s *Crash) Step(o Op) {
	switch o.Kind {
	case "create":
		s.inodes[o.Ino] = &inode{}
		s.op(dirop_{"create", o.Name, "", o.Ino})
	case "write":
		f := s.get(o.Ino)
		f.cur = write(f.cur, o.Off, o.Data)
		f.pending = append(f.pending, o)
	case "trunc":
		f := s.get(o.Ino)
		f.cur = resize(f.cur, o.Off)
		f.pending = append(f.pending, o)
	case "sync":
		f := s.get(o.Ino)
		f.durable, f.pending = f.cur, nil
	case "syncdir":
		for _, x := range s.ops {
			apply(s.dir, x)
		}
		s.ops = nil
	case "remove", "rename", "link":
		s.op(dirop_{o.Kind, o.Name, o.To, o.Ino})
	}
}

func (s *Crash) op(o dirop_) {
	s.ops = append(s.ops, o)
	apply(s.cur, o)
}

// Pending returns the number of operations that may be lost.
func (s *Crash) Pending() int {
	n := len(s.ops)
	for _, f := range s.inodes {
		n += len(f.pending)
	}
	return n
}

// Now is the directory without a loss.
func (s *Crash) Now() Disk {
	return s.After(func() uint64 { return 0 }, 0)
}

// Patterns of After.
const (
	KeepAll = iota
	LoseAll
	LoseData
	LoseNames
	ZeroData
	Random
)

// After returns what is left of the directory: pattern says what happens to the
// operations that were not synced.
func (s *Crash) After(rnd func() uint64, pattern int) Disk {
	dir := map[string]int{}
	for k, v := range s.dir {
		dir[k] = v
	}
	for _, o := range s.ops {
		switch pattern {
		case LoseAll, LoseNames:
			continue
		case Random:
			if rnd()%2 == 0 {
				continue
			}
		}
		apply(dir, o)
	}
	content := func(f *inode) []byte {
		switch pattern {
		case KeepAll, LoseNames:
			return f.cur
		case LoseAll, LoseData:
			return f.durable
		case ZeroData:
			// sizes are kept, data is not.
			b := f.durable
			for _, o := range f.pending {
				if o.Kind == "trunc" {
					b = resize(b, o.Off)
				} else {
					b = write(b, o.Off, make([]byte, len(o.Data)))
				}
			}
			return b
		}
		b := f.durable
		for _, o := range f.pending {
			switch r := rnd() % 6; {
			case r == 0:
			case o.Kind == "trunc":
				b = resize(b, o.Off)
			case r == 1 && len(o.Data) > 0:
				b = write(b, o.Off, o.Data[:rnd()%uint64(len(o.Data))])
			case r == 2:
				b = write(b, o.Off, make([]byte, len(o.Data)))
			case r == 3 && len(o.Data) > 0:
				// a block in the middle is missing.
				d := append([]byte(nil), o.Data...)
				i := int(rnd() % uint64(len(d)))
				for j := i; j < len(d) && j < i+1+len(d)/3; j++ {
					d[j] = 0
				}
				b = write(b, o.Off, d)
			default:
				b = write(b, o.Off, o.Data)
			}
		}
		return b
	}
	done := map[int][]byte{}
	ret := Disk{}
	for name, i := range dir {
		f := s.inodes[i]
		if f == nil {
			continue
		}
		if _, ok := done[i]; !ok {
			done[i] = content(f)
		}
		ret[name] = done[i]
	}
	return ret
}
