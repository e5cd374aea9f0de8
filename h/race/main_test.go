package race

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sync"
	"testing"
	"time"

	"github.com/yields/ant/zverif/vf"
	"github.com/yields/ant/zverif/zsched"
)

func TestVF(t *testing.T) {
	zsched.SetRaceMode(true)
	vf.Main(t)
}

// op is one step of a goroutine.
type op struct {
	K int `json:"k"`
	A int `json:"a"`
	B int `json:"b"`
}

// reports returns what the race detector wrote since the last call.
func reports() string {
	p := fmt.Sprintf("%s.%d", os.Getenv("VF_RACE_LOG"), os.Getpid())
	f, err := os.Open(p)
	if err != nil {
		return ""
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || st.Size() <= seenLog {
		return ""
	}
	b := make([]byte, st.Size()-seenLog)
	n, _ := f.ReadAt(b, seenLog)
	seenLog += int64(n)
	return string(b[:n])
}

var seenLog int64

var frame = regexp.MustCompile(`(?m)^\s+(/[^\s:]+\.go):\d+`)

// verdict turns race reports into an error.
func verdict() error {
	r := reports()
	if r == "" {
		return nil
	}
	if len(r) > 9000 {
		r = r[:9000]
	}
	repo := os.Getenv("VF_REPO_DIR")
	for _, m := range frame.FindAllStringSubmatch(r, -1) {
		d := filepath.ToSlash(m[1])
		if in(d, repo+"/") && !in(d, repo+"/zverif/") || contains(d, "/inst/") {
			return fmt.Errorf("data race:\n%s", r)
		}
	}
	vf.Bug("data race outside the code under test:\n%s", r)
	return nil
}

func in(s, prefix string) bool { return len(s) >= len(prefix) && s[:len(prefix)] == prefix }

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// together runs fn(0..n-1) in n goroutines that start at the same time and
// waits for them. A panic in one of them is returned.
func together(n int, fn func(i int) error) error {
	start := make(chan struct{})
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			<-start
			errs[i] = fn(i)
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// rng is a generator of one goroutine.
type rng uint64

func (r *rng) n(n int) int {
	*r = *r*6364136223846793005 + 1442695040888963407
	return int((uint64(*r) >> 33) % uint64(n))
}

// pause waits a little, without synchronising with anyone.
func (r *rng) pause() {
	switch r.n(6) {
	case 0:
		time.Sleep(time.Duration(r.n(200)) * time.Microsecond)
	case 1:
		for i := r.n(2000); i > 0; i-- {
			r.n(2)
		}
	}
}
