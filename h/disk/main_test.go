package disk

import (
	"io"
	"log"
	"os"
	"testing"

	"github.com/yields/ant/zverif/vf"
)

// base is the directory below which all stores live.
var base string

func TestVF(t *testing.T) {
	log.SetOutput(io.Discard)
	var err error
	if base, err = os.MkdirTemp("/dev/shm", "vfdisk"); err != nil {
		if base, err = os.MkdirTemp(vf.Scratch(), "vfdisk"); err != nil {
			t.Fatal(err)
		}
	}
	defer os.RemoveAll(base)
	vf.Main(t)
}
