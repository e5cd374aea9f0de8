package atest

import (
	"testing"

	"github.com/yields/ant/zverif/vf"
)

func TestVF(t *testing.T) { vf.Main(t) }
