package vioutil

import real "io/ioutil"

var (
	Discard   = real.Discard
	NopCloser = real.NopCloser
	ReadAll   = real.ReadAll
)
