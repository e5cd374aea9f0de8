package vioutil

import (
	"io/fs"
	"sort"

	"github.com/yields/ant/zverif/vos"
)

// ReadFile mirrors ioutil.ReadFile.
func ReadFile(path string) ([]byte, error) { return vos.ReadFile(path) }

// WriteFile mirrors ioutil.WriteFile.
func WriteFile(path string, b []byte, perm fs.FileMode) error { return vos.WriteFile(path, b, perm) }

// TempFile mirrors ioutil.TempFile.
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }

// TempDir mirrors ioutil.TempDir.
func TempDir(dir, pattern string) (string, error) { return vos.MkdirTemp(dir, pattern) }

// ReadDir mirrors ioutil.ReadDir.
func ReadDir(path string) ([]fs.FileInfo, error) {
	es, err := vos.ReadDir(path)
	if err != nil {
		return nil, err
	}
	var ret []fs.FileInfo
	for _, e := range es {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		ret = append(ret, fi)
	}
	sort.Slice(ret, func(i, j int) bool { return ret[i].Name() < ret[j].Name() })
	return ret, nil
}
