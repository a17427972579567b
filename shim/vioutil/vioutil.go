// Package vioutil is io/ioutil over the file systems of vos.
package vioutil

import (
	"io"
	"io/fs"

	"verif.local/shim/vos"
)

var Discard = io.Discard

func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return vos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }

func ReadDir(name string) ([]fs.FileInfo, error) {
	v, err := vos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var r []fs.FileInfo
	for _, e := range v {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, i)
	}
	return r, nil
}
