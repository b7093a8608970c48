package ioutil

import (
	"io"
	realio "io/ioutil"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
)

func ReadFile(name string) ([]byte, error)                         { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error   { return os.WriteFile(name, data, perm) }
func ReadDir(name string) ([]os.FileInfo, error)                   { return os.ReadDirInfo(name) }
func ReadAll(r io.Reader) ([]byte, error)                          { return realio.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                          { return realio.NopCloser(r) }
func TempDir(dir, prefix string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	p := dir + "/" + prefix + "0001"
	return p, os.MkdirAll(p, 0700)
}
func TempFile(dir, prefix string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return os.Create(dir + "/" + prefix + "0001")
}

var Discard = realio.Discard
