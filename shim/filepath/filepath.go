package filepath

import (
	"io/fs"
	real "path/filepath"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	return real.Join(os.Cwd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, e := os.Stat(p); e != nil {
		return "", e
	}
	return real.Clean(p), nil
}

func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(path string, info os.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	infos, err := os.ReadDirInfo(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, i := range infos {
		p := real.Join(path, i.Name())
		err = walk(p, i, fn)
		if err != nil {
			if !i.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(path string, info os.FileInfo, err error) error {
		if info == nil {
			return fn(path, nil, err)
		}
		return fn(path, fs.FileInfoToDirEntry(info), err)
	})
}

func Glob(pattern string) ([]string, error) {
	var r []string
	for _, f := range os.Files() {
		ok, err := real.Match(pattern, f)
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, f)
		}
	}
	return r, nil
}
