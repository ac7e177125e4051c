package stub

import (
	"bytes"
	"errors"
	"io"
)

// Files stands for the file system under the engine.
var Files = map[string][]byte{}

var errNotExist = errors.New("no such file or directory")

type File struct{ r *bytes.Reader }

func OSOpen(name string) (*File, error) {
	b, ok := Files[name]
	if !ok {
		return nil, errNotExist
	}
	return &File{bytes.NewReader(b)}, nil
}

func OSReadFile(name string) ([]byte, error) {
	b, ok := Files[name]
	if !ok {
		return nil, errNotExist
	}
	return append([]byte{}, b...), nil
}

func FileRead(f *File, p []byte) (int, error)                { return f.r.Read(p) }
func FileWriteTo(f *File, w io.Writer) (int64, error)        { return f.r.WriteTo(w) }
func FileReadAt(f *File, p []byte, off int64) (int, error)   { return f.r.ReadAt(p, off) }
func FileSeek(f *File, off int64, whence int) (int64, error) { return f.r.Seek(off, whence) }
func FileClose(f *File) error                                { return nil }
