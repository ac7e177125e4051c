// Package stub models the three decompressors for the symbolic engine.
//
// A "compressed" stream is represented, under the engine, by the bytes it
// decompresses to; natively (replay) the harness compresses those bytes with
// the real encoder, so that the real decompressor is exercised.
package stub

import (
	"errors"
	"io"
)

// Mode of the next decompression: 0 = decodes to the plain bytes then EOF,
// 1 = yields the plain bytes, then a decoding error; 2 = header error;
// 3 = yields the plain bytes, then the stream ends too early; 4 = it ends
// within the header.
var Mode int

// ErrCorrupt is the modelled decoding error.
var ErrCorrupt = errors.New("corrupt input")

type rd struct {
	r io.Reader
}

func (d *rd) Read(p []byte) (int, error) {
	n, err := d.r.Read(p)
	if err == io.EOF && Mode == 1 {
		return n, ErrCorrupt
	}
	if err == io.EOF && Mode == 3 {
		return n, io.ErrUnexpectedEOF
	}
	return n, err
}

func (d *rd) Close() error { return nil }

func FlateNewReader(r io.Reader) io.ReadCloser { return &rd{r} }

func ZlibNewReader(r io.Reader) (io.ReadCloser, error) {
	if Mode == 2 {
		return nil, ErrCorrupt
	}
	if Mode == 4 {
		return nil, io.ErrUnexpectedEOF
	}
	return &rd{r}, nil
}

func Bzip2NewReader(r io.Reader) io.Reader { return &rd{r} }
