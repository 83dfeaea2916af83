// Package models holds Go versions of library entry points that the symbolic
// executor redirects to (they are interpreted like any other code).
package models

import (
	"errors"
	"hash"
	"image"
	"image/color"
	"io"
)

// RuntimeError stands for runtime.Error values raised by the executor.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

func deflate(b []byte) []byte { panic("vm") }

func inflate(b []byte) (data []byte, err string, ok bool) { panic("vm") }

// ZW is the state behind a zlib.Writer.
type ZW struct {
	w      io.Writer
	buf    []byte
	closed bool
}

func ZWrite(z *ZW, p []byte) (int, error) {
	z.buf = append(z.buf, p...)
	return len(p), nil
}

func ZFlush(z *ZW) error { return nil }

func ZClose(z *ZW) error {
	if z.closed {
		return nil
	}
	z.closed = true
	_, err := z.w.Write(deflate(z.buf))
	return err
}

type zreader struct {
	data []byte
	err  error
	pos  int
}

func (z *zreader) Read(p []byte) (int, error) {
	if z.pos >= len(z.data) {
		if z.err != nil {
			return 0, z.err
		}
		return 0, io.EOF
	}
	n := copy(p, z.data[z.pos:])
	z.pos += n
	return n, nil
}

func (z *zreader) Close() error { return nil }

func NewZReader(r io.Reader) (io.ReadCloser, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) < 2 {
		return nil, io.ErrUnexpectedEOF
	}
	d, msg, ok := inflate(b)
	if !ok {
		return nil, errors.New(msg)
	}
	z := &zreader{data: d}
	if msg != "" {
		z.err = errors.New(msg)
	}
	return z, nil
}

type md5h struct{ b []byte }

func md5sum(b []byte) [16]byte { panic("vm") }

func (m *md5h) Write(p []byte) (int, error) { m.b = append(m.b, p...); return len(p), nil }
func (m *md5h) Sum(b []byte) []byte {
	s := md5sum(m.b)
	return append(b, s[:]...)
}
func (m *md5h) Reset()         { m.b = nil }
func (m *md5h) Size() int      { return 16 }
func (m *md5h) BlockSize() int { return 64 }

func NewMD5() hash.Hash { return &md5h{} }

// DecodeConfig reads the header of a PNG or JPEG (checksums are not verified).
func DecodeConfig(r io.Reader) (image.Config, string, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return image.Config{}, "", err
	}
	if len(b) >= 33 && string(b[:8]) == "\x89PNG\r\n\x1a\n" && string(b[12:16]) == "IHDR" {
		w := int(b[16])<<24 | int(b[17])<<16 | int(b[18])<<8 | int(b[19])
		h := int(b[20])<<24 | int(b[21])<<16 | int(b[22])<<8 | int(b[23])
		if w <= 0 || h <= 0 || w > 0x7fffffff || h > 0x7fffffff {
			return image.Config{}, "", errors.New("png: invalid format: non-positive dimension")
		}
		bd := b[24]
		var cm color.Model
		switch b[25] {
		case 0:
			if bd != 1 && bd != 2 && bd != 4 && bd != 8 && bd != 16 {
				return image.Config{}, "", errors.New("png: unsupported feature: bit depth")
			}
			cm = color.GrayModel
			if bd == 16 {
				cm = color.Gray16Model
			}
		case 2:
			cm = color.RGBAModel
			if bd == 16 {
				cm = color.RGBA64Model
			}
		case 3:
			cm = color.Palette(nil)
		case 4, 6:
			cm = color.NRGBAModel
			if bd == 16 {
				cm = color.NRGBA64Model
			}
		default:
			return image.Config{}, "", errors.New("png: unsupported feature: color type")
		}
		if b[25] != 0 && b[25] != 3 && bd != 8 && bd != 16 {
			return image.Config{}, "", errors.New("png: unsupported feature: bit depth")
		}
		if b[26] != 0 || b[27] != 0 || b[28] > 1 {
			return image.Config{}, "", errors.New("png: unsupported feature: compression method")
		}
		return image.Config{Width: w, Height: h, ColorModel: cm}, "png", nil
	}
	if len(b) >= 2 && b[0] == 0xff && b[1] == 0xd8 {
		p := 2
		for p+4 <= len(b) {
			if b[p] != 0xff {
				return image.Config{}, "", errors.New("invalid JPEG format: missing 0xff")
			}
			m := b[p+1]
			n := int(b[p+2])<<8 | int(b[p+3])
			if m == 0xc0 || m == 0xc1 || m == 0xc2 {
				if p+10 > len(b) {
					break
				}
				h := int(b[p+5])<<8 | int(b[p+6])
				w := int(b[p+7])<<8 | int(b[p+8])
				nc := int(b[p+9])
				if b[p+4] != 8 {
					return image.Config{}, "", errors.New("unsupported JPEG feature: precision")
				}
				switch nc {
				case 1:
					return image.Config{Width: w, Height: h, ColorModel: color.GrayModel}, "jpeg", nil
				case 3:
					return image.Config{Width: w, Height: h, ColorModel: color.YCbCrModel}, "jpeg", nil
				case 4:
					return image.Config{Width: w, Height: h, ColorModel: color.CMYKModel}, "jpeg", nil
				}
				return image.Config{}, "", errors.New("unsupported JPEG feature: number of components")
			}
			p += 2 + n
		}
		return image.Config{}, "", errors.New("unexpected EOF")
	}
	return image.Config{}, "", image.ErrFormat
}

// ErrorsIs is errors.Is for comparable error values.
func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}
