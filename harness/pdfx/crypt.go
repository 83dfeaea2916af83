package pdfx

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
)

var pad32 = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

// PadPass is a password as it enters the key computation.
func PadPass(b []byte) []byte {
	return append(append([]byte(nil), b...), pad32...)[:32]
}

func rc(key, b []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		return nil
	}
	out := make([]byte, len(b))
	c.XORKeyStream(out, b)
	return out
}

// UserFromOwner gives the (padded) user password an owner password leads to.
func (f *File) UserFromOwner(owner []byte) []byte {
	k := md5.Sum(PadPass(owner))
	return rc(k[:5], []byte(f.Get(f.Encrypt(), "O").S))
}

// Encrypt is the encryption dictionary.
func (f *File) Encrypt() *Val { return f.Get(f.Trailer, "Encrypt") }

// Unlock decrypts streams and strings with a padded user password, as a reader
// does for revision 2 of the standard handler.
func (f *File) Unlock(pass []byte) (bad string) {
	e := f.Encrypt()
	if e == nil || e.K != 'd' {
		return "no encryption dictionary"
	}
	if !f.Get(e, "Filter").IsName("Standard") || f.Get(e, "V").Int() != 1 || f.Get(e, "R").Int() != 2 {
		return "not the 40-bit standard handler"
	}
	o, u := f.Get(e, "O"), f.Get(e, "U")
	if o == nil || o.K != 's' || len(o.S) != 32 || u == nil || u.K != 's' || len(u.S) != 32 {
		return "O and U are not strings of 32 bytes"
	}
	p := uint32(f.Get(e, "P").Int())
	h := append([]byte(nil), pass...)
	h = append(h, o.S...)
	h = append(h, byte(p), byte(p>>8), byte(p>>16), byte(p>>24))
	if id := f.Get(f.Trailer, "ID"); id != nil && id.K == 'a' && len(id.A) > 0 {
		h = append(h, f.Deref(id.A[0]).S...)
	}
	sum := md5.Sum(h)
	key := sum[:5]
	if !bytes.Equal(rc(key, pad32), []byte(u.S)) {
		return "the password is not accepted"
	}
	enc := -1
	if r := f.Trailer.Get("Encrypt"); r.K == 'r' {
		enc = r.I
	}
	for id, ob := range f.Objs {
		if ob == nil || id == enc {
			continue
		}
		k := md5.Sum(append(append([]byte(nil), key...), byte(id), byte(id>>8), byte(id>>16), 0, 0))
		if ob.HasStream {
			ob.Stream = rc(k[:10], ob.Stream)
		}
		unlock(ob.V, k[:10])
	}
	return ""
}

func unlock(v *Val, key []byte) {
	if v == nil {
		return
	}
	if v.K == 's' {
		v.S = string(rc(key, []byte(v.S)))
	}
	for _, x := range v.A {
		unlock(x, key)
	}
	for _, e := range v.D {
		unlock(e.V, key)
	}
}
