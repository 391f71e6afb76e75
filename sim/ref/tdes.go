// Package ref is an independent implementation of TDES DUKPT (ANSI X9.24-1,
// terminal side with its future-key registers, host side by recursion over the
// counter bits) and AES DUKPT (X9.24-3), used as the oracle. It shares no code
// with /repo; block ciphers and hashes are Go's, clear PIN blocks are those of
// the pinblock module.
package ref

import (
	"bytes"
	"crypto/cipher"
	"crypto/des"
	"encoding/hex"
	"errors"
	"fmt"
	"math/bits"
	"strings"

	"github.com/moov-io/pinblock/formats"
)

const (
	DesMax = 0x1FF800
	AesMax = 0xFFFF0000
)

func des1(key, in []byte, dec bool) []byte {
	c, err := des.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, 8)
	if dec {
		c.Decrypt(o, in)
	} else {
		c.Encrypt(o, in)
	}
	return o
}

func tdesBlock(key []byte) cipher.Block {
	k := make([]byte, 24)
	copy(k, key[:16])
	if len(key) == 24 { // three keys
		copy(k[16:], key[16:])
	} else {
		copy(k[16:], key[:8])
	}
	c, err := des.NewTripleDESCipher(k)
	if err != nil {
		panic(err)
	}
	return c
}

func xor(a, b []byte) []byte {
	o := make([]byte, len(a))
	for i := range a {
		o[i] = a[i] ^ b[i]
	}
	return o
}

// Pad10 is the key serial number padded to 10 bytes with FF on the left.
func Pad10(ksn []byte) []byte {
	o := bytes.Repeat([]byte{0xFF}, 10)
	if len(ksn) >= 10 {
		copy(o, ksn[:10])
	} else {
		copy(o[10-len(ksn):], ksn)
	}
	return o
}

// DesTC is the 21-bit transaction counter.
func DesTC(ksn []byte) uint32 {
	k := Pad10(ksn)
	return uint32(k[7]&0x1f)<<16 | uint32(k[8])<<8 | uint32(k[9])
}

// DesWithTC replaces the counter.
func DesWithTC(ksn []byte, tc uint32) []byte {
	o := bytes.Clone(ksn)
	n := len(o)
	o[n-1] = byte(tc)
	o[n-2] = byte(tc >> 8)
	o[n-3] = o[n-3]&0xE0 | byte(tc>>16)
	return o
}

var c0 = []byte{0xC0, 0xC0, 0xC0, 0xC0, 0, 0, 0, 0, 0xC0, 0xC0, 0xC0, 0xC0, 0, 0, 0, 0}

// DesIK derives the initial key.
func DesIK(bdk, ksn []byte) []byte {
	k := Pad10(ksn)
	k[7] &= 0xE0
	k[8], k[9] = 0, 0
	l, r := make([]byte, 8), make([]byte, 8)
	tdesBlock(bdk).Encrypt(l, k[:8])
	tdesBlock(xor(bdk, c0)).Encrypt(r, k[:8])
	return append(l, r...)
}

// nrkg is the non-reversible key generation process.
func nrkg(key, r8 []byte) []byte {
	half := func(k []byte) []byte { return xor(des1(k[:8], xor(r8, k[8:]), false), k[8:]) }
	return append(half(xor(key, c0)), half(key)...)
}

// DesTK derives the transaction key the way a host does.
func DesTK(ik, ksn []byte) []byte {
	k := Pad10(ksn)
	tc := DesTC(ksn)
	k[7] &= 0xE0
	k[8], k[9] = 0, 0
	reg := bytes.Clone(k[2:])
	key := bytes.Clone(ik)
	for b := 20; b >= 0; b-- {
		if tc>>uint(b)&1 == 1 {
			v := uint32(1) << uint(b)
			reg[5] |= byte(v >> 16)
			reg[6] |= byte(v >> 8)
			reg[7] |= byte(v)
			key = nrkg(key, reg)
		}
	}
	return key
}

// next returns the smallest counter above tc with at most limit one-bits.
func next(tc uint32, limit int, max uint32) (uint32, bool) {
	if tc >= max {
		return 0, false
	}
	t := uint64(tc) + 1
	if bits.OnesCount64(t) > limit {
		best := uint64(1) << 40
		for i := uint(0); i < 33; i++ {
			c := (t>>i + 1) << i
			if bits.OnesCount64(c) <= limit && c < best {
				best = c
			}
		}
		t = best
	}
	if t > uint64(max) {
		return 0, false
	}
	return uint32(t), true
}

// DesNext and AesNext are the standards' next counter values.
func DesNext(tc uint32) (uint32, bool) { return next(tc, 10, DesMax) }
func AesNext(tc uint32) (uint32, bool) { return next(tc, 16, AesMax) }

// DesTerminal keeps future keys in 21 registers, as a terminal does: it never
// holds the initial key after loading nor any past key.
type DesTerminal struct {
	KSN  []byte
	EC   uint32
	Reg  [21][]byte
	Dead bool
}

func (t *DesTerminal) reg8(ec uint32) []byte {
	k := Pad10(t.KSN)
	k[7] = k[7]&0xE0 | byte(ec>>16)
	k[8], k[9] = byte(ec>>8), byte(ec)
	return k[2:]
}

// NewDesTerminal injects an initial key.
func NewDesTerminal(ik, ksn []byte) *DesTerminal {
	t := &DesTerminal{KSN: DesWithTC(ksn, 0)}
	for b := range 21 {
		t.Reg[b] = nrkg(ik, t.reg8(1<<uint(b)))
	}
	t.EC = 1
	return t
}

// Current is the key serial number and key of the current transaction.
func (t *DesTerminal) Current() (ksn, key []byte, ok bool) {
	if t.Dead {
		return nil, nil, false
	}
	b := bits.TrailingZeros32(t.EC)
	return DesWithTC(t.KSN, t.EC), t.Reg[b], true
}

// Advance moves to the next transaction.
func (t *DesTerminal) Advance() {
	if t.Dead {
		return
	}
	b := bits.TrailingZeros32(t.EC)
	if bits.OnesCount32(t.EC) < 10 {
		for j := b - 1; j >= 0; j-- {
			t.Reg[j] = nrkg(t.Reg[b], t.reg8(t.EC|1<<uint(j)))
		}
		t.Reg[b] = nil
		t.EC++
	} else {
		t.Reg[b] = nil
		t.EC += 1 << uint(b)
	}
	if t.EC >= 1<<21 {
		t.Dead = true
	}
}

// JumpTo places the terminal at a far counter without walking there.
func (t *DesTerminal) JumpTo(ik []byte, tc uint32) {
	t.EC = tc
	low := bits.TrailingZeros32(tc)
	for j := range 21 {
		t.Reg[j] = nil
		switch {
		case j == low:
			t.Reg[j] = DesTK(ik, DesWithTC(t.KSN, tc))
		case j > low && tc>>uint(j)&1 == 0:
			t.Reg[j] = DesTK(ik, DesWithTC(t.KSN, tc>>uint(j)<<uint(j)|1<<uint(j)))
		}
	}
}

// SkipTo advances past lost transactions until the counter is tc.
func (t *DesTerminal) SkipTo(tc uint32) {
	for !t.Dead && t.EC < tc {
		t.Advance()
	}
}

func variant(tk []byte, i, j int) []byte {
	k := bytes.Clone(tk)
	k[i] ^= 0xFF
	k[j] ^= 0xFF
	return k
}

// DesPinKey, DesMacKey and DesDataKey are the key variants.
func DesPinKey(tk []byte) []byte { return variant(tk, 7, 15) }
func DesMacKey(tk []byte, resp bool) []byte {
	if resp {
		return variant(tk, 4, 12)
	}
	return variant(tk, 6, 14)
}
func DesDataKey(tk []byte, resp bool) []byte {
	v := variant(tk, 5, 13)
	if resp {
		v = variant(tk, 3, 11)
	}
	o := make([]byte, 16)
	b := tdesBlock(v)
	b.Encrypt(o[:8], v[:8])
	b.Encrypt(o[8:], v[8:])
	return o
}

func zpad(b []byte, n int) []byte {
	if r := len(b) % n; r != 0 {
		return append(bytes.Clone(b), make([]byte, n-r)...)
	}
	return bytes.Clone(b)
}

// DesMAC is the ANSI retail MAC.
func DesMAC(tk, data []byte, resp bool) []byte {
	k := DesMacKey(tk, resp)
	p := zpad(data, 8)
	iv := make([]byte, 8)
	for i := 0; i < len(p); i += 8 {
		iv = des1(k[:8], xor(iv, p[i:i+8]), false)
	}
	return des1(k[:8], des1(k[8:], iv, true), false)
}

func fitIV(iv []byte, n int) []byte {
	o := make([]byte, n)
	copy(o, iv)
	return o
}

// DesEncrypt and DesDecrypt are data encryption.
func DesEncrypt(tk, iv, data []byte, resp bool) []byte {
	p := zpad(data, 8)
	cipher.NewCBCEncrypter(tdesBlock(DesDataKey(tk, resp)), fitIV(iv, 8)).CryptBlocks(p, p)
	return p
}
func DesDecrypt(tk, iv, ct []byte, resp bool) []byte {
	p := zpad(ct, 8)
	cipher.NewCBCDecrypter(tdesBlock(DesDataKey(tk, resp)), fitIV(iv, 8)).CryptBlocks(p, p)
	return p
}

// Formats the TDES PIN operations document.
var Formats = []string{"ISO-0", "ISO-1", "ISO-2", "ISO-3", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4", "VISA1", "VISA2", "VISA3", "VISA4"}

// RandomFill tells whether the clear block carries random digits.
func RandomFill(f string) bool {
	switch strings.ToUpper(f) {
	case "ISO-1", "ISO-3", "ECI2", "ECI3", "ECI4", "VISA2", "VISA3", "ISO-4":
		return true
	}
	return false
}

// UsesPAN tells whether the format binds the PAN.
func UsesPAN(f string) bool {
	switch strings.ToUpper(f) {
	case "ISO-0", "ISO-3", "ANSI", "ECI1", "VISA1", "VISA4":
		return true
	}
	return false
}

// Carried is the part of the PIN a format transports.
func Carried(f, pin string) string {
	n := 12
	switch strings.ToUpper(f) {
	case "ECI2":
		n = 4
	case "ECI3", "VISA2":
		n = 6
	}
	if len(pin) > n {
		return pin[:n]
	}
	return pin
}

// DesPinBlock is the clear PIN block of a format without random fill.
func DesPinBlock(pin, pan, format string) ([]byte, error) {
	f, err := formats.NewFormatter(strings.ToUpper(format))
	if err != nil {
		return nil, err
	}
	s, err := f.Encode(pin, pan)
	if err != nil {
		return nil, err
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil, err
	}
	if len(b) != 8 {
		return nil, errors.New("pin block is not 8 bytes")
	}
	return b, nil
}

// DesEncryptPin is the encrypted PIN block.
func DesEncryptPin(tk []byte, pin, pan, format string) ([]byte, error) {
	b, err := DesPinBlock(pin, pan, format)
	if err != nil {
		return nil, err
	}
	tdesBlock(DesPinKey(tk)).Encrypt(b, b)
	return b, nil
}

// DesDecryptPin recovers the PIN; it decodes the layouts itself so that every
// PIN length is handled.
func DesDecryptPin(tk, ct []byte, pan, format string) (pin string, err error) {
	if len(ct) != 8 {
		return "", errors.New("not one block")
	}
	b := make([]byte, 8)
	tdesBlock(DesPinKey(tk)).Decrypt(b, ct)
	return DecodeBlock(b, pan, format)
}

// DecodeBlock reads the PIN from a clear block.
func DecodeBlock(b []byte, pan, format string) (string, error) {
	format = strings.ToUpper(format)
	if UsesPAN(format) {
		if len(pan) < 13 {
			return "", errors.New("short pan")
		}
		m, err := hex.DecodeString("0000" + pan[len(pan)-13:len(pan)-1])
		if err != nil {
			return "", err
		}
		b = xor(b, m)
	}
	s := strings.ToUpper(hex.EncodeToString(b))
	digits := func(p string) (string, error) {
		for _, c := range p {
			if c < '0' || c > '9' {
				return "", fmt.Errorf("pin digits: %s", s)
			}
		}
		return p, nil
	}
	counted := func(ctl byte, max int) (string, error) {
		if s[0] != ctl {
			return "", errors.New("control nibble")
		}
		n := strings.IndexByte("0123456789ABCDEF", s[1])
		if n < 4 || n > max {
			return "", errors.New("length nibble")
		}
		return digits(s[2 : 2+n])
	}
	switch format {
	case "ISO-0", "ANSI", "ECI1", "VISA1", "VISA4":
		return counted('0', 12)
	case "ISO-1", "ECI4":
		return counted('1', 12)
	case "ISO-2":
		return counted('2', 12)
	case "ISO-3":
		return counted('3', 12)
	case "ECI2":
		return digits(s[:4])
	case "ECI3", "VISA2":
		n := int(s[0] - '0')
		if n < 4 || n > 6 {
			return "", errors.New("length nibble")
		}
		return digits(s[1 : 1+n])
	case "VISA3":
		i := strings.IndexByte(s, 'F')
		if i < 4 || i > 12 {
			return "", errors.New("delimiter")
		}
		return digits(s[:i])
	}
	return "", errors.New("format")
}
