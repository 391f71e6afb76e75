package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"math/bits"
	"strings"
)

func aesBlock(k []byte) cipher.Block {
	c, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	return c
}

// Key usage indicators (X9.24-3, 6.3.2).
const (
	usePIN    = 0x1000
	useMACGen = 0x2000
	useMACVer = 0x2001
	useEnc    = 0x3000
	useDec    = 0x3001
	useDerive = 0x8000
	useIK     = 0x8001
)

func algOf(n int, h bool) uint16 {
	if h {
		return 5
	}
	return map[int]uint16{16: 2, 24: 3, 32: 4}[n]
}

func aesDerive(key []byte, usage uint16, n int, h bool, tail []byte) []byte {
	var o []byte
	for c := byte(1); len(o) < n; c++ {
		d := []byte{1, c}
		d = binary.BigEndian.AppendUint16(d, usage)
		d = binary.BigEndian.AppendUint16(d, algOf(n, h))
		d = binary.BigEndian.AppendUint16(d, uint16(n*8))
		d = append(d, tail...)
		e := make([]byte, 16)
		aesBlock(key).Encrypt(e, d)
		o = append(o, e...)
	}
	return o[:n]
}

// AesIK derives the initial key.
func AesIK(bdk, ksn []byte) []byte { return aesDerive(bdk, useIK, len(bdk), false, ksn[:8]) }

// AesTC is the 32-bit transaction counter.
func AesTC(ksn []byte) uint32 { return binary.BigEndian.Uint32(ksn[len(ksn)-4:]) }

// AesWithTC replaces the counter.
func AesWithTC(ksn []byte, tc uint32) []byte {
	return binary.BigEndian.AppendUint32(bytes.Clone(ksn[:8]), tc)
}

func tail(ksn []byte, tc uint32) []byte {
	return binary.BigEndian.AppendUint32(bytes.Clone(ksn[4:8]), tc)
}

// AesTK derives the transaction key the way a host does.
func AesTK(ik, ksn []byte) []byte {
	tc := AesTC(ksn)
	k := bytes.Clone(ik)
	var w uint32
	for b := 31; b >= 0; b-- {
		if tc>>uint(b)&1 == 1 {
			w |= 1 << uint(b)
			k = aesDerive(k, useDerive, len(ik), false, tail(ksn, w))
		}
	}
	return k
}

// AesTerminal keeps intermediate keys in 32 registers.
type AesTerminal struct {
	KSN  []byte
	EC   uint32
	Reg  [32][]byte
	Dead bool
}

// NewAesTerminal injects an initial key.
func NewAesTerminal(ik, ksn []byte) *AesTerminal {
	t := &AesTerminal{KSN: AesWithTC(ksn, 0)}
	for b := range 32 {
		t.Reg[b] = aesDerive(ik, useDerive, len(ik), false, tail(ksn, 1<<uint(b)))
	}
	t.EC = 1
	return t
}

func (t *AesTerminal) Current() (ksn, key []byte, ok bool) {
	if t.Dead {
		return nil, nil, false
	}
	return AesWithTC(t.KSN, t.EC), t.Reg[bits.TrailingZeros32(t.EC)], true
}

func (t *AesTerminal) Advance() {
	if t.Dead {
		return
	}
	b := bits.TrailingZeros32(t.EC)
	if t.EC >= AesMax {
		t.Dead = true
		return
	}
	if bits.OnesCount32(t.EC) < 16 {
		for j := b - 1; j >= 0; j-- {
			t.Reg[j] = aesDerive(t.Reg[b], useDerive, len(t.Reg[b]), false, tail(t.KSN, t.EC|1<<uint(j)))
		}
		t.Reg[b] = nil
		t.EC++
	} else {
		t.Reg[b] = nil
		t.EC += 1 << uint(b)
	}
}

// JumpTo places the terminal at a far counter without walking there.
func (t *AesTerminal) JumpTo(ik []byte, tc uint32) {
	t.EC = tc
	low := bits.TrailingZeros32(tc)
	for j := range 32 {
		t.Reg[j] = nil
		switch {
		case j == low:
			t.Reg[j] = AesTK(ik, AesWithTC(t.KSN, tc))
		case j > low && tc>>uint(j)&1 == 0:
			t.Reg[j] = AesTK(ik, AesWithTC(t.KSN, tc>>uint(j)<<uint(j)|1<<uint(j)))
		}
	}
}

func workKey(tk, ksn []byte, usage uint16, h bool) []byte {
	return aesDerive(tk, usage, len(tk), h, tail(ksn, AesTC(ksn)))
}

func pick(resp bool, a, b uint16) uint16 {
	if resp {
		return b
	}
	return a
}

// AesCMAC is AES-CMAC (RFC 4493) under the MAC working key.
func AesCMAC(tk, ksn, data []byte, resp bool) []byte {
	return cmac(workKey(tk, ksn, pick(resp, useMACGen, useMACVer), false), data)
}

func dbl(b []byte) []byte {
	o := make([]byte, 16)
	for i := range 16 {
		o[i] = b[i] << 1
		if i < 15 {
			o[i] |= b[i+1] >> 7
		}
	}
	if b[0]&0x80 != 0 {
		o[15] ^= 0x87
	}
	return o
}

func cmac(key, m []byte) []byte {
	c := aesBlock(key)
	l := make([]byte, 16)
	c.Encrypt(l, l)
	k1 := dbl(l)
	k2 := dbl(k1)
	n := (len(m) + 15) / 16
	if n == 0 {
		n = 1
	}
	last := make([]byte, 16)
	copy(last, m[(n-1)*16:])
	if len(m) > 0 && len(m)%16 == 0 {
		last = xor(last, k1)
	} else {
		last[len(m)-(n-1)*16] = 0x80
		last = xor(last, k2)
	}
	x := make([]byte, 16)
	for i := 0; i < n-1; i++ {
		c.Encrypt(x, xor(x, m[i*16:i*16+16]))
	}
	c.Encrypt(x, xor(x, last))
	return x
}

// AesHMAC is HMAC-SHA256 under the HMAC working key.
func AesHMAC(tk, ksn, data []byte, resp bool) []byte {
	h := hmac.New(sha256.New, workKey(tk, ksn, pick(resp, useMACGen, useMACVer), true))
	h.Write(data)
	return h.Sum(nil)
}

// AesEncrypt and AesDecrypt are data encryption.
func AesEncrypt(tk, ksn, iv, data []byte, resp bool) []byte {
	p := zpad(data, 16)
	cipher.NewCBCEncrypter(aesBlock(workKey(tk, ksn, pick(resp, useEnc, useDec), false)), fitIV(iv, 16)).CryptBlocks(p, p)
	return p
}
func AesDecrypt(tk, ksn, iv, ct []byte, resp bool) []byte {
	p := zpad(ct, 16)
	cipher.NewCBCDecrypter(aesBlock(workKey(tk, ksn, pick(resp, useEnc, useDec), false)), fitIV(iv, 16)).CryptBlocks(p, p)
	return p
}

func panBlock(pan string) ([]byte, error) {
	if len(pan) < 12 || len(pan) > 19 {
		return nil, errors.New("pan length")
	}
	s := string("01234567"[len(pan)-12]) + pan
	return hex.DecodeString(s + strings.Repeat("0", 32-len(s)))
}

// AesDecryptPin recovers the PIN from an ISO format 4 block.
func AesDecryptPin(tk, ksn, ct []byte, pan string) (string, error) {
	if len(ct) != 16 {
		return "", errors.New("not one block")
	}
	pb, err := panBlock(pan)
	if err != nil {
		return "", err
	}
	c := aesBlock(workKey(tk, ksn, usePIN, false))
	a := make([]byte, 16)
	c.Decrypt(a, ct)
	a = xor(a, pb)
	c.Decrypt(a, a)
	s := strings.ToUpper(hex.EncodeToString(a))
	n := strings.IndexByte("0123456789ABC", s[1])
	if s[0] != '4' || n < 4 {
		return "", errors.New("control field")
	}
	for _, d := range s[2 : 2+n] {
		if d > '9' {
			return "", errors.New("digits")
		}
	}
	for _, d := range s[2+n : 16] {
		if d != 'A' {
			return "", errors.New("fill")
		}
	}
	return s[2 : 2+n], nil
}

// AesEncryptPin makes a format 4 block with the given random tail.
func AesEncryptPin(tk, ksn []byte, pin, pan string, rnd []byte) ([]byte, error) {
	if len(pin) < 4 || len(pin) > 12 {
		return nil, errors.New("pin length")
	}
	pb, err := panBlock(pan)
	if err != nil {
		return nil, err
	}
	s := "4" + string("0123456789ABC"[len(pin)]) + pin + strings.Repeat("A", 14-len(pin))
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil, err
	}
	b = append(b, rnd[:8]...)
	c := aesBlock(workKey(tk, ksn, usePIN, false))
	c.Encrypt(b, b)
	b = xor(b, pb)
	c.Encrypt(b, b)
	return b, nil
}
