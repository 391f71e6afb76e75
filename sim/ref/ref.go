package ref

import (
	"encoding/hex"
	"errors"
	"strings"
)

// Dev is one device as the standard sees it.
type Dev struct {
	Odd  bool // the key type does not fit the key: what operations on it do is not prescribed
	AES  bool
	BDK  []byte
	KSN  []byte // registered
	IK   []byte
	tk   map[uint32][]byte
	Type string // AES128...
}

// NewDev parses a registration.
func NewDev(algorithm, keyType, bdk, ksn string) (*Dev, error) {
	d := &Dev{tk: map[uint32][]byte{}, Type: keyType}
	var err error
	if d.BDK, err = hex.DecodeString(bdk); err != nil {
		return nil, err
	}
	if d.KSN, err = hex.DecodeString(ksn); err != nil {
		return nil, err
	}
	switch algorithm {
	case "des":
		if len(d.BDK) != 16 || len(d.KSN) < 4 || len(d.KSN) > 10 {
			return nil, errors.New("lengths")
		}
		d.IK = DesIK(d.BDK, d.KSN)
	case "aes":
		d.AES = true
		if n := len(d.BDK); n != 16 && n != 24 && n != 32 {
			return nil, errors.New("lengths")
		}
		if len(d.KSN) != 12 {
			return nil, errors.New("lengths")
		}
		d.IK = AesIK(d.BDK, d.KSN)
	default:
		return nil, errors.New("algorithm")
	}
	return d, nil
}

// IKHex is the device identity.
func (d *Dev) IKHex() string { return hex.EncodeToString(d.IK) }

// TC is the registered counter.
func (d *Dev) TC() uint32 {
	if d.AES {
		return AesTC(d.KSN)
	}
	return DesTC(d.KSN)
}

// KSNAt is the key serial number with counter tc, lower-case hex.
func (d *Dev) KSNAt(tc uint32) string { return hex.EncodeToString(d.ksn(tc)) }

func (d *Dev) ksn(tc uint32) []byte {
	if d.AES {
		return AesWithTC(d.KSN, tc)
	}
	return DesWithTC(d.KSN, tc)
}

// TK is the transaction key at counter tc.
func (d *Dev) TK(tc uint32) []byte {
	if k, ok := d.tk[tc]; ok {
		return k
	}
	var k []byte
	if d.AES {
		k = AesTK(d.IK, d.ksn(tc))
	} else {
		k = DesTK(d.IK, d.ksn(tc))
	}
	d.tk[tc] = k
	return k
}

// Next is the counter after tc.
func (d *Dev) Next(tc uint32) (uint32, bool) {
	if d.AES {
		return AesNext(tc)
	}
	return DesNext(tc)
}

// Max is the last counter.
func (d *Dev) Max() uint32 {
	if d.AES {
		return AesMax
	}
	return DesMax
}

// ParseTC reads the counter of a key serial number of this device; ok is
// false when the device-identifying part differs.
func (d *Dev) ParseTC(ksn string) (uint32, bool) {
	b, err := hex.DecodeString(ksn)
	if err != nil || len(b) != len(d.KSN) {
		return 0, false
	}
	var tc uint32
	if d.AES {
		tc = AesTC(b)
	} else {
		tc = DesTC(b)
	}
	return tc, strings.EqualFold(d.KSNAt(tc), ksn)
}

func resp(action string) bool { return action == "response" }

// MAC is the expected message authentication code.
func (d *Dev) MAC(tc uint32, data, action, kind string) (string, error) {
	tk := d.TK(tc)
	if !d.AES {
		return hex.EncodeToString(DesMAC(tk, []byte(data), resp(action))), nil
	}
	switch kind {
	case "cmac":
		return hex.EncodeToString(AesCMAC(tk, d.ksn(tc), []byte(data), resp(action))), nil
	case "hmac":
		return hex.EncodeToString(AesHMAC(tk, d.ksn(tc), []byte(data), resp(action))), nil
	}
	return "", errors.New("invalid mac type")
}

// Encrypt is the expected ciphertext.
func (d *Dev) Encrypt(tc uint32, data, action, iv string) string {
	v, _ := hex.DecodeString(iv)
	if d.AES {
		return hex.EncodeToString(AesEncrypt(d.TK(tc), d.ksn(tc), v, []byte(data), resp(action)))
	}
	return hex.EncodeToString(DesEncrypt(d.TK(tc), v, []byte(data), resp(action)))
}

// Decrypt is the expected plaintext.
func (d *Dev) Decrypt(tc uint32, ct, action, iv string) (string, error) {
	v, _ := hex.DecodeString(iv)
	c, err := hex.DecodeString(ct)
	if err != nil {
		return "", err
	}
	if d.AES {
		return string(AesDecrypt(d.TK(tc), d.ksn(tc), v, c, resp(action))), nil
	}
	return string(DesDecrypt(d.TK(tc), v, c, resp(action))), nil
}

// Block is the cipher block length.
func (d *Dev) Block() int {
	if d.AES {
		return 16
	}
	return 8
}

// PinOK reports whether ct is an encryption of the PIN at counter tc.
func (d *Dev) PinOK(tc uint32, ct, pin, pan, format string) bool {
	c, err := hex.DecodeString(ct)
	if err != nil {
		return false
	}
	if d.AES {
		p, err := AesDecryptPin(d.TK(tc), d.ksn(tc), c, pan)
		return err == nil && p == pin
	}
	if format == "" {
		format = "ISO-0"
	}
	if !RandomFill(format) {
		e, err := DesEncryptPin(d.TK(tc), pin, pan, format)
		return err == nil && hex.EncodeToString(e) == strings.ToLower(ct)
	}
	p, err := DesDecryptPin(d.TK(tc), c, pan, format)
	return err == nil && p == Carried(format, pin)
}

// DecryptPin is the expected PIN.
func (d *Dev) DecryptPin(tc uint32, ct, pan, format string) (string, error) {
	c, err := hex.DecodeString(ct)
	if err != nil {
		return "", err
	}
	if d.AES {
		return AesDecryptPin(d.TK(tc), d.ksn(tc), c, pan)
	}
	if format == "" {
		format = "ISO-0"
	}
	return DesDecryptPin(d.TK(tc), c, pan, format)
}

// EncryptPin makes an encrypted PIN block (random fill from rnd).
func (d *Dev) EncryptPin(tc uint32, pin, pan, format string, rnd []byte) (string, error) {
	if d.AES {
		b, err := AesEncryptPin(d.TK(tc), d.ksn(tc), pin, pan, rnd)
		return hex.EncodeToString(b), err
	}
	if format == "" {
		format = "ISO-0"
	}
	b, err := DesEncryptPin(d.TK(tc), pin, pan, format)
	return hex.EncodeToString(b), err
}

// ECB is one block under a bare key.
func ECB(key, blk []byte, aes, dec bool) []byte {
	o := make([]byte, len(blk))
	b := tdesBlock
	if aes {
		b = aesBlock
	}
	if dec {
		b(key).Decrypt(o, blk)
	} else {
		b(key).Encrypt(o, blk)
	}
	return o
}
