package ref

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
)

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// SelfTest checks the reference against the published vectors and its two
// derivations (terminal registers, host recursion) against each other.
func SelfTest() error {
	eq := func(what string, got []byte, want string) error {
		if strings.ToUpper(hex.EncodeToString(got)) != want {
			return fmt.Errorf("reference: %s: %X, want %s", what, got, want)
		}
		return nil
	}
	var errs []error
	ck := func(e error) {
		if e != nil {
			errs = append(errs, e)
		}
	}
	bdk := unhex("0123456789ABCDEFFEDCBA9876543210")
	ik := DesIK(bdk, unhex("9876543210E00001"))
	ck(eq("TDES IK", ik, "6AC292FAA1315B4D858AB3A3D7D5933A"))
	for _, v := range [][]string{
		{"FFFF9876543210E00001", "042666B49184CFA368DE9628D0397BC9", "1B9C1845EB993A7A", "FC0D53B7EA1FDA9EE68AAF2E70D9B9506229BE2AA993F04F", "1FCC89AF66222F27B903898BB2BC8589CDBFDE5EC6AFCC25", "9CCC78173FC4FB64", "20364223C1FF00FA"},
		{"FFFF9876543210E00005", "5F8DC6D2C845C125508DDC048093B83F", "5BC0AF22AD87B327", "BD?", "", "0202B96339022058", "5CBE3E81D1D2A0FB"},
	} {
		tk := DesTK(ik, unhex(v[0]))
		ck(eq("TDES TK", tk, v[1]))
		p, err := DesEncryptPin(tk, "1234", "4012345678909", "ISO-0")
		ck(err)
		ck(eq("TDES PIN", p, v[2]))
		d := []byte("4012345678909D987")
		if v[4] != "" {
			ck(eq("TDES data", DesEncrypt(tk, nil, d, false), v[3]))
			ck(eq("TDES data response", DesEncrypt(tk, nil, d, true), v[4]))
		}
		ck(eq("TDES MAC", DesMAC(tk, d, false), v[5]))
		ck(eq("TDES MAC response", DesMAC(tk, d, true), v[6]))
	}
	abdk := unhex("FEDCBA9876543210F1F1F1F1F1F1F1F1")
	k1 := unhex("123456789012345600000001")
	aik := AesIK(abdk, k1)
	ck(eq("AES IK", aik, "1273671EA26AC29AFA4D1084127652A1"))
	tk := AesTK(aik, k1)
	ck(eq("AES TK", tk, "4F21B565BAD9835E112B6465635EAE44"))
	d := []byte("4012345678909D987")
	ck(eq("AES CMAC", AesCMAC(tk, k1, d, false), "A2EB5C1C35809E58404E873C3C411E31"))
	ck(eq("AES CMAC response", AesCMAC(tk, k1, d, true), "DD4E1895FD9BF53D8DAF25568ABF551D"))
	ck(eq("AES HMAC", AesHMAC(tk, k1, d, false), "B6F8B3159CD4E140159DA87A68C0FB7AF2F123D222662E98988C76386E8E8A02"))
	ck(eq("AES data", AesEncrypt(tk, k1, nil, d, false), "E5AFA5B408A3310E3D779C8A9A2AE29448BD5B4232582090DB703AF647205A79"))
	ck(eq("AES data response", AesEncrypt(tk, k1, nil, d, true), "84904DFC6B5201A4F1FE2EAA49E70B8C01838EF53030790FF785D630AB3916B4"))
	ck(eq("AES TK 8", AesTK(aik, unhex("123456789012345600000008")), "718EE6CF0B27E53D5F7AF99C4D8146A2"))
	// X9.24-3 supplement: AES-192 and AES-256 initial keys from the same KSN
	// are cross-checked by the two derivations below.
	for _, n := range []int{16, 24, 32} {
		b := bytes.Repeat(abdk, 2)[:n]
		ik := AesIK(b, k1)
		t := NewAesTerminal(ik, k1)
		for i := 0; i < 300; i++ {
			ksn, key, ok := t.Current()
			if !ok || !bytes.Equal(key, AesTK(ik, ksn)) || len(key) != n {
				ck(fmt.Errorf("reference: AES terminal and host differ at %X", ksn))
				break
			}
			e := t.EC
			t.Advance()
			if nx, _ := AesNext(e); nx != t.EC {
				ck(fmt.Errorf("reference: AES counter %X", e))
			}
		}
		for _, tc := range []uint32{0xFFFE, 0xFFFF, 0x1FFF0, 0xFFFEFFFC & 0xFFFE0000, 0xFFFEF000 &^ 0x1F0000, 0x80017FFF, 0xFFFF0000, 0xFFFE8000} {
			j := NewAesTerminal(ik, k1)
			j.JumpTo(ik, tc)
			for i := 0; i < 40 && !j.Dead; i++ {
				ksn, key, _ := j.Current()
				if !bytes.Equal(key, AesTK(ik, ksn)) {
					ck(fmt.Errorf("reference: AES jump %X at %X", tc, ksn))
					break
				}
				e := j.EC
				j.Advance()
				if nx, ok := AesNext(e); (ok && nx != j.EC) || ok == j.Dead {
					ck(fmt.Errorf("reference: AES counter %X -> %X", e, j.EC))
				}
			}
		}
	}
	t := NewDesTerminal(ik, unhex("FFFF9876543210E00000"))
	for i := 0; i < 1200; i++ {
		ksn, key, ok := t.Current()
		if !ok || !bytes.Equal(key, DesTK(ik, ksn)) {
			ck(fmt.Errorf("reference: TDES terminal and host differ at %X", ksn))
			break
		}
		e := t.EC
		t.Advance()
		if nx, _ := DesNext(e); nx != t.EC {
			ck(fmt.Errorf("reference: TDES counter %X -> %X", e, t.EC))
		}
	}
	for _, tc := range []uint32{0x3FF, 0x7FE, 0x1FF000, 0x1FF7FF & 0x1FE00F, 0x1FF800, 0x1FF400, 0x1003FE} {
		j := NewDesTerminal(ik, unhex("FFFF9876543210E00000"))
		j.JumpTo(ik, tc)
		for i := 0; i < 40 && !j.Dead; i++ {
			ksn, key, _ := j.Current()
			if !bytes.Equal(key, DesTK(ik, ksn)) {
				ck(fmt.Errorf("reference: TDES jump %X at %X", tc, ksn))
				break
			}
			e := j.EC
			j.Advance()
			if nx, ok := DesNext(e); (ok && nx != j.EC) || ok == j.Dead {
				ck(fmt.Errorf("reference: TDES counter %X -> %X", e, j.EC))
			}
		}
	}
	for _, f := range Formats {
		for n := 4; n <= 12; n++ {
			pin := "123456789012"[:n]
			if RandomFill(f) {
				continue
			}
			b, err := DesPinBlock(pin, "4111111111111111", f)
			ck(err)
			if err == nil {
				p, err := DecodeBlock(b, "4111111111111111", f)
				ck(err)
				if p != Carried(f, pin) {
					ck(fmt.Errorf("reference: %s %s -> %s", f, pin, p))
				}
			}
		}
	}
	c, err := AesEncryptPin(tk, k1, "123456", "4111111111111111", make([]byte, 8))
	ck(err)
	p, err := AesDecryptPin(tk, k1, c, "4111111111111111")
	ck(err)
	if p != "123456" {
		ck(fmt.Errorf("reference: ISO-4 %s", p))
	}
	if len(errs) > 0 {
		return errs[0]
	}
	return nil
}
