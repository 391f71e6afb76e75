From 11041ab19a76f92a9618d9c5219a65bc8dca83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 01/18] fix: decrypt endpoints must decrypt

POST /decrypt_pin and /decrypt_data called EncryptPin and EncryptData.
---
 pkg/server/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 2913645..ef8a0d4 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -274,7 +274,7 @@ func decryptPinEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptPinResponse{}
-		decrypted, err := s.EncryptPin(req.ik, req.encrypted, req.pan, req.format)
+		decrypted, err := s.DecryptPin(req.ik, req.encrypted, req.pan, req.format)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
@@ -445,7 +445,7 @@ func decryptDataEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptDataResponse{}
-		decrypted, err := s.EncryptData(req.ik, req.data, req.action, req.iv)
+		decrypted, err := s.DecryptData(req.ik, req.data, req.action, req.iv)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
-- 
2.43.0


From dab089fce33154f256672424958aceb0d888b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 02/18] fix: answer failed REST operations with an error status

No response type implemented errorer, so every failed operation was answered
with status 200 and an empty "error" object.
---
 pkg/server/handlers.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index ef8a0d4..88c7a34 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -34,6 +34,8 @@ type getMachinesResponse struct {
 	Err      error      `json:"error"`
 }
 
+func (r getMachinesResponse) error() error { return r.Err }
+
 func decodeGetMachinesRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	return getMachinesRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -59,6 +61,8 @@ type findMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r findMachineResponse) error() error { return r.Err }
+
 func decodeFindMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := findMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -98,6 +102,8 @@ type createMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r createMachineResponse) error() error { return r.Err }
+
 func decodeCreateMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := createMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -143,6 +149,8 @@ type generateKSNResponse struct {
 	Err error  `json:"error"`
 }
 
+func (r generateKSNResponse) error() error { return r.Err }
+
 func decodeGenerateKSNRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateKSNRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -184,6 +192,8 @@ type encryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptPinResponse) error() error { return r.Err }
+
 func decodeEncryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -241,6 +251,8 @@ type decryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r decryptPinResponse) error() error { return r.Err }
+
 func decodeDecryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -298,6 +310,8 @@ type generateMacResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r generateMacResponse) error() error { return r.Err }
+
 func decodeGenerateMacRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateMacRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -355,6 +369,8 @@ type encryptDataResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptDataResponse) error() error { return r.Err }
+
 func decodeEncryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -412,6 +428,8 @@ type decryptDataResponse struct {
 	Err  error  `json:"error"`
 }
 
+func (r decryptDataResponse) error() error { return r.Err }
+
 func decodeDecryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
-- 
2.43.0


From 4df25a2c7de3547c2d15ce97c97783220f0d0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 03/18] fix: truncate derived AES keys to the requested length

A 192-bit key was derived as two whole blocks (32 bytes), so AES-192 keys were
wrong and rejected by every later operation.
---
 pkg/aes/aes_internal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index b890cd5..64ba563 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -138,7 +138,7 @@ func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error
 		derivationData.KeyBlockCounter++
 	}
 
-	return derivedKey, nil
+	return derivedKey[:derivedKeyLen], nil
 }
 
 // Create key derivation data
-- 
2.43.0


From 9404c96b14b2850776b671ad22b3f8880a1b49a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 04/18] fix: generate the next key serial number without
 touching the input

GenerateNextAesKsn and GenerateNextDesKsn wrote the new counter into the
buffer of the caller, and panicked on key serial numbers that are too short.
---
 pkg/util.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/pkg/util.go b/pkg/util.go
index 5e04b4d..d9679b8 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -13,6 +13,14 @@ const (
 	MaxTypeHmac  = "hmac"
 )
 
+// Lengths of key serial numbers in bytes. A TDES key serial number shorter than
+// 10 bytes is padded to the left, but has to hold its transaction counter.
+const (
+	AesKsnLength    = 12
+	DesKsnLength    = 10
+	DesKsnMinLength = 4
+)
+
 func HexDecode(data string) []byte {
 	if len(data) == 0 {
 		return nil
@@ -49,6 +57,10 @@ func GetAesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) != AesKsnLength {
+		return nil, errors.New("invalid key serial number length")
+	}
+
 	var tcMax uint32 = 0xFFFF0000
 	tc := GetAesTcFromKsn(ksn)
 
@@ -73,10 +85,10 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 		tc += lsbSetBit
 	}
 
-	tcMsb := make([]byte, 4)
-	binary.BigEndian.PutUint32(tcMsb, tc)
+	result := make([]byte, len(ksn))
+	copy(result, ksn)
+	binary.BigEndian.PutUint32(result[len(result)-4:], tc)
 
-	result := append(ksn[:8], tcMsb...)
 	return result, nil
 }
 
@@ -92,6 +104,10 @@ func GetDesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) < DesKsnMinLength || len(ksn) > DesKsnLength {
+		return nil, errors.New("invalid key serial number length")
+	}
+
 	var tcMax uint32 = 0x1FF800
 	tc := GetDesTcFromKsn(ksn)
 
@@ -121,15 +137,15 @@ func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
 		return nil, errors.New("transaction already counter exhausted")
 	}
 
-	{
-		length := len(ksn)
-		ksn[length-1] = byte(tc)
-		ksn[length-2] = byte(tc >> 8)
-		ksn[length-3] &= 0xE0
-		ksn[length-3] |= byte(tc >> 16)
-	}
+	length := len(ksn)
+	result := make([]byte, length)
+	copy(result, ksn)
+	result[length-1] = byte(tc)
+	result[length-2] = byte(tc >> 8)
+	result[length-3] &= 0xE0
+	result[length-3] |= byte(tc >> 16)
 
-	return ksn, nil
+	return result, nil
 }
 
 func IsValidAesKsn(ksn []byte) bool {
-- 
2.43.0


From cd836f10b1f607c0731770c5f5b683bf26f87777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 05/18] fix: do not issue an AES counter beyond the last valid
 one

After FFFF0000 the invalid counter FFFF0001 was issued once.
---
 pkg/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util.go b/pkg/util.go
index d9679b8..d0d3a33 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -85,6 +85,10 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 		tc += lsbSetBit
 	}
 
+	if tc > tcMax {
+		return nil, errors.New("transaction already counter exhausted")
+	}
+
 	result := make([]byte, len(ksn))
 	copy(result, ksn)
 	binary.BigEndian.PutUint32(result[len(result)-4:], tc)
-- 
2.43.0


From 3d0179960b4f5961835131d3b65a55bd24c6c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 06/18] fix: keep AES derivation from overwriting the key
 serial number

createDerivationData appended the counter to a slice of the key serial number
of the caller, which overwrote the end of that buffer: concurrent derivations on
one key serial number raced. Too short key serial numbers made it panic.
---
 pkg/aes/aes.go          | 11 ++++++++++-
 pkg/aes/aes_internal.go |  9 ++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 783fbae..22a4424 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -5,6 +5,7 @@ import (
 	"crypto/cipher"
 	"crypto/hmac"
 	"crypto/sha256"
+	"errors"
 	"fmt"
 
 	"github.com/chmike/cmac-go"
@@ -45,7 +46,11 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:8], 0)
+	if len(ksn) < initialKeyIdLength {
+		return nil, errors.New("invalid key serial number length")
+	}
+
+	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:initialKeyIdLength], 0)
 	if err != nil {
 		return nil, err
 	}
@@ -71,6 +76,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(ksn) != initialKeyIdLength+transactionCounterLength {
+		return nil, errors.New("invalid key serial number length")
+	}
+
 	transactionKey := make([]byte, len(ik))
 	copy(transactionKey, ik)
 
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index 64ba563..9cfdab2 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -185,9 +185,12 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 		data.InitialKeyID = make([]byte, initialKeyIdLength)
 		copy(data.InitialKeyID, initialKeyID)
 	default:
-		tcBuf := make([]byte, 4)
-		binary.BigEndian.PutUint32(tcBuf, tc)
-		data.InitialKeyID = append(initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength], tcBuf...)
+		if len(initialKeyID) != initialKeyIdLength+transactionCounterLength {
+			return nil, errors.New("invalid key serial number length")
+		}
+		data.InitialKeyID = make([]byte, derivationIdLength+transactionCounterLength)
+		copy(data.InitialKeyID, initialKeyID[derivationKeyIdLength:initialKeyIdLength])
+		binary.BigEndian.PutUint32(data.InitialKeyID[derivationIdLength:], tc)
 	}
 
 	return &data, nil
-- 
2.43.0


From 35d8e8e907944c0de06aa9c308d4173b26c19517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 07/18] fix: refuse TDES keys and key serial numbers of a wrong
 length

Keys were silently padded or cut to 16 bytes, a missing or invalid key serial
number was taken for one of all FF bytes, and the counter of a key serial number
longer than 10 bytes was not the one in use, so every advance kept the same key.
---
 pkg/des/des.go          | 22 ++++++++++++++++++++++
 pkg/des/des_internal.go | 10 ++++++++++
 2 files changed, 32 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 1d07bd6..670ab67 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -30,6 +30,9 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 	if len(bdk) != keyLen {
 		return nil, fmt.Errorf("base derivative key length must be %d bytes", keyLen)
 	}
+	if err := checkKeySerialNumber(ksn); err != nil {
+		return nil, err
+	}
 
 	ksnBytes := serializeKeySerialNumber(ksn)
 	removeTransactionCounter(ksnBytes)
@@ -66,6 +69,13 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 //   - result is 16 bytes transaction key
 //   - err
 func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
+	if len(ik) != keyLen {
+		return nil, fmt.Errorf("initial key length must be %d bytes", keyLen)
+	}
+	if err := checkKeySerialNumber(ksn); err != nil {
+		return nil, err
+	}
+
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
 	ksnBytes := make([]byte, keySerialLen)
@@ -195,6 +205,10 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 //   - result is generated mac (use the first 4 bytes of this result)
 //   - err
 func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -270,6 +284,10 @@ func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
 //   - result is encrypted data
 //   - err
 func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -342,6 +360,10 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 //   - result is transaction request data ( must be a multiple of tdes block length [8])
 //   - err
 func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, error) {
+	if len(currentKey) != keyLen {
+		return "", fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index ad12432..b51d0c8 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"crypto/des" //nolint:gosec
 	"fmt"
+
 	"github.com/moov-io/dukpt/encryption"
+	"github.com/moov-io/dukpt/pkg"
 )
 
 const (
@@ -28,6 +30,14 @@ func serializeKeySerialNumber(ksn []byte) []byte {
 	return ksnBytes
 }
 
+// A key serial number has at most 10 bytes and at least those of its transaction counter.
+func checkKeySerialNumber(ksn []byte) error {
+	if len(ksn) < pkg.DesKsnMinLength || len(ksn) > keySerialLen {
+		return fmt.Errorf("key serial number length must be between %d and %d bytes", pkg.DesKsnMinLength, keySerialLen)
+	}
+	return nil
+}
+
 // Extract transaction counter value from KSN. The transaction counter is the last 21 bits of the KSN.
 func removeTransactionCounter(ksn []byte) {
 	if len(ksn) != keySerialLen {
-- 
2.43.0


From 9af87932522c56b6765fb0dc5b1dd16284dab23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 08/18] fix: handle an initial vector of any length the same
 way everywhere

A long one made EncryptData panic and a short one made the TDES DecryptData
panic; padding a short one could write past its end in the buffer of the caller.
---
 pkg/aes/aes.go | 27 ++++++++-------------------
 pkg/des/des.go | 25 ++++++++-----------------
 2 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 22a4424..aafa94b 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -331,13 +331,9 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	}
+	// default null
+	initialVector := make([]byte, aes.BlockSize)
+	copy(initialVector, iv)
 
 	repeatCnt := len(plaintext) / aes.BlockSize
 	if len(plaintext)%aes.BlockSize > 0 {
@@ -353,7 +349,7 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, fmt.Errorf("making cipher from datakey: %w", err)
 	}
 
-	mode := cipher.NewCBCEncrypter(block, iv)
+	mode := cipher.NewCBCEncrypter(block, initialVector)
 	mode.CryptBlocks(ciphertext, serializePlaintext)
 
 	return ciphertext, nil
@@ -399,16 +395,9 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	} else if len(iv) > aes.BlockSize {
-		iv = iv[:aes.BlockSize]
-	}
+	// default null
+	initialVector := make([]byte, aes.BlockSize)
+	copy(initialVector, iv)
 
 	repeatCnt := len(ciphertext) / aes.BlockSize
 	if len(ciphertext)%aes.BlockSize > 0 {
@@ -424,7 +413,7 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", fmt.Errorf("making cipher from datakey: %w", err)
 	}
 
-	mode := cipher.NewCBCDecrypter(block, iv)
+	mode := cipher.NewCBCDecrypter(block, initialVector)
 	mode.CryptBlocks(plaintext, serializePlaintext)
 
 	return string(plaintext), nil
diff --git a/pkg/des/des.go b/pkg/des/des.go
index 670ab67..3b5b529 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -329,15 +329,11 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 	ciphertext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-	if len(iv) < desBlockLen {
-		iv = append(iv, make([]byte, desBlockLen-len(iv))...)
-	}
+	// default null
+	initialVector := make([]byte, desBlockLen)
+	copy(initialVector, iv)
 
-	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), iv)
+	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), initialVector)
 	mode.CryptBlocks(ciphertext, serializePlaintext)
 
 	return ciphertext, nil
@@ -404,16 +400,11 @@ func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, erro
 	plaintext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-
-	if len(iv) > desBlockLen {
-		iv = iv[:desBlockLen]
-	}
+	// default null
+	initialVector := make([]byte, desBlockLen)
+	copy(initialVector, iv)
 
-	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), iv)
+	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), initialVector)
 	mode.CryptBlocks(plaintext, serializePlaintext)
 
 	return string(plaintext), nil
-- 
2.43.0


From 3fa0916b57574a1771d134a83b4003d211fa3143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 09/18] fix: decode TDES PIN blocks without crashing, and VISA3
 ones at all

The decoder of VISA3 looks for an upper-case delimiter, and those of the ISO-0
family panic on a block without a valid length digit.
---
 pkg/des/des.go          |  7 +------
 pkg/des/des_internal.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 3b5b529..3462d4c 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -182,12 +182,7 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
-	pinstr, err := formatter.Decode(pkg.HexEncode(pinBlock), pan)
-	if err != nil {
-		return "", err
-	}
-
-	return pinstr, nil
+	return decodePinblock(formatter, strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 }
 
 // Generate MAC using DUKPT transaction key
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index b51d0c8..1e44f8f 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -3,10 +3,12 @@ package des
 import (
 	"bytes"
 	"crypto/des" //nolint:gosec
+	"errors"
 	"fmt"
 
 	"github.com/moov-io/dukpt/encryption"
 	"github.com/moov-io/dukpt/pkg"
+	"github.com/moov-io/pinblock/formats"
 )
 
 const (
@@ -133,6 +135,17 @@ func encryptPinblock(currentKey, pinblock []byte) ([]byte, error) {
 	return cipher.Encrypt(pinblock)
 }
 
+// The decoders panic on a block whose length digit is out of range, as in one which was encrypted with another key
+func decodePinblock(formatter formats.Format, pinblock, pan string) (pin string, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			pin, err = "", errors.New("unable to decode pin block")
+		}
+	}()
+
+	return formatter.Decode(pinblock, pan)
+}
+
 func decryptPinblock(currentKey, ciphertext []byte) ([]byte, error) {
 	if len(currentKey) != keyLen {
 		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
-- 
2.43.0


From 918fa81fcdd800703ce7fd0ff85293d1851598f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 10/18] fix: refuse parameters that are not hexadecimal and
 PINs that are not decimal

An invalid hexadecimal value was taken for an empty one: decrypting data that is
not hexadecimal succeeded with an empty result, and a mistyped initial vector was
replaced by zeros.
---
 pkg/server/wrapper.go | 53 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/pkg/server/wrapper.go b/pkg/server/wrapper.go
index 0039e42..4a598d5 100644
--- a/pkg/server/wrapper.go
+++ b/pkg/server/wrapper.go
@@ -2,6 +2,8 @@ package server
 
 import (
 	"errors"
+	"fmt"
+
 	"github.com/moov-io/dukpt/pkg"
 	"github.com/moov-io/dukpt/pkg/aes"
 	"github.com/moov-io/dukpt/pkg/des"
@@ -31,12 +33,36 @@ func (p UnifiedParams) ValidateAlgorithm() error {
 	return nil
 }
 
+// checkHex returns an error unless all values are hexadecimal
+func checkHex(values ...string) error {
+	for _, v := range values {
+		if len(v) > 0 && pkg.HexDecode(v) == nil {
+			return fmt.Errorf("invalid hexadecimal value of length %d", len(v))
+		}
+	}
+	return nil
+}
+
+// checkPin returns an error unless the pin consists of decimal digits
+func checkPin(pin string) error {
+	for _, c := range pin {
+		if c < '0' || c > '9' {
+			return errors.New("pin must consist of digits")
+		}
+	}
+	return nil
+}
+
 type WrapperCall func(params UnifiedParams) (string, error)
 
 func InitialKey(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.BKD, params.KSN); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
 		buf, err = aes.DerivationOfInitialKey(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN))
 
@@ -54,6 +80,10 @@ func TransactionKey(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.IK, params.KSN); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
 		buf, err = aes.DeriveCurrentTransactionKey(pkg.HexDecode(params.IK), pkg.HexDecode(params.KSN))
 	} else {
@@ -70,6 +100,13 @@ func EncryptPin(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.TK, params.KSN); err != nil {
+		return "", err
+	}
+	if err = checkPin(params.PIN); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
 		buf, err = aes.EncryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.PIN, params.PAN, params.AlgorithmKey)
 	} else {
@@ -86,6 +123,10 @@ func DecryptPin(params UnifiedParams) (string, error) {
 	var buf string
 	var err error
 
+	if err = checkHex(params.TK, params.KSN, params.PIN); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
 		buf, err = aes.DecryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.PIN), params.PAN, params.AlgorithmKey)
 	} else {
@@ -102,6 +143,10 @@ func GenerateMac(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.TK, params.KSN); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
 		if params.MacType != pkg.MaxTypeCmac && params.MacType != pkg.MaxTypeHmac {
 			return "", errors.New("invalid mac type")
@@ -125,6 +170,10 @@ func EncryptData(params UnifiedParams) (string, error) {
 	var buf []byte
 	var err error
 
+	if err = checkHex(params.TK, params.KSN, params.IV); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
 		buf, err = aes.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.IV), params.Plaintext, params.AlgorithmKey, params.Action)
 	} else {
@@ -141,6 +190,10 @@ func DecryptData(params UnifiedParams) (string, error) {
 	var buf string
 	var err error
 
+	if err = checkHex(params.TK, params.KSN, params.IV, params.Ciphertext); err != nil {
+		return "", err
+	}
+
 	if params.Algorithm == pkg.AlgorithmAes {
 		buf, err = aes.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.AlgorithmKey, params.Action)
 	} else {
-- 
2.43.0


From ef02c028667604c7eeb71f8b0df49b9f1931ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 11/18] fix: serialise changes of machines and hand out copies

The service changed and read stored machines without synchronisation and gave
their pointers to callers: concurrent requests for the next key serial number
got the same one, other requests used the key of one transaction with the key
serial number of another, and creating a machine again changed the stored one.
---
 pkg/server/service.go | 62 +++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 0392333..4c37b2b 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -3,6 +3,7 @@ package server
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/moov-io/dukpt/pkg"
 	"github.com/moov-io/dukpt/pkg/aes"
@@ -30,6 +31,9 @@ type Service interface {
 // service a concrete implementation of the service.
 type service struct {
 	store Repository
+
+	// mtx guards the stored machines, callers only get copies of them
+	mtx sync.RWMutex
 }
 
 // NewService creates a new concrete service
@@ -61,40 +65,65 @@ func (s *service) CreateMachine(m *Machine) error {
 		return err
 	}
 
-	m.InitialKey = ik
-
 	// getting transaction key
 	params.IK = ik
-	m.TransactionKey, err = TransactionKey(params)
+	tk, err := TransactionKey(params)
 	if err != nil {
 		return err
 	}
 
-	if err = s.store.StoreMachine(m); err != nil {
+	created := *m
+	created.InitialKey = ik
+	created.CurrentKSN = m.KeySerialNumber
+	created.TransactionKey = tk
+
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
+	stored := created
+	if err = s.store.StoreMachine(&stored); err != nil {
 		return err
 	}
 
+	*m = created
 	return nil
 }
 
 // GetMachine returns a machine based on the supplied initial key
 func (s *service) GetMachine(ik string) (*Machine, error) {
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
 	f, err := s.store.FindMachine(ik)
 	if err != nil {
 		return nil, ErrNotFound
 	}
-	return f, nil
+
+	found := *f
+	return &found, nil
 }
 
 func (s *service) GetMachines() []*Machine {
-	return s.store.FindAllMachines()
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
+	stored := s.store.FindAllMachines()
+	machines := make([]*Machine, 0, len(stored))
+	for _, m := range stored {
+		found := *m
+		machines = append(machines, &found)
+	}
+	return machines
 }
 
 // MakeNextKSN does to generate next ksn
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
-	m, err := s.GetMachine(ik)
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
+	m, err := s.store.FindMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %v(%s)", ErrNotFound, ik)
 	}
 
 	var nextKsn []byte
@@ -110,24 +139,29 @@ func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 		}
 	}
 
-	// update machine
-	m.CurrentKSN = pkg.HexEncode(nextKsn)
-
 	params := UnifiedParams{
 		Algorithm:    m.Algorithm,
 		AlgorithmKey: m.AlgorithmKey,
-		KSN:          m.CurrentKSN,
+		KSN:          pkg.HexEncode(nextKsn),
 		IK:           ik,
 	}
-	m.TransactionKey, err = TransactionKey(params)
+	tk, err := TransactionKey(params)
 	if err != nil {
 		return nil, err
 	}
 
-	return m, err
+	// update machine
+	m.CurrentKSN = params.KSN
+	m.TransactionKey = tk
+
+	next := *m
+	return &next, nil
 }
 
 func (s *service) DeleteMachine(ik string) error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	return s.store.DeleteMachine(ik)
 }
 
-- 
2.43.0


From 1f804f4373ff8e1ec6f8d48019998056ea50e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:40 +0000
Subject: [PATCH 12/18] fix: give the admin server timeouts

---
 cmd/server/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index f920498..2ef20e4 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -96,7 +96,10 @@ func main() {
 	}
 
 	// Admin server (metrics and debugging)
-	adminServer, _ := admin.New(admin.Opts{Addr: *adminAddr})
+	adminServer, _ := admin.New(admin.Opts{
+		Addr:    *adminAddr,
+		Timeout: 45 * time.Second, // without one a stalled client would keep Shutdown waiting forever
+	})
 	adminServer.AddVersionHandler(dukpt.Version) // Setup 'GET /version'
 	go func() {
 		logger.Logf("admin listening on %s", adminServer.BindAddr())
-- 
2.43.0


From 1792c8696b36e55bd6320f97628d1bb7af0f5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 13/18] fix: report that the admin server cannot start instead
 of crashing

---
 cmd/server/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 2ef20e4..8a814a3 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -96,10 +96,14 @@ func main() {
 	}
 
 	// Admin server (metrics and debugging)
-	adminServer, _ := admin.New(admin.Opts{
+	adminServer, err := admin.New(admin.Opts{
 		Addr:    *adminAddr,
 		Timeout: 45 * time.Second, // without one a stalled client would keep Shutdown waiting forever
 	})
+	if err != nil {
+		logger.LogErrorf("problem starting admin http: %v", err)
+		os.Exit(1)
+	}
 	adminServer.AddVersionHandler(dukpt.Version) // Setup 'GET /version'
 	go func() {
 		logger.Logf("admin listening on %s", adminServer.BindAddr())
-- 
2.43.0


From 8569ee30507f4aec18f516c361ef20c387627a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 14/18] fix: install the signal handler before serving

---
 cmd/server/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 8a814a3..1ff81da 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -56,9 +56,9 @@ func main() {
 
 	// Listen for application termination.
 	errs := make(chan error)
+	c := make(chan os.Signal, 1)
+	signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
 	go func() {
-		c := make(chan os.Signal, 1)
-		signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
 		errs <- fmt.Errorf("%s", <-c)
 	}()
 
-- 
2.43.0


From 955425a4b4dcfb0816d4f7c85efbbea6ce458567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 15/18] fix: do not exit with success when the result could not
 be written

---
 cmd/dukptcli/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 04b0244..b12a93d 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -306,5 +306,8 @@ func makeFuncCall(f server.WrapperCall, params server.UnifiedParams) {
 		os.Exit(2)
 	}
 
-	fmt.Printf("RESULT: %s\n", result)
+	if _, err := fmt.Printf("RESULT: %s\n", result); err != nil {
+		fmt.Fprintf(os.Stderr, "problem writing result: %v\n", err)
+		os.Exit(2)
+	}
 }
-- 
2.43.0


From fdc5f6198f9425637b1bd40262c7320addfd5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 16/18] fix: accept the documented key types on the command
 line

The options are documented as aes128, aes192 and aes256 (and aes128 is the
default), but only upper-case names were understood, so that no PIN, MAC or
data operation worked with -algorithm aes as documented.
---
 cmd/dukptcli/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index b12a93d..0b9def0 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/moov-io/dukpt"
 	"github.com/moov-io/dukpt/pkg"
@@ -78,7 +79,7 @@ func main() {
 	}
 
 	params.Algorithm = *flagAlgorithm
-	params.AlgorithmKey = *flagAlgorithmKeyType
+	params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
 
 	// checking ik params
 	if *flagInitialKey {
-- 
2.43.0


From 6e9e88f09a3d79fb717ded1bc7873ad796b67ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 17/18] fix: derive the HMAC key for -gm.type hmac

GenerateHMAC takes an HMAC key type; the tool passed the AES one, so that
no HMAC could be computed with the documented key types. The service makes
the same translation.
---
 cmd/dukptcli/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 0b9def0..402ddb6 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -215,6 +215,9 @@ func main() {
 				fmt.Printf("please select valid mac type with gm.type flag\n")
 				os.Exit(1)
 			}
+			if *flagGenerateMacType == pkg.MaxTypeHmac {
+				params.AlgorithmKey = strings.Replace(params.AlgorithmKey, "AES", "HMAC", 1)
+			}
 		}
 
 		params.TK = *flagGenerateMacTK
-- 
2.43.0


From b5adf58b9a70a80aa2ebd49836d784455dbd2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 18/18] fix: refuse PINs which are not decimal in the library
 as well

---
 pkg/aes/aes.go        |  4 ++++
 pkg/des/des.go        |  4 ++++
 pkg/server/wrapper.go | 13 -------------
 pkg/util.go           | 10 ++++++++++
 4 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index aafa94b..eb36dcc 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -124,6 +124,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 //   - result is cipher text
 //   - err
 func EncryptPin(currentKey, ksn []byte, pin, pan string, keyType string) ([]byte, error) {
+	if err := pkg.CheckPin(pin); err != nil {
+		return nil, err
+	}
+
 	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
 		return nil, err
 	}
diff --git a/pkg/des/des.go b/pkg/des/des.go
index 3462d4c..4be4d78 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -142,6 +142,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 //   - result is cipher text
 //   - err
 func EncryptPin(currentKey []byte, pin, pan string, format string) ([]byte, error) {
+	if err := pkg.CheckPin(pin); err != nil {
+		return nil, err
+	}
+
 	formatter, err := formats.NewFormatter(strings.ToUpper(format))
 	if err != nil {
 		return nil, err
diff --git a/pkg/server/wrapper.go b/pkg/server/wrapper.go
index 4a598d5..1f7340f 100644
--- a/pkg/server/wrapper.go
+++ b/pkg/server/wrapper.go
@@ -43,16 +43,6 @@ func checkHex(values ...string) error {
 	return nil
 }
 
-// checkPin returns an error unless the pin consists of decimal digits
-func checkPin(pin string) error {
-	for _, c := range pin {
-		if c < '0' || c > '9' {
-			return errors.New("pin must consist of digits")
-		}
-	}
-	return nil
-}
-
 type WrapperCall func(params UnifiedParams) (string, error)
 
 func InitialKey(params UnifiedParams) (string, error) {
@@ -103,9 +93,6 @@ func EncryptPin(params UnifiedParams) (string, error) {
 	if err = checkHex(params.TK, params.KSN); err != nil {
 		return "", err
 	}
-	if err = checkPin(params.PIN); err != nil {
-		return "", err
-	}
 
 	if params.Algorithm == pkg.AlgorithmAes {
 		buf, err = aes.EncryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.PIN, params.PAN, params.AlgorithmKey)
diff --git a/pkg/util.go b/pkg/util.go
index d0d3a33..e89e3c4 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -35,6 +35,16 @@ func HexDecode(data string) []byte {
 	return out
 }
 
+// CheckPin returns an error unless the pin consists of decimal digits
+func CheckPin(pin string) error {
+	for _, c := range pin {
+		if c < '0' || c > '9' {
+			return errors.New("pin must consist of digits")
+		}
+	}
+	return nil
+}
+
 func HexEncode(data []byte) string {
 	if len(data) == 0 {
 		return ""
-- 
2.43.0

