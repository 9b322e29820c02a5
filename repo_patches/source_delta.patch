From 7bc18af33f7962d6a43b05115240f4488b600444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 01/26] fix: reject truncated and over-long VarInts when
 parsing transactions

DecodeVarInt indexed past the end of short buffers, and script lengths
close to 2^63 overflowed the length check, so malformed transactions
panicked instead of returning an error.
---
 transaction/Transaction.go   |  6 ++++++
 transaction/input/Input.go   |  7 +++++++
 transaction/output/Output.go |  7 +++++++
 utils/VarInt.go              | 14 ++++++++++++++
 4 files changed, 34 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index b7aa9f8..7059576 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -76,6 +76,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 	offset += 4
 
 	inputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("input count is truncated")
+	}
 	offset += size
 
 	// create inputs
@@ -92,6 +95,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 
 	// create outputs
 	outputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("output count is truncated")
+	}
 	offset += size
 	for i = 0; i < outputCount; i++ {
 		o, size, err := output.NewFromBytes(b[offset:])
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 170ac29..aaeec38 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -56,8 +56,15 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 
 	offset := 36
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 {
+		return nil, 0, fmt.Errorf("input script length is truncated")
+	}
 	offset += size
 
+	if l > uint64(len(bytes)-offset) {
+		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
+	}
+
 	totalLength := offset + int(l) + 4 // 4 bytes for nSeq
 
 	if len(bytes) < totalLength {
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index c41522b..63a4185 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -39,8 +39,15 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 
 	offset := 8
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 {
+		return nil, 0, fmt.Errorf("output script length is truncated")
+	}
 	offset += size
 
+	if l > uint64(len(bytes)-offset) {
+		return nil, 0, fmt.Errorf("output length too short < 8 + script")
+	}
+
 	totalLength := offset + int(l)
 
 	if len(bytes) < totalLength {
diff --git a/utils/VarInt.go b/utils/VarInt.go
index 796aefd..74f5606 100644
--- a/utils/VarInt.go
+++ b/utils/VarInt.go
@@ -27,18 +27,32 @@ func VarInt(i uint64) []byte {
 
 // DecodeVarInt takes a byte array in VarInt format and returns the
 // decoded unsigned integer value of the length and it's size in bytes.
+// If the array is too short to hold the VarInt, the size returned is 0.
 // See http://learnmeabitcoin.com/glossary/varint
 func DecodeVarInt(b []byte) (result uint64, size int) {
+	if len(b) == 0 {
+		return 0, 0
+	}
+
 	switch b[0] {
 	case 0xff:
+		if len(b) < 9 {
+			return 0, 0
+		}
 		result = binary.LittleEndian.Uint64(b[1:9])
 		size = 9
 
 	case 0xfe:
+		if len(b) < 5 {
+			return 0, 0
+		}
 		result = uint64(binary.LittleEndian.Uint32(b[1:5]))
 		size = 5
 
 	case 0xfd:
+		if len(b) < 3 {
+			return 0, 0
+		}
 		result = uint64(binary.LittleEndian.Uint16(b[1:3]))
 		size = 3
 
-- 
2.43.0


From a052858e3d1c199fa28bffb3a90425c39aed5fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 02/26] fix: do not overflow PUSHDATA2/PUSHDATA4 lengths in
 DecodeParts

The length was added to the prefix size in 16- and 32-bit arithmetic, so
pushes of 65533 bytes and more (or lengths near 2^32) wrapped around and
panicked or were split wrongly.
---
 script/OpPushdata.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index f742f92..b2421ea 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -103,24 +103,24 @@ func DecodeParts(b []byte) ([][]byte, error) {
 				return r, errors.New("Not enough data")
 			}
 			l := binary.LittleEndian.Uint16(b[1:])
-			if len(b) < int(3+l) {
+			if len(b)-3 < int(l) {
 				return r, errors.New("Not enough data")
 			}
-			part := b[3 : 3+l]
+			part := b[3 : 3+int(l)]
 			r = append(r, part)
-			b = b[3+l:]
+			b = b[3+int(l):]
 
 		case OpPUSHDATA4:
 			if len(b) < 5 {
 				return r, errors.New("Not enough data")
 			}
 			l := binary.LittleEndian.Uint32(b[1:])
-			if len(b) < int(5+l) {
+			if uint64(len(b)-5) < uint64(l) {
 				return r, errors.New("Not enough data")
 			}
-			part := b[5 : 5+l]
+			part := b[5 : 5+uint64(l)]
 			r = append(r, part)
-			b = b[5+l:]
+			b = b[5+uint64(l):]
 
 		default:
 			if b[0] >= 0x01 && b[0] <= 0x4e {
-- 
2.43.0


From 5715d05356e57bc7544f3a62791d85d761ca1851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 03/26] fix: copy scripts when parsing inputs and outputs

Parsed scripts were sub-slices of the parsed buffer with its remaining
capacity, so appending to one script overwrote the bytes of the next
ones, and reusing the buffer changed the transaction.
---
 transaction/input/Input.go   | 5 ++++-
 transaction/output/Output.go | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index aaeec38..7142362 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -71,7 +71,10 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
 	}
 
-	i.UnlockingScript = script.NewFromBytes(bytes[offset : offset+int(l)])
+	// copy the script so that it doesn't share memory with the buffer parsed
+	us := make([]byte, l)
+	copy(us, bytes[offset:])
+	i.UnlockingScript = script.NewFromBytes(us)
 
 	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])
 
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index 63a4185..a848a34 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -54,8 +54,10 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 		return nil, 0, fmt.Errorf("output length too short < 8 + script")
 	}
 
-	s := script.Script(bytes[offset:totalLength])
-	o.LockingScript = &s
+	// copy the script so that it doesn't share memory with the buffer parsed
+	ls := make([]byte, l)
+	copy(ls, bytes[offset:])
+	o.LockingScript = script.NewFromBytes(ls)
 
 	return &o, totalLength, nil
 }
-- 
2.43.0


From d92faf3f5dece866200c921c13d12e44784fa56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 04/26] fix: return an error for an input index out of range

GetInputSignatureHash (and so signing) and ApplyUnlockingScript panicked
for an index without an input.
---
 transaction/SignatureHash.go | 4 ++++
 transaction/Transaction.go   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/transaction/SignatureHash.go b/transaction/SignatureHash.go
index 1be5d06..8245528 100644
--- a/transaction/SignatureHash.go
+++ b/transaction/SignatureHash.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/libsv/libsv/crypto"
 	"github.com/libsv/libsv/transaction/signature/sighash"
@@ -15,6 +16,9 @@ import (
 // GetInputSignatureHash serializes the transaction based on the input index and the SIGHASH flag
 // see https://github.com/bitcoin-sv/bitcoin-sv/blob/master/doc/abc/replay-protected-sighash.md#digest-algorithm
 func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sighash.Flag) ([]byte, error) {
+	if uint64(inputNumber) >= uint64(len(bt.Inputs)) {
+		return nil, fmt.Errorf("no input at index %d", inputNumber)
+	}
 	in := bt.Inputs[inputNumber]
 
 	if in.PreviousTxID == "" {
diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 7059576..85de1b1 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -294,7 +294,7 @@ func (bt *Transaction) SignAuto(s Signer) error {
 // ApplyUnlockingScript applies a script to the transaction at a specific index in
 // unlocking script field.
 func (bt *Transaction) ApplyUnlockingScript(index uint32, s *script.Script) error {
-	if bt.Inputs[index] != nil {
+	if uint64(index) < uint64(len(bt.Inputs)) && bt.Inputs[index] != nil {
 		bt.Inputs[index].UnlockingScript = s
 		return nil
 	}
-- 
2.43.0


From 4360cf848ea7975b3f02877824316db7c7cf97a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 05/26] fix: keep outpoint and sequence in
 ToBytesWithClearedInputs

The input selected was serialised as its script alone, without its
outpoint and sequence number, so the bytes were not a transaction.
---
 transaction/Transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 85de1b1..52a92c7 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -245,8 +245,11 @@ func (bt *Transaction) toBytesHelper(index int, scriptPubKey []byte) []byte {
 	for i, in := range bt.GetInputs() {
 		s := in.ToBytes(scriptPubKey != nil)
 		if i == index && scriptPubKey != nil {
+			// outpoint, then the script supplied, then the sequence number
+			h = append(h, s[:len(s)-5]...)
 			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
 			h = append(h, scriptPubKey...)
+			h = append(h, s[len(s)-4:]...)
 		} else {
 			h = append(h, s...)
 		}
-- 
2.43.0


From d16d50e962812893ee9c9ed313975fde4c8b9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 06/26] fix: tell pushed bytes from opcodes in ToASM, IsP2PK
 and IsMultisigOut

A one-byte push was printed as the opcode of the same value (so the ASM
text read back as a different script) and could stand for the opcodes of
a template. Empty pushes in those positions panicked.
---
 script/OpPushdata.go | 29 +++++++++++++++++++++--------
 script/Script.go     | 18 +++++++++---------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index b2421ea..78abe40 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -82,61 +82,74 @@ func DecodeStringParts(s string) ([][]byte, error) {
 // returning an array of opcode parts (which could be opcodes or data
 // pushed to the stack).
 func DecodeParts(b []byte) ([][]byte, error) {
+	r, _, err := decodeParts(b)
+	return r, err
+}
+
+// decodeParts does the work of DecodeParts and also returns, for each
+// part, if it is an opcode (true) or data pushed to the stack (false).
+func decodeParts(b []byte) ([][]byte, []bool, error) {
 	var r [][]byte
+	var isOp []bool
 	for len(b) > 0 {
 		// Handle OP codes
 		switch b[0] {
 		case OpPUSHDATA1:
 			if len(b) < 2 {
-				return r, errors.New("Not enough data")
+				return r, isOp, errors.New("Not enough data")
 			}
 			l := uint64(b[1])
 			if len(b) < int(2+l) {
-				return r, errors.New("Not enough data")
+				return r, isOp, errors.New("Not enough data")
 			}
 			part := b[2 : 2+l]
 			r = append(r, part)
+			isOp = append(isOp, false)
 			b = b[2+l:]
 
 		case OpPUSHDATA2:
 			if len(b) < 3 {
-				return r, errors.New("Not enough data")
+				return r, isOp, errors.New("Not enough data")
 			}
 			l := binary.LittleEndian.Uint16(b[1:])
 			if len(b)-3 < int(l) {
-				return r, errors.New("Not enough data")
+				return r, isOp, errors.New("Not enough data")
 			}
 			part := b[3 : 3+int(l)]
 			r = append(r, part)
+			isOp = append(isOp, false)
 			b = b[3+int(l):]
 
 		case OpPUSHDATA4:
 			if len(b) < 5 {
-				return r, errors.New("Not enough data")
+				return r, isOp, errors.New("Not enough data")
 			}
 			l := binary.LittleEndian.Uint32(b[1:])
 			if uint64(len(b)-5) < uint64(l) {
-				return r, errors.New("Not enough data")
+				return r, isOp, errors.New("Not enough data")
 			}
 			part := b[5 : 5+uint64(l)]
 			r = append(r, part)
+			isOp = append(isOp, false)
 			b = b[5+uint64(l):]
 
 		default:
 			if b[0] >= 0x01 && b[0] <= 0x4e {
 				l := uint8(b[0])
 				if len(b) < int(1+l) {
-					return r, errors.New("Not enough data")
+					return r, isOp, errors.New("Not enough data")
 				}
 				part := b[1 : l+1]
 				r = append(r, part)
+				isOp = append(isOp, false)
 				b = b[1+l:]
 			} else {
 				r = append(r, []byte{b[0]})
+				isOp = append(isOp, true)
 				b = b[1:]
 			}
 		}
 	}
 
-	return r, nil
+	return r, isOp, nil
 }
diff --git a/script/Script.go b/script/Script.go
index 9504ad5..7324c10 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -185,14 +185,14 @@ func (s *Script) ToString() string { // TODO: change to HexString?
 
 // ToASM returns the string ASM opcodes of the script.
 func (s *Script) ToASM() (string, error) {
-	parts, err := DecodeParts(*s)
+	parts, isOp, err := decodeParts(*s)
 	if err != nil {
 		return "", err
 	}
 
 	var asmScript string
-	for _, p := range parts {
-		if len(p) == 1 {
+	for i, p := range parts {
+		if isOp[i] {
 			asmScript = asmScript + " " + opCodeValues[p[0]]
 		} else {
 			asmScript = asmScript + " " + hex.EncodeToString(p)
@@ -215,14 +215,14 @@ func (s *Script) IsP2PKH() bool {
 
 // IsP2PK returns true if this is a public key output script.
 func (s *Script) IsP2PK() bool {
-	parts, err := DecodeParts(*s)
+	parts, isOp, err := decodeParts(*s)
 	if err != nil {
 		return false
 	}
 
 	if len(parts) == 2 &&
 		len(parts[0]) > 0 &&
-		parts[1][0] == OpCHECKSIG {
+		isOp[1] && parts[1][0] == OpCHECKSIG {
 
 		pubkey := parts[0]
 		version := pubkey[0]
@@ -257,7 +257,7 @@ func (s *Script) IsData() bool {
 
 // IsMultisigOut returns true if this is a multisig output script.
 func (s *Script) IsMultisigOut() bool {
-	parts, err := DecodeParts(*s)
+	parts, isOp, err := decodeParts(*s)
 	if err != nil {
 		return false
 	}
@@ -266,7 +266,7 @@ func (s *Script) IsMultisigOut() bool {
 		return false
 	}
 
-	if isSmallIntOp(parts[0][0]) == false {
+	if !isOp[0] || isSmallIntOp(parts[0][0]) == false {
 		return false
 	}
 
@@ -276,8 +276,8 @@ func (s *Script) IsMultisigOut() bool {
 		}
 	}
 
-	return isSmallIntOp(parts[len(parts)-2][0]) &&
-		parts[len(parts)-1][0] == OpCHECKMULTISIG
+	return isOp[len(parts)-2] && isSmallIntOp(parts[len(parts)-2][0]) &&
+		isOp[len(parts)-1] && parts[len(parts)-1][0] == OpCHECKMULTISIG
 }
 
 func isSmallIntOp(opcode byte) bool {
-- 
2.43.0


From 20ef28fb658d97de81e0d4a9297926668f9c94a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 07/26] fix: IsData must not panic on scripts of less than two
 bytes

---
 script/Script.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index 7324c10..41d39ec 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -251,8 +251,8 @@ func (s *Script) IsP2SH() bool {
 func (s *Script) IsData() bool {
 	b := []byte(*s)
 
-	return b[0] == 0x6a ||
-		b[0] == 0x00 && b[1] == 0x6a
+	return len(b) > 0 && b[0] == 0x6a ||
+		len(b) > 1 && b[0] == 0x00 && b[1] == 0x6a
 }
 
 // IsMultisigOut returns true if this is a multisig output script.
-- 
2.43.0


From 8e1494c589d1b8f20a72ad49a8a581ef94164caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 08/26] fix: GetPublicKeyHash must only accept P2PKH scripts

Any script starting with OP_DUP OP_HASH160 was accepted (so SignAuto
signed inputs which are not P2PKH), and short ones panicked.
---
 script/Script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index 41d39ec..d1046be 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -290,7 +290,7 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, fmt.Errorf("Script is empty")
 	}
 
-	if (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
+	if !s.IsP2PKH() {
 		return nil, fmt.Errorf("Not a P2PKH")
 	}
 
-- 
2.43.0


From 06d0b2714495452e92b19f57cb288ff85558f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 09/26] fix: NewFromASM must not add an OP_0 for every empty
 section

The empty text, which is the ASM of the empty script, and repeated
spaces each gave an OP_0.
---
 script/Script.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index d1046be..1390881 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -35,6 +35,9 @@ func NewFromASM(str string) (*Script, error) {
 	s := &Script{}
 
 	for _, section := range sections {
+		if section == "" {
+			continue
+		}
 		if val, ok := opCodeStrings[section]; ok {
 			s.AppendOpCode(val)
 		} else {
-- 
2.43.0


From 61dd195f27df90936bfff022a144ab71e1198b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 10/26] fix: NewP2PKHFromPubKeyHashStr must check the length of
 the hash

Any other length gave a malformed script with a wrong push length.
---
 script/Script.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index 1390881..5ada88b 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -87,6 +87,9 @@ func NewP2PKHFromPubKeyHashStr(pubKeyHash string) (*Script, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("public key hash must be 20 bytes long, not %d", len(hash))
+	}
 
 	b := []byte{
 		OpDUP,
-- 
2.43.0


From 67a7388d87f744dcf5195185dc355c9c50753bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 11/26] fix: verify the checksum when reading an address

A mistyped address was accepted and turned into a payment to another
public key hash.
---
 script/address/Address.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/script/address/Address.go b/script/address/Address.go
index 382544e..746fe61 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
@@ -40,10 +41,7 @@ func addressToPubKeyHashStr(address string) (string, error) {
 
 	switch decoded[0] {
 	case 0x00: // Pubkey hash (P2PKH address)
-		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
-
 	case 0x6f: // Testnet pubkey hash (P2PKH address)
-		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
 
 	case 0x05: // Script hash (P2SH address)
 		fallthrough
@@ -53,6 +51,13 @@ func addressToPubKeyHashStr(address string) (string, error) {
 	default:
 		return "", fmt.Errorf("Address %s is not supported", address)
 	}
+
+	cksum := checksum(decoded[:len(decoded)-4])
+	if !bytes.Equal(cksum[:], decoded[len(decoded)-4:]) {
+		return "", fmt.Errorf("invalid checksum for '%s'", address)
+	}
+
+	return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
 }
 
 // NewFromPublicKeyString takes a public key string and returns an Address struct pointer.
-- 
2.43.0


From 8017107e716af59264e094add198aba830e08391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 12/26] fix: ValidateAddress must not accept surplus or missing
 leading 1s

---
 script/address/AddressValidation.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/script/address/AddressValidation.go b/script/address/AddressValidation.go
index 6eafa36..78df438 100644
--- a/script/address/AddressValidation.go
+++ b/script/address/AddressValidation.go
@@ -79,5 +79,17 @@ func validA58(a58 []byte) (bool, error) {
 		return false, errors.New("checksum failed")
 	}
 
+	// each leading zero byte must be encoded as exactly one leading 1
+	var zeros, ones int
+	for zeros < len(a) && a[zeros] == 0 {
+		zeros++
+	}
+	for ones < len(a58) && a58[ones] == tmpl[0] {
+		ones++
+	}
+	if ones != zeros {
+		return false, errors.New("wrong number of leading 1s")
+	}
+
 	return true, nil
 }
-- 
2.43.0


From 413c03b3f973d66e6225335260a8cd4c5d8ef9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 13/26] fix: make DecodeBIP276 the inverse of EncodeBIP276

Strings of another shape panicked, network and version came back swapped
and were read as decimal although they are written in hex, and empty data
could not be decoded. Negative values are now refused by the encoder.
---
 script/address/BIP276.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index 0f1a24b..abb394b 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -34,7 +34,7 @@ const NetworkTestnet = 2
 // EncodeBIP276 is used to encode specific (non-standard) scripts in BIP276 format.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func EncodeBIP276(prefix string, network int, version int, data []byte) string {
-	if version == 0 || version > 255 || network == 0 || network > 255 {
+	if version <= 0 || version > 255 || network <= 0 || network > 255 {
 		return "ERROR"
 	}
 
@@ -53,19 +53,29 @@ func createBIP276(prefix string, network int, version int, data []byte) (string,
 // DecodeBIP276 is used to decode BIP276 formatted data into specific (non-standard) scripts.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func DecodeBIP276(text string) (prefix string, version int, network int, data []byte, err error) {
-	validBIP276 := regexp.MustCompile(`^(.+?):(\d{2})(\d{2})([0-9A-Fa-f]+)([0-9A-Fa-f]{8})$`)
+	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)
 
 	res := validBIP276.FindStringSubmatch(text)
 
+	if res == nil {
+		err = errors.New("Invalid BIP276 format")
+		return
+	}
+
 	prefix = res[1]
 
-	if version, err = strconv.Atoi(res[2]); err != nil {
+	// the network comes first, see EncodeBIP276
+	n, err := strconv.ParseUint(res[2], 16, 8)
+	if err != nil {
 		return
 	}
+	network = int(n)
 
-	if network, err = strconv.Atoi(res[3]); err != nil {
+	v, err := strconv.ParseUint(res[3], 16, 8)
+	if err != nil {
 		return
 	}
+	version = int(v)
 
 	if data, err = hex.DecodeString(res[4]); err != nil {
 		return
-- 
2.43.0


From 69e1a783c0d2d354d7d3a03d377711c404fd4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 14/26] fix: MerkleRootFromBranches must not accept a negative
 index

---
 block/GetMerkleBranches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/GetMerkleBranches.go b/block/GetMerkleBranches.go
index a92da53..8892d2a 100644
--- a/block/GetMerkleBranches.go
+++ b/block/GetMerkleBranches.go
@@ -85,7 +85,7 @@ func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (stri
 		txIndex >>= 1
 	}
 
-	if txIndex > 0 {
+	if txIndex != 0 {
 		return "", fmt.Errorf("index %d out of range for proof of length %d", txIndex, len(branches))
 	}
 
-- 
2.43.0


From d651e652f4da70ddf09f066a5afa406c96771536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 15/26] fix: BuildMerkleRootFromCoinbase must not write to the
 caller's buffer

Appending the branch to the coinbase hash overwrote the bytes which
follow it when that slice has spare capacity.
---
 block/BuildMerkleRootFromCoinbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index 6194581..3047f83 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -13,7 +13,7 @@ func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) [
 
 	for i := 0; i < len(merkleBranches); i++ {
 		branch, _ := hex.DecodeString(merkleBranches[i])
-		concat := append(acc, branch...)
+		concat := append(acc[:len(acc):len(acc)], branch...)
 		hash := crypto.Sha256d(concat)
 		acc = hash[:]
 	}
-- 
2.43.0


From c2e22a613bcccf3d4be40898aef4ea6460229c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 16/26] fix: Decrypt must not overwrite the ciphertext passed
 in

It was decrypted in place, so decrypting it a second time failed.
---
 crypto/Encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/Encryption.go b/crypto/Encryption.go
index 11b1049..7c04c13 100644
--- a/crypto/Encryption.go
+++ b/crypto/Encryption.go
@@ -29,8 +29,8 @@ func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
 	}
 	iv := ciphertext[:aes.BlockSize]
 	cfb := cipher.NewCFBDecrypter(ciph, iv)
-	text := ciphertext[aes.BlockSize:]
-	cfb.XORKeyStream(text, text)
+	text := make([]byte, len(ciphertext)-aes.BlockSize)
+	cfb.XORKeyStream(text, ciphertext[aes.BlockSize:])
 	data, err := base64.StdEncoding.DecodeString(string(text))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0fdcb71faea92e7141e52c4367693af5fe03a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 17/26] fix: Decode32Byte must return an error for short hex,
 not panic

---
 utils/ByteManipulation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/ByteManipulation.go b/utils/ByteManipulation.go
index a27fba2..beba4b1 100644
--- a/utils/ByteManipulation.go
+++ b/utils/ByteManipulation.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"sort"
 )
@@ -97,6 +98,10 @@ func Decode32Byte(hexStr string) ([32]byte, error) {
 		return b32, err
 	}
 
+	if len(b) < 32 {
+		return b32, fmt.Errorf("hex string is too short: %d bytes instead of 32", len(b))
+	}
+
 	copy(b32[:], b[0:32])
 
 	return b32, nil
-- 
2.43.0


From 1a17e121ca928a439d765814c349aff35ea7409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 18/26] fix: reject compact bits which are not 4 bytes or have
 no 256-bit target

ExpandTargetFrom panicked for exponents giving more than 32 bytes and
dropped the sign of negative targets; bits of another length panicked or
were cut, and DifficultyFromBits ignored hex errors.
---
 block/Difficulty.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 41f5137..6e02194 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -3,6 +3,7 @@ package block
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"errors"
 	"log"
 	"math"
 	"math/big"
@@ -44,6 +45,9 @@ func ExpandTargetFrom(bits string) (string, error) {
 
 	dst := make([]byte, 32)
 	b := bn.Bytes()
+	if bn.Sign() < 0 || len(b) > len(dst) {
+		return "", errors.New("target is negative or does not fit in 32 bytes")
+	}
 
 	copy(dst[32-len(b):], b)
 	return hex.EncodeToString(dst), nil
@@ -55,6 +59,9 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(binaryBits) != 4 {
+		return nil, errors.New("bits must be 4 bytes long")
+	}
 	compact := binary.BigEndian.Uint32(binaryBits)
 
 	// Extract the mantissa, sign bit, and exponent.
@@ -97,7 +104,13 @@ func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float
 
 // DifficultyFromBits returns the mining difficulty from the nBits field in the block header.
 func DifficultyFromBits(bits string) (float64, error) {
-	b, _ := hex.DecodeString(bits)
+	b, err := hex.DecodeString(bits)
+	if err != nil {
+		return 0, err
+	}
+	if len(b) != 4 {
+		return 0, errors.New("bits must be 4 bytes long")
+	}
 	ib := binary.BigEndian.Uint32(b)
 	return targetToDifficulty(toCompactSize(ib))
 }
-- 
2.43.0


From 781cfd9aa1027c57ff9e93c634448238bec62087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 19/26] fix: difficulty of compact bits with an exponent below
 3

The mantissa was not shifted right, so the target was too large.
---
 block/Difficulty.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 6e02194..7cd0499 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -117,6 +117,9 @@ func DifficultyFromBits(bits string) (float64, error) {
 
 func toCompactSize(bits uint32) *big.Int {
 	t := big.NewInt(int64(bits % 0x01000000))
+	if exponent := uint(bits / 0x01000000); exponent < 3 {
+		return t.Rsh(t, 8*(3-exponent))
+	}
 	t.Mul(t, big.NewInt(2).Exp(big.NewInt(2), big.NewInt(8*(int64(bits/0x01000000)-3)), nil))
 
 	return t
-- 
2.43.0


From 01c7bf157f20bb6807664b611e3e80d843f4bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 20/26] fix: InternalSigner must not store the default flag in
 itself

Signing with the zero flag wrote to the signer: a data race when it is
shared between goroutines.
---
 transaction/signature/InternalSigner.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index a83e38a..2618dd6 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -22,11 +22,12 @@ type InternalSigner struct {
 // Sign a transaction at a given input index using the PrivateKey passed in through the
 // InternalSigner struct.
 func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
-	if is.SigHashFlag == 0 {
-		is.SigHashFlag = sighash.AllForkID
+	sigHashFlag := is.SigHashFlag
+	if sigHashFlag == 0 {
+		sigHashFlag = sighash.AllForkID
 	}
 
-	sh, err := unsignedTx.GetInputSignatureHash(index, is.SigHashFlag)
+	sh, err := unsignedTx.GetInputSignatureHash(index, sigHashFlag)
 	if err != nil {
 		return nil, err
 	}
@@ -36,7 +37,7 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 		return nil, err
 	}
 
-	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), is.SigHashFlag)
+	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), sigHashFlag)
 
 	err = unsignedTx.ApplyUnlockingScript(index, s)
 	if err != nil {
@@ -50,10 +51,6 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 // signs the P2PKH inputs that it is able to sign using the specific
 // PrivateKey passed in through the InternalSigner struct.
 func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
-	if is.SigHashFlag == 0 {
-		is.SigHashFlag = sighash.AllForkID
-	}
-
 	for i, in := range unsignedTx.Inputs {
 
 		pubKeyHash, _ := in.PreviousTxScript.GetPublicKeyHash() // doesn't matter if returns error (not p2pkh)
-- 
2.43.0


From 4c4ebeb1b51ab7d14a2064358ed4f4f191871181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 21/26] fix: NewRedeemScriptFromElectrum must not panic on
 malformed scripts

Scripts with too few or empty parts, or with public keys of another
length than 83 bytes, panicked, and pushed bytes could stand for OP_m,
OP_n and OP_CHECKMULTISIG.
---
 script/RedeemScript.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 3af2278..a23f03d 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -2,6 +2,7 @@ package script
 
 import (
 	"encoding/binary"
+	"encoding/hex"
 	"errors"
 
 	"github.com/libsv/libsv/crypto"
@@ -38,15 +39,23 @@ func NewRedeemScript(signaturesRequired int) (*RedeemScript, error) {
 
 // NewRedeemScriptFromElectrum  TODO:
 func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
-	parts, err := DecodeStringParts(script)
+	b, err := hex.DecodeString(script)
+	if err != nil {
+		return nil, err
+	}
+	parts, isOp, err := decodeParts(b)
 	if err != nil {
 		return nil, err
 	}
 
-	if len(parts) == 0 {
+	if len(parts) < 3 {
 		return nil, errors.New("There should be 5 parts in this redeemScript")
 	}
 
+	if !isOp[0] || !isOp[len(parts)-2] || !isOp[len(parts)-1] {
+		return nil, errors.New("Script must be OP_m, public keys, OP_n, OP_CHECKMULTISIG")
+	}
+
 	signaturesRequired := int(parts[0][0] - OpBASE)
 	if signaturesRequired < 2 {
 		return nil, errors.New("Must have 2 or more required signatures for multisig")
@@ -58,6 +67,10 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 
 	signatureCount := int(parts[len(parts)-2][0] - OpBASE)
 
+	if signatureCount > 16 {
+		return nil, errors.New("More than 16 public keys is not supported")
+	}
+
 	if parts[len(parts)-1][0] != OpCHECKMULTISIG {
 		return nil, errors.New("Script must end with OP_CHECKMULTISIG")
 	}
@@ -67,6 +80,10 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 	}
 
 	for _, pubkey := range parts[1 : len(parts)-2] {
+		if len(pubkey) != 83 { // 0xff, extended key (78 bytes), derivation path (2 * 2 bytes)
+			return nil, errors.New("All Electrum pubkeys should be 83 bytes long")
+		}
+
 		if pubkey[0] != 0xff {
 			return nil, errors.New("All Electrum pubkeys should start with 0xff")
 		}
-- 
2.43.0


From 28b69bd1104ef69e5b2631e6b5dee907a61e5136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 22/26] fix: AddPublicKey must refuse a 17th key

The number of keys is encoded as OP_1..OP_16, so more keys gave a
malformed redeem script.
---
 script/RedeemScript.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index a23f03d..7f05388 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -140,6 +140,10 @@ func (rs *RedeemScript) AddPublicKey(pkey string, derivationPath []uint32) error
 		return errors.New("We only support derivation paths with exactly 2 levels") // TODO: why only 2?
 	}
 
+	if len(rs.PublicKeys) >= 16 {
+		return errors.New("More than 16 public keys is not supported")
+	}
+
 	pk, err := hdkeychain.NewKeyFromString(pkey)
 	if err != nil {
 		return err
-- 
2.43.0


From 2f207ac73fe659eba96aa9dbd27566940fd8ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 23/26] fix: BuildMerkleRootFromCoinbase must not return the
 caller's buffer

Without branches the result was the coinbase hash slice passed in, so
changing one changed the other.
---
 block/BuildMerkleRootFromCoinbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index 3047f83..8ff8db2 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -9,7 +9,7 @@ import (
 // BuildMerkleRootFromCoinbase builds the merkle root of the block from the coinbase transaction hash (txid)
 // and the merkle branches needed to work up the merkle tree and returns the merkle root byte array.
 func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) []byte {
-	acc := coinbaseHash
+	acc := append([]byte{}, coinbaseHash...)
 
 	for i := 0; i < len(merkleBranches); i++ {
 		branch, _ := hex.DecodeString(merkleBranches[i])
-- 
2.43.0


From 367dd227708d182126049bd85e56a7ff573b443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 24/26] fix: DifficultyToHashrate must not panic on an empty
 coin ticker

---
 block/Difficulty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 7cd0499..e464b35 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"math/big"
 	"strconv"
+	"strings"
 )
 
 var (
@@ -95,7 +96,7 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 // and computes the estimated hashrate on that specific coin (or chain).
 func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float64 {
 	genesis := genesisDiff
-	if coin[0] == 'R' {
+	if strings.HasPrefix(coin, "R") {
 		genesis = regDiff
 	}
 
-- 
2.43.0


From 14151c8fa4c1748e6d422ebdd6079a8a3bb544a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 25/26] fix: NewRedeemScriptFromElectrum must not accept
 OP_BASE as a number of keys

---
 script/RedeemScript.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 7f05388..cc33cdf 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -67,8 +67,8 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 
 	signatureCount := int(parts[len(parts)-2][0] - OpBASE)
 
-	if signatureCount > 16 {
-		return nil, errors.New("More than 16 public keys is not supported")
+	if signatureCount < 1 || signatureCount > 16 {
+		return nil, errors.New("Must have 1 to 16 public keys")
 	}
 
 	if parts[len(parts)-1][0] != OpCHECKMULTISIG {
-- 
2.43.0


From 03b8ad3e3d30dd8223cfb6fb539d9327e2a86dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 26/26] fix: Input.String panicked for an input without
 unlocking script

---
 transaction/input/Input.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 7142362..60153e1 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -100,12 +100,17 @@ func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxS
 }
 
 func (i *Input) String() string {
+	us := i.UnlockingScript
+	if us == nil { // not signed yet
+		us = &script.Script{}
+	}
+
 	return fmt.Sprintf(`prevTxHash:   %x
 prevOutIndex: %d
 scriptLen:    %d
 script:       %x
 sequence:     %x
-`, i.PreviousTxID, i.PreviousTxOutIndex, len(*i.UnlockingScript), i.UnlockingScript, i.SequenceNumber)
+`, i.PreviousTxID, i.PreviousTxOutIndex, len(*us), us, i.SequenceNumber)
 }
 
 // ToBytes encodes the Input into a hex byte array.
-- 
2.43.0

