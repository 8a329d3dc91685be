From fb5647bd60175cadd7d71b8b3a3c9d14d1c5f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 1/8] fix: reject declared lengths that overflow the byte
 reader's bounds check

ReadVarStr, ReadString and ReadVector compared m_index + length with the
buffer size; a 64-bit length close to 2^64 wrapped around, passed the check
and read outside the buffer.
---
 include/Core/Serialization/ByteBuffer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Core/Serialization/ByteBuffer.h b/include/Core/Serialization/ByteBuffer.h
index 17ae678..f852c16 100644
--- a/include/Core/Serialization/ByteBuffer.h
+++ b/include/Core/Serialization/ByteBuffer.h
@@ -157,7 +157,7 @@ public:
             return "";
         }
 
-        if (m_index + stringLength > m_bytes.size()) {
+        if (stringLength > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -169,7 +169,7 @@ public:
 
     std::string ReadString(const size_t size)
     {
-        if (m_index + size > m_bytes.size()) {
+        if (size > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -195,7 +195,7 @@ public:
 
     std::vector<uint8_t> ReadVector(const uint64_t numBytes)
     {
-        if (m_index + numBytes > m_bytes.size()) {
+        if (numBytes > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
-- 
2.43.0


From c4e9306c3420fe551e4699aabd4ee59b63ca057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 2/8] fix: reject proofs of work on graphs smaller than the
 permitted sizes

---
 src/PoW/PoWValidator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index dd2bd6e..8b096c8 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -11,6 +11,13 @@
 
 bool PoWValidator::IsPoWValid(const BlockHeader& header, const BlockHeader& previousHeader) const
 {
+    // Validate Edge Bits - Graphs smaller than the minimum are only permitted for the secondary proof of work.
+    const ProofOfWork& proofOfWork = header.GetProofOfWork();
+    if (!proofOfWork.IsPrimary() && !proofOfWork.IsSecondary()) {
+        LOG_WARNING_F("Edge bits too low for block {}", header);
+        return false;
+    }
+
     // Validate Total Difficulty
     if (header.GetTotalDifficulty() <= previousHeader.GetTotalDifficulty()) {
         LOG_WARNING_F("Target difficulty too low for block {}", header);
-- 
2.43.0


From 6bb5cab8b10bdd362cb684f999d589612fb0947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 3/8] fix: compare header timestamps with the future time limit
 in seconds

---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index 41ab9ee..16bd006 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -16,7 +16,9 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
     }
 
     // Validate Timestamp - Ensure timestamp not too far in the future
-    if (header.GetTimestamp() > Consensus::GetMaxBlockTime(std::chrono::system_clock::now())) {
+    // Header timestamps are in seconds, while the system clock ticks in a finer unit.
+    const std::chrono::system_clock::duration maxBlockTime{ Consensus::GetMaxBlockTime(std::chrono::system_clock::now()) };
+    if (header.GetTimestamp() > std::chrono::duration_cast<std::chrono::seconds>(maxBlockTime).count()) {
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Timestamp beyond maxBlockTime for header {}", header);
     }
 
-- 
2.43.0


From a75cb7c8eb6506e5fa7a3ea95ee277e19fd3cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:31 +0000
Subject: [PATCH 4/8] fix: reject proofs of work with non-zero padding bits

---
 src/Core/Models/ProofOfWork.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Core/Models/ProofOfWork.cpp b/src/Core/Models/ProofOfWork.cpp
index 0149c79..4fad6e0 100644
--- a/src/Core/Models/ProofOfWork.cpp
+++ b/src/Core/Models/ProofOfWork.cpp
@@ -52,6 +52,14 @@ ProofOfWork ProofOfWork::Deserialize(ByteBuffer& byteBuffer)
 
 	const int bytes_len = ((edgeBits * Consensus::PROOFSIZE) + 7) / 8;
 	const std::vector<unsigned char> bits = byteBuffer.ReadVector(bytes_len);
+
+	// The unused bits of the last byte must be zero. Otherwise, one cycle would have several encodings (and hashes).
+	const int num_padding_bits = (bytes_len * 8) - (edgeBits * Consensus::PROOFSIZE);
+	if (num_padding_bits > 0 && (bits.back() >> (8 - num_padding_bits)) != 0)
+	{
+		throw DESERIALIZATION_EXCEPTION("Proof of work padding bits not zero");
+	}
+
 	Hash hash = Hasher::Blake2b(bits);
 
 	std::vector<uint64_t> proofNonces = DeserializeProofNonces(bits, edgeBits);
-- 
2.43.0


From 963b953ca0c7efa6473925b8f689f511b07ec730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 5/8] fix: refuse unknown output and kernel features

---
 include/Core/Models/Features.h        | 10 ++++++++++
 src/Core/Models/OutputIdentifier.cpp  |  2 +-
 src/Core/Models/TransactionInput.cpp  |  2 +-
 src/Core/Models/TransactionKernel.cpp |  8 +++++++-
 src/Core/Models/TransactionOutput.cpp |  2 +-
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/Core/Models/Features.h b/include/Core/Models/Features.h
index 8d82edf..6fc89ec 100644
--- a/include/Core/Models/Features.h
+++ b/include/Core/Models/Features.h
@@ -46,6 +46,16 @@ namespace OutputFeatures
 
 		throw DESERIALIZATION_EXCEPTION_F("Failed to deserialize output feature: {}", string);
 	}
+
+	static EOutputFeatures FromByte(const uint8_t features)
+	{
+		if (features > (uint8_t)EOutputFeatures::COINBASE_OUTPUT)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Unknown output features: {}", features);
+		}
+
+		return (EOutputFeatures)features;
+	}
 }
 
 enum EKernelFeatures
diff --git a/src/Core/Models/OutputIdentifier.cpp b/src/Core/Models/OutputIdentifier.cpp
index c3b5656..e116939 100644
--- a/src/Core/Models/OutputIdentifier.cpp
+++ b/src/Core/Models/OutputIdentifier.cpp
@@ -26,7 +26,7 @@ void OutputIdentifier::Serialize(Serializer& serializer) const
 OutputIdentifier OutputIdentifier::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
diff --git a/src/Core/Models/TransactionInput.cpp b/src/Core/Models/TransactionInput.cpp
index ddac512..35cbb81 100644
--- a/src/Core/Models/TransactionInput.cpp
+++ b/src/Core/Models/TransactionInput.cpp
@@ -30,7 +30,7 @@ TransactionInput TransactionInput::Deserialize(ByteBuffer& byteBuffer)
 		EOutputFeatures features = Global::GetCoinView()->GetOutputType(commitment);
 		return TransactionInput(features, std::move(commitment));
 	} else {
-		EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+		EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 		Commitment commitment = Commitment::Deserialize(byteBuffer);
 		return TransactionInput(features, std::move(commitment));
 	}
diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 71de1cd..02db048 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -60,7 +60,13 @@ void TransactionKernel::Serialize(Serializer& serializer) const
 TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read KernelFeatures (1 byte)
-	const EKernelFeatures features = (EKernelFeatures)byteBuffer.ReadU8();
+	const uint8_t featuresByte = byteBuffer.ReadU8();
+	if (featuresByte > (uint8_t)EKernelFeatures::NO_RECENT_DUPLICATE)
+	{
+		throw DESERIALIZATION_EXCEPTION_F("Unknown kernel features: {}", featuresByte);
+	}
+
+	const EKernelFeatures features = (EKernelFeatures)featuresByte;
 
 	Fee fee;
 	uint64_t lockHeight = 0;
diff --git a/src/Core/Models/TransactionOutput.cpp b/src/Core/Models/TransactionOutput.cpp
index b099183..949a96a 100644
--- a/src/Core/Models/TransactionOutput.cpp
+++ b/src/Core/Models/TransactionOutput.cpp
@@ -29,7 +29,7 @@ void TransactionOutput::Serialize(Serializer& serializer) const
 TransactionOutput TransactionOutput::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
-- 
2.43.0


From a6847cc44b7cc4871398f698f2a29e38384864a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 6/8] fix: refuse a body spending one commitment twice under
 different features

---
 src/Core/Validation/TxBodyValidator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/Validation/TxBodyValidator.cpp b/src/Core/Validation/TxBodyValidator.cpp
index 43be51d..47d79ac 100644
--- a/src/Core/Validation/TxBodyValidator.cpp
+++ b/src/Core/Validation/TxBodyValidator.cpp
@@ -31,7 +31,7 @@ void TxBodyValidator::VerifySorted(const TransactionBody& body)
 	}
 
 	for (size_t i = 1; i < body.GetInputs().size(); i++) {
-		if (body.GetInput(i) == body.GetInput(i - 1)) {
+		if (body.GetInput(i).GetCommitment() == body.GetInput(i - 1).GetCommitment()) {
 			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate inputs.");
 		}
 	}
-- 
2.43.0


From 5d88a53d07dddb85c258abc14e05fd710f7ea63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 7/8] fix: refuse a body holding the same kernel twice

---
 src/Core/Validation/TxBodyValidator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Core/Validation/TxBodyValidator.cpp b/src/Core/Validation/TxBodyValidator.cpp
index 47d79ac..914e2e8 100644
--- a/src/Core/Validation/TxBodyValidator.cpp
+++ b/src/Core/Validation/TxBodyValidator.cpp
@@ -41,6 +41,12 @@ void TxBodyValidator::VerifySorted(const TransactionBody& body)
 			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate outputs.");
 		}
 	}
+
+	for (size_t i = 1; i < body.GetKernels().size(); i++) {
+		if (body.GetKernels()[i] == body.GetKernels()[i - 1]) {
+			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate kernels.");
+		}
+	}
 }
 
 // Verify that no input is spending an output from the same block.
-- 
2.43.0


From 922fdb857f0f18784973d6d3262957c1672602be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 8/8] fix: do not take no-recent-duplicate kernels for coinbase
 kernels

---
 include/Core/Models/TransactionKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Core/Models/TransactionKernel.h b/include/Core/Models/TransactionKernel.h
index f77276a..1683f74 100644
--- a/include/Core/Models/TransactionKernel.h
+++ b/include/Core/Models/TransactionKernel.h
@@ -54,7 +54,7 @@ public:
 	uint64_t GetLockHeight() const { return m_lockHeight; }
 	const Commitment& GetExcessCommitment() const { return m_excessCommitment; }
 	const Signature& GetExcessSignature() const { return m_excessSignature; }
-	bool IsCoinbase() const { return (m_features & EKernelFeatures::COINBASE_KERNEL) == EKernelFeatures::COINBASE_KERNEL; }
+	bool IsCoinbase() const { return m_features == EKernelFeatures::COINBASE_KERNEL; }
 	Hash GetSignatureMessage() const;
 	static Hash GetSignatureMessage(const EKernelFeatures features, const Fee& fee, const uint64_t lockHeight);
 
-- 
2.43.0

