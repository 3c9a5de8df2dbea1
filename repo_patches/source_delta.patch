From 090afc9bd308c480cf4f5e32665ededa3c1b074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 01/16] fix: CFB sinks mask an incomplete last block with the
 gamma the sources use

finalize() exchanged the halves of the gamma block, so the tail did not
decrypt, and always touched eight bytes, past the end of the shorter tail.
---
 goost/gost89/CFBSink.cpp | 5 ++---
 goost/magma/CFBSink.cpp  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 1ffb168..0308a15 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -70,9 +70,8 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 14642af..8ddc1ee 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -71,9 +71,8 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From 4784c262b123bcef7f774f6d405ef7f0bc216953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 02/16] fix: CFB sources stay inside an incomplete last block

Copying max(8, size) bytes out of the block and testing size >= index
read and wrote past the end of a ciphertext block shorter than 8 bytes.
---
 goost/gost89/CFBSource.cpp | 6 +++---
 goost/magma/CFBSource.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index d021f15..53ab654 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -58,13 +58,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			break;
 		}
 
-		memcpy(&r, &p[0], max(sizeof(r), p.size()));
+		memcpy(&r, &p[0], min(sizeof(r), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index deb8099..336e7fa 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -61,13 +61,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 		}
 
 		rl = rr;
-		memcpy(&rr, &p[0], max(sizeof(rr), p.size()));
+		memcpy(&rr, &p[0], min(sizeof(rr), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
-- 
2.43.0


From fabc5fa162b4ec911f05c67a9fde2fa9b3b50531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 03/16] fix: decrypting sources assemble blocks from short
 reads

A source may return fewer bytes than asked for before its data ends (the
ECB source itself does). Such a piece was taken for a whole block.
---
 goost/gost89/CFBSource.cpp | 9 ++++++++-
 goost/magma/CFBSource.cpp  | 9 ++++++++-
 goost/magma/ECBSource.cpp  | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index 53ab654..bb62cae 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -53,7 +53,14 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 
-		tie(p, s) = s->read(8);
+		do {
+			vector<byte> part;
+			tie(part, s) = s->read(Block::size - p.size());
+			if (part.empty()) {
+				break;
+			}
+			p.insert(p.end(), part.begin(), part.end());
+		} while (p.size() < Block::size);
 		if (p.empty()) {
 			break;
 		}
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index 336e7fa..e695838 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -55,7 +55,14 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 
-		tie(p, s) = s->read(8);
+		do {
+			vector<byte> part;
+			tie(part, s) = s->read(Block::size - p.size());
+			if (part.empty()) {
+				break;
+			}
+			p.insert(p.end(), part.begin(), part.end());
+		} while (p.size() < Block::size);
 		if (p.empty()) {
 			break;
 		}
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 71ca1aa..6c7b484 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -40,7 +40,14 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	auto s = source;
 	vector<byte> p;
-	tie(p, s) = s->read(8);
+	do {
+		vector<byte> part;
+		tie(part, s) = s->read(Block::size - p.size());
+		if (part.empty()) {
+			break;
+		}
+		p.insert(p.end(), part.begin(), part.end());
+	} while (p.size() < Block::size);
 	if (p.empty()) {
 		// Decryption is done
 		return {p, s};
-- 
2.43.0


From df979474d7555dfa326bc546a64a1d8088d5d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 04/16] fix: ECB source refuses a ciphertext that ends inside a
 block

The incomplete block was decrypted as eight bytes, reading and writing
past the end of the shorter buffer.
---
 goost/magma/ECBSource.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 6c7b484..fbba86a 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -52,6 +52,9 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 		// Decryption is done
 		return {p, s};
 	}
+	if (p.size() < Block::size) {
+		throw runtime_error("Unaligned ECB decryption");
+	}
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-- 
2.43.0


From 33518833e294c13d0717e7ee68d42c2f28f803f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 05/16] fix: Magma MAC assembles blocks from short reads

A short read in the middle of the data was taken for the last block, so
the rest of the message was not authenticated.
---
 goost/magma/Imit.cpp | 22 ++++++++++++++++++++--
 goost/magma/Imit.h   |  6 ++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index db0588a..196018f 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -76,6 +76,24 @@ Imit::Imit(const shared_ptr<const Source> &data, const shared_ptr<const LazyKey>
 {
 }
 
+// Block of data. It is incomplete only at the end of source
+pair<vector<byte>, shared_ptr<const goost::Source>> Imit::readBlock(
+	const shared_ptr<const Source> &source
+) const
+{
+	auto s = source;
+	vector<byte> b;
+	do {
+		vector<byte> part;
+		tie(part, s) = s->read(Block::size - b.size());
+		if (part.empty()) {
+			break;
+		}
+		b.insert(b.end(), part.begin(), part.end());
+	} while (b.size() < Block::size);
+	return {b, s};
+}
+
 pair<uint32_t, uint32_t> Imit::value() const
 {
 	shared_ptr<const Block> k;
@@ -83,7 +101,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 	auto s = data;
 
 	vector<byte> b;
-	tie(b, s) = s->read(Block::size);
+	tie(b, s) = readBlock(s);
 	while (true) {
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
@@ -92,7 +110,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.size() < Block::size) {
 			break;
 		}
-		tie(b, s) = s->read(Block::size);
+		tie(b, s) = readBlock(s);
 		if (b.empty()) {
 			break;
 		}
diff --git a/goost/magma/Imit.h b/goost/magma/Imit.h
index c4f8f2f..515f5ea 100644
--- a/goost/magma/Imit.h
+++ b/goost/magma/Imit.h
@@ -4,7 +4,9 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #pragma once
+#include <cstddef>
 #include <memory>
+#include <vector>
 #include "Block.h"
 
 namespace goost {
@@ -23,6 +25,10 @@ public:
 private:
 	const std::shared_ptr<const Source> data;
 	const std::shared_ptr<const LazyKey> key;
+
+	std::pair<std::vector<std::byte>, std::shared_ptr<const Source>> readBlock(
+		const std::shared_ptr<const Source> &source
+	) const;
 };
 
 }  // namespace magma
-- 
2.43.0


From 0300ac791f5d91a0eacef139cefa37ccefd824c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 06/16] fix: MACs complete an incomplete last block with one
 bit and zeros

GOST R 34.13-2015 pads with 1 0...0 before K2 is applied. Padding with
zeros only gave a message and the same message with zero bytes appended
the same MAC. The Kuznyechik MAC also has to ignore what a stream leaves
beyond the size it declares (a CTR stream masks the whole block).
---
 goost/kuznyechik/Imit.cpp | 32 +++++++++++++++++++++++++++++++-
 goost/magma/Imit.cpp      |  4 ++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index bfae3ca..07009a1 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -4,6 +4,8 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "Imit.h"
+#include <array>
+#include <cstring>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "BlkShifted.h"
@@ -40,6 +42,31 @@ private:
 	const shared_ptr<const Block> b;
 };
 
+// This class complete last block of stream with one bit and zeros
+class BlkPadded final : public Block {
+public:
+	BlkPadded(const shared_ptr<const Block> &block, size_t size)
+		: block(block), size(size)
+	{
+	}
+
+	pair<uint64_t, uint64_t> value() const override
+	{
+		const auto value = block->value();
+		array<uint8_t, Block::size> data;
+		memcpy(&data[0], &value.first, sizeof(value.first));
+		memcpy(&data[8], &value.second, sizeof(value.second));
+		for (size_t i = size; i < data.size(); i++) {
+			data[i] = i == size ? 0x80 : 0;
+		}
+		return BlkRaw(&data[0]).value();
+	}
+
+private:
+	const shared_ptr<const Block> block;
+	const size_t size;
+};
+
 }  // namespace kuznyechik
 }  // namespace goost
 
@@ -66,7 +93,10 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 		make_unique<BlkEncrypted>(make_unique<BlkRaw>(), key),
 		B
 	);
-	const auto xblock = make_shared<BlkXored>(block, make_unique<BlkRaw>(iter->value()));
+	const auto xblock = make_shared<BlkXored>(
+		block,
+		make_unique<BlkPadded>(iter, iter->size())
+	);
 
 	if (iter->size() == Block::size) {
 		return BlkEncrypted(make_unique<BlkXored>(xblock, K1), key).value();
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 196018f..988fd3b 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -106,6 +106,10 @@ pair<uint32_t, uint32_t> Imit::value() const
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
 		memcpy(&v, &b[0], b.size());
+		if (b.size() < Block::size) {
+			// One bit and zeros complete the last block
+			v |= uint64_t(0x80) << (b.size() * 8);
+		}
 		block = make_shared<BlkXored>(block, make_shared<BlkRaw>(v));
 		if (b.size() < Block::size) {
 			break;
-- 
2.43.0


From 9ab8a5f5d32c3fdbb236abb2f6523540ed784ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:05 +0000
Subject: [PATCH 07/16] fix: MAC and CTR chaining values are evaluated block by
 block

The chain of unevaluated blocks grew with the message and was evaluated
recursively: a Kuznyechik MAC of 16 KB overflowed the stack.
---
 goost/kuznyechik/Imit.cpp           | 8 +++++---
 goost/kuznyechik/StCTREncrypted.cpp | 6 +++++-
 goost/magma/Imit.cpp                | 2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index 07009a1..4c91d6c 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -81,9 +81,11 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
-		block = make_shared<const BlkEncrypted>(
-			make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
-			key
+		block = make_shared<const BlkRaw>(
+			make_shared<const BlkEncrypted>(
+				make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
+				key
+			)
 		);
 		iter = iter->next();
 	}
diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 09b757c..7cb25cc 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,7 +57,11 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
-	return make_shared<ItCTREncrypted>(iter->next(), key, make_shared<BlkIncremented>(ctr));
+	return make_shared<ItCTREncrypted>(
+		iter->next(),
+		key,
+		make_shared<BlkRaw>(make_shared<BlkIncremented>(ctr))
+	);
 }
 
 StCTREncrypted::StCTREncrypted(
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 988fd3b..7ee4509 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -118,7 +118,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.empty()) {
 			break;
 		}
-		block = make_shared<BlkEncrypted>(block, key);
+		block = make_shared<BlkRaw>(make_shared<BlkEncrypted>(block, key));
 	}
 
 	return BlkEncrypted(make_shared<BlkXored>(block, k), key).value();
-- 
2.43.0


From 3ee70011971ed49bd1f2112b675ec38ae48302ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:06 +0000
Subject: [PATCH 08/16] fix: iterator of a memory stream keeps the stream alive

Asking for the next block through a weak pointer crashed as soon as the
stream the iterator came from was gone.
---
 goost/kuznyechik/StMemory.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 90393ab..42935b7 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -16,7 +16,7 @@ namespace kuznyechik {
 class ItMemory final : public Iterator {
 public:
 	ItMemory(
-		const weak_ptr<const StMemory> &stream,
+		const shared_ptr<const StMemory> &stream,
 		size_t offset,
 		const shared_ptr<const Block> &data
 	);
@@ -26,7 +26,7 @@ public:
 	size_t size() const override;
 	shared_ptr<const Iterator> next() const override;
 private:
-	const weak_ptr<const StMemory> stream;
+	const shared_ptr<const StMemory> stream;
 	const size_t offset;
 	const shared_ptr<const Block> data;
 };
@@ -35,7 +35,7 @@ private:
 }  // namespace goost
 
 ItMemory::ItMemory(
-	const weak_ptr<const StMemory> &stream,
+	const shared_ptr<const StMemory> &stream,
 	size_t offset,
 	const shared_ptr<const Block> &data
 ) : stream(stream), offset(offset), data(data)
@@ -59,8 +59,7 @@ size_t ItMemory::size() const
 
 shared_ptr<const Iterator> ItMemory::next() const
 {
-	const auto stream_ptr = stream.lock();
-	return stream_ptr->next_iter(offset + Block::size);
+	return stream->next_iter(offset + Block::size);
 }
 
 StMemory::StMemory(const vector<uint64_t> &data)
-- 
2.43.0


From 9e09831d49f4e5ff732f167be16fc8c347ae25e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:06 +0000
Subject: [PATCH 09/16] fix: memory streams with an odd number of words or none

The last block of an odd number of words was read past the end of the
data and declared complete, and the empty stream had a null iterator,
which the MAC and the CTR stream dereference.
---
 goost/kuznyechik/StMemory.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 42935b7..ad7afeb 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "StMemory.h"
+#include <algorithm>
 #include "BlkRaw.h"
 #include "Iterator.h"
 
@@ -18,6 +19,7 @@ public:
 	ItMemory(
 		const shared_ptr<const StMemory> &stream,
 		size_t offset,
+		size_t block_size,
 		const shared_ptr<const Block> &data
 	);
 
@@ -28,6 +30,7 @@ public:
 private:
 	const shared_ptr<const StMemory> stream;
 	const size_t offset;
+	const size_t block_size;
 	const shared_ptr<const Block> data;
 };
 
@@ -37,8 +40,9 @@ private:
 ItMemory::ItMemory(
 	const shared_ptr<const StMemory> &stream,
 	size_t offset,
+	size_t block_size,
 	const shared_ptr<const Block> &data
-) : stream(stream), offset(offset), data(data)
+) : stream(stream), offset(offset), block_size(block_size), data(data)
 {
 }
 
@@ -54,7 +58,7 @@ bool ItMemory::last() const
 
 size_t ItMemory::size() const
 {
-	return Block::size;
+	return block_size;
 }
 
 shared_ptr<const Iterator> ItMemory::next() const
@@ -74,12 +78,18 @@ shared_ptr<const Iterator> StMemory::iter() const
 
 shared_ptr<const Iterator> StMemory::next_iter(size_t offset) const
 {
-	if (data.size() <= offset / sizeof(uint64_t)) {
+	const auto index = offset / sizeof(uint64_t);
+	if (index > 0 && data.size() <= index) {
 		return {};
 	}
+	const auto words = min(data.size() - index, Block::size / sizeof(uint64_t));
 	return make_shared<const ItMemory>(
 		shared_from_this(),
 		offset,
-		make_shared<BlkRaw>(&data[offset / sizeof(uint64_t)])
+		words * sizeof(uint64_t),
+		make_shared<BlkRaw>(
+			words > 0 ? data[index] : 0,
+			words > 1 ? data[index + 1] : 0
+		)
 	);
 }
-- 
2.43.0


From f99b0ad50662d02c8fc6e50ee131e34d109f4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 10/16] fix: block shifts do not shift words by their width or
 more

The Magma block has 32-bit halves, but bits were carried with a shift by
64 - n. A Kuznyechik block shifted by 0 or by 64 and more bits was wrong.
---
 goost/kuznyechik/BlkShifted.cpp | 6 ++++++
 goost/magma/BlkShifted.cpp      | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/BlkShifted.cpp b/goost/kuznyechik/BlkShifted.cpp
index cda6197..310b95b 100644
--- a/goost/kuznyechik/BlkShifted.cpp
+++ b/goost/kuznyechik/BlkShifted.cpp
@@ -16,5 +16,11 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint64_t, uint64_t> BlkShifted::value() const
 {
 	const auto value = block->value();
+	if (n == 0) {
+		return value;
+	}
+	if (n >= 64) {
+		return {0, value.first << (n - 64)};
+	}
 	return {value.first << n, value.second << n | value.first >> (64 - n)};
 }
diff --git a/goost/magma/BlkShifted.cpp b/goost/magma/BlkShifted.cpp
index 020d1d5..86bc5c9 100644
--- a/goost/magma/BlkShifted.cpp
+++ b/goost/magma/BlkShifted.cpp
@@ -16,5 +16,6 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint32_t, uint32_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (64 - n)};
+	const auto shifted = (uint64_t(value.second) << 32 | value.first) << n;
+	return {shifted, shifted >> 32};
 }
-- 
2.43.0


From 0a9a44ab4f2ac309f5847c776702f6b1ec470085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 11/16] fix: lazy caches may be filled from several threads at
 once

Keys and blocks have only const methods, so they get shared, but the
first use from two threads raced on the unsynchronized cache.
---
 goost/kuznyechik/BlkCached.cpp | 5 ++++-
 goost/magma/KeyCachedData.cpp  | 3 ++-
 goost/magma/KeyCachedData.h    | 2 ++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/BlkCached.cpp b/goost/kuznyechik/BlkCached.cpp
index 3b5552e..aef5681 100644
--- a/goost/kuznyechik/BlkCached.cpp
+++ b/goost/kuznyechik/BlkCached.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkCached.h"
+#include <mutex>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -11,12 +12,13 @@ using namespace goost::kuznyechik;
 class BlkCached::BlockCache final {
 public:
 	explicit BlockCache(const shared_ptr<const Block> &block)
-		: loaded(false), state(), block(block)
+		: mutex(), loaded(false), state(), block(block)
 	{
 	}
 
 	pair<uint64_t, uint64_t> value()
 	{
+		const lock_guard<std::mutex> lock(mutex);
 		if (!loaded) {
 			state = block->value();
 			loaded = true;
@@ -24,6 +26,7 @@ public:
 		return state;
 	}
 private:
+	std::mutex mutex;
 	bool loaded;
 	pair<uint64_t, uint64_t> state;
 	const shared_ptr<const Block> block;
diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 6041a00..9997032 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -9,12 +9,13 @@ using namespace std;
 using namespace goost::magma;
 
 KeyCachedData::KeyCachedData(unique_ptr<const KeyData> keydata)
-	: cache(make_unique<CachedData>()), keydata(move(keydata))
+	: guard(make_unique<mutex>()), cache(make_unique<CachedData>()), keydata(move(keydata))
 {
 }
 
 uint32_t KeyCachedData::key(int index) const
 {
+	const lock_guard<mutex> lock(*guard);
 	if (!cache->cached) {
 		for (size_t i = 0; i < cache->key.size(); i++) {
 			cache->key[i] = keydata->key(i);
diff --git a/goost/magma/KeyCachedData.h b/goost/magma/KeyCachedData.h
index fde79be..e96004d 100644
--- a/goost/magma/KeyCachedData.h
+++ b/goost/magma/KeyCachedData.h
@@ -6,6 +6,7 @@
 #pragma once
 #include "KeyData.h"
 #include <memory>
+#include <mutex>
 
 namespace goost {
 namespace magma {
@@ -19,6 +20,7 @@ private:
 		bool cached;
 		std::array<uint32_t, 8> key;
 	};
+	const std::unique_ptr<std::mutex> guard;
 	const std::unique_ptr<CachedData> cache;
 	const std::unique_ptr<const KeyData> keydata;
 };
-- 
2.43.0


From b843ee3abe70fbe828f94f74029c7f728a760ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 12/16] fix: key and block text with a wrong size or wrong
 digits is refused

Such text was silently turned into some other value: digits after a
wrong one were dropped, a wrong first digit gave a zero subkey, short
Kuznyechik keys were extended with zeros, surplus digits ignored.
---
 goost/kuznyechik/BlkString.cpp     | 7 +++++++
 goost/kuznyechik/KeyDataString.cpp | 7 +++++++
 goost/magma/BlkString.cpp          | 7 +++++++
 goost/magma/KeyDataString.cpp      | 3 +++
 4 files changed, 24 insertions(+)

diff --git a/goost/kuznyechik/BlkString.cpp b/goost/kuznyechik/BlkString.cpp
index 762b7f8..8709448 100644
--- a/goost/kuznyechik/BlkString.cpp
+++ b/goost/kuznyechik/BlkString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -15,6 +16,12 @@ BlkString::BlkString(const string &block)
 
 pair<uint64_t, uint64_t> BlkString::value() const
 {
+	if (block.size() > Block::size * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (block.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong block digit");
+	}
 	auto value = block;
 	while (value.size() < sizeof(uint64_t) * 2 * 2) {
 		value.insert(0, 1, '0');
diff --git a/goost/kuznyechik/KeyDataString.cpp b/goost/kuznyechik/KeyDataString.cpp
index a2d0092..630793e 100644
--- a/goost/kuznyechik/KeyDataString.cpp
+++ b/goost/kuznyechik/KeyDataString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <stdexcept>
 #include <string>
 #include "BlkString.h"
 
@@ -17,10 +18,16 @@ KeyDataString::KeyDataString(const string &key_data)
 
 shared_ptr<const Block> KeyDataString::low() const
 {
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
 	return make_shared<BlkString>(string(key_data, 32, 32));
 }
 
 shared_ptr<const Block> KeyDataString::high() const
 {
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
 	return make_shared<BlkString>(string(key_data, 0, 32));
 }
diff --git a/goost/magma/BlkString.cpp b/goost/magma/BlkString.cpp
index 07c57d4..5b7afca 100644
--- a/goost/magma/BlkString.cpp
+++ b/goost/magma/BlkString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,6 +16,12 @@ BlkString::BlkString(const string &block)
 
 pair<uint32_t, uint32_t> BlkString::value() const
 {
+	if (block.size() > Block::size * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (block.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong block digit");
+	}
 	auto value = block;
 	while (value.size() < Block::size * 2) {
 		value.insert(0, 1, '0');
diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index 5bf3b80..b6e1603 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -20,6 +20,9 @@ uint32_t KeyDataString::key(int index) const
 	if (key_data.size() != 64) {
 		throw runtime_error("Wrong key size");
 	}
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key digit");
+	}
 	if (index < 0 || index > 7) {
 		throw runtime_error("Wrong key index");
 	}
-- 
2.43.0


From 53d695b536953e4aa534907447bbbd2d19c3c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 13/16] fix: keys, containers, tables and blocks of a wrong
 size are refused

A native key or table that is too short was read past its end, an
oversized container key or table overflowed the heap, and the cached key
lost the index check of the key it caches.
---
 goost/magma/BlkRaw.cpp        | 7 +++++--
 goost/magma/ECBSource.cpp     | 6 ++++++
 goost/magma/KeyCachedData.cpp | 2 +-
 goost/magma/KeyDataNative.cpp | 6 +++++-
 goost/magma/SboxByte64Tab.cpp | 4 ++--
 goost/magma/SboxNibble.cpp    | 2 +-
 6 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/goost/magma/BlkRaw.cpp b/goost/magma/BlkRaw.cpp
index a5d62c9..de1c212 100644
--- a/goost/magma/BlkRaw.cpp
+++ b/goost/magma/BlkRaw.cpp
@@ -5,6 +5,7 @@
 
 #include "BlkRaw.h"
 #include <iomanip>
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -31,8 +32,10 @@ BlkRaw::BlkRaw(uint64_t block)
 
 BlkRaw::BlkRaw(const vector<uint8_t> &block)
 	: BlkRaw(
-		reinterpret_cast<const uint32_t *>(&block[0])[0],
-		reinterpret_cast<const uint32_t *>(&block[0])[1]
+		static_cast<const void *>(
+			block.size() < Block::size ?
+				throw runtime_error("Wrong block size") : &block[0]
+		)
 	  )
 {
 }
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index fbba86a..b40f0ef 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -71,6 +71,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 	vector<uint32_t> key(8);
 	// @todo need to use mask
 	const auto ik = container->key();
+	if (ik.size() != key.size() * sizeof(uint32_t)) {
+		throw runtime_error("Wrong key size");
+	}
 	memcpy(&key[0], &ik[0], ik.size());
 	for (auto &k : key) {
 		k = htonl(k);
@@ -78,6 +81,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 
 	vector<uint8_t> sbox(64);
 	const auto is = container->sbox();
+	if (is.size() != sbox.size()) {
+		throw runtime_error("Wrong sbox size");
+	}
 	memcpy(&sbox[0], &is[0], is.size());
 
 	return make_shared<LazyKey>(key, make_shared<SboxTwisted>(make_unique<SboxByte>(sbox)));
diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 9997032..267b109 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -22,5 +22,5 @@ uint32_t KeyCachedData::key(int index) const
 		}
 		cache->cached = true;
 	}
-	return cache->key[index];
+	return cache->key.at(index);
 }
diff --git a/goost/magma/KeyDataNative.cpp b/goost/magma/KeyDataNative.cpp
index 1e4ec71..7790c83 100644
--- a/goost/magma/KeyDataNative.cpp
+++ b/goost/magma/KeyDataNative.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataNative.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,5 +16,8 @@ KeyDataNative::KeyDataNative(const vector<uint32_t> &key_data)
 
 uint32_t KeyDataNative::key(int index) const
 {
-	return key_data[index];
+	if (key_data.size() != 8) {
+		throw runtime_error("Wrong key size");
+	}
+	return key_data.at(index);
 }
diff --git a/goost/magma/SboxByte64Tab.cpp b/goost/magma/SboxByte64Tab.cpp
index 70a191f..542b215 100644
--- a/goost/magma/SboxByte64Tab.cpp
+++ b/goost/magma/SboxByte64Tab.cpp
@@ -15,6 +15,6 @@ SboxByte64Tab::SboxByte64Tab(const vector<uint8_t> &uz, int offset)
 
 uint32_t SboxByte64Tab::translate(int index) const
 {
-	return (uz[((index >> 4) & 0xf) * 4 + offset] & 0xf0)
-		+ (uz[(index & 0xf) * 4 + offset] & 0x0f);
+	return (uz.at(((index >> 4) & 0xf) * 4 + offset) & 0xf0)
+		+ (uz.at((index & 0xf) * 4 + offset) & 0x0f);
 }
diff --git a/goost/magma/SboxNibble.cpp b/goost/magma/SboxNibble.cpp
index c481ab4..9297a25 100644
--- a/goost/magma/SboxNibble.cpp
+++ b/goost/magma/SboxNibble.cpp
@@ -30,5 +30,5 @@ uint32_t SboxNibble::transform(uint32_t value) const
 uint32_t SboxNibble::transformN(uint32_t value, const vector<int> &p, int nidx) const
 {
 	const int i = (value >> (nidx * 4)) & 0xf;
-	return uint32_t(p[i]) << (nidx * 4);
+	return uint32_t(p.at(i)) << (nidx * 4);
 }
-- 
2.43.0


From 10762c6991b815787bb7868f6bff014d047e0813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 14/16] fix: Magma modes work with any implementation of the
 key interface

The modes accept an abstract key but cast it down to LazyKey, so any
other implementation ended in a null pointer dereference. The block
objects need nothing beyond the interface.
---
 goost/gost89/CFBSink.cpp      | 5 ++---
 goost/gost89/CFBSource.cpp    | 3 +--
 goost/magma/BlkBackwarded.cpp | 4 ++--
 goost/magma/BlkBackwarded.h   | 6 +++---
 goost/magma/BlkDecrypted.cpp  | 2 +-
 goost/magma/BlkDecrypted.h    | 4 ++--
 goost/magma/BlkEncrypted.cpp  | 2 +-
 goost/magma/BlkEncrypted.h    | 4 ++--
 goost/magma/BlkForwarded.cpp  | 4 ++--
 goost/magma/BlkForwarded.h    | 6 +++---
 goost/magma/CFBSink.cpp       | 5 ++---
 goost/magma/CFBSource.cpp     | 3 +--
 goost/magma/ECBSource.cpp     | 2 +-
 goost/magma/Imit.cpp          | 1 +
 14 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 0308a15..e973d5f 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -10,7 +10,6 @@
 #include <goost/magma/BlkEncrypted.h>
 #include <goost/magma/BlkRaw.h>
 #include <goost/magma/Block.h>
-#include <goost/magma/LazyKey.h>
 
 using namespace std;
 using namespace goost;
@@ -44,7 +43,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(l),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -67,7 +66,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(iv),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index bb62cae..375c210 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -7,7 +7,6 @@
 #include <cstring>
 #include <goost/magma/BlkEncrypted.h>
 #include <goost/magma/BlkRaw.h>
-#include <goost/magma/LazyKey.h>
 
 using namespace std;
 using namespace goost;
@@ -50,7 +49,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(r),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		do {
diff --git a/goost/magma/BlkBackwarded.cpp b/goost/magma/BlkBackwarded.cpp
index e58e8a7..6d6e77d 100644
--- a/goost/magma/BlkBackwarded.cpp
+++ b/goost/magma/BlkBackwarded.cpp
@@ -4,12 +4,12 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkBackwarded.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkBackwarded.h b/goost/magma/BlkBackwarded.h
index 4431d6a..5c88742 100644
--- a/goost/magma/BlkBackwarded.h
+++ b/goost/magma/BlkBackwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, trancformed over key in backward direction
 class BlkBackwarded final : public Block {
 public:
 	BlkBackwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/BlkDecrypted.cpp b/goost/magma/BlkDecrypted.cpp
index 6dfe193..b5dab90 100644
--- a/goost/magma/BlkDecrypted.cpp
+++ b/goost/magma/BlkDecrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkDecrypted.h b/goost/magma/BlkDecrypted.h
index bd27a07..e5c8793 100644
--- a/goost/magma/BlkDecrypted.h
+++ b/goost/magma/BlkDecrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkDecrypted final : public Block {
 public:
 	BlkDecrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkEncrypted.cpp b/goost/magma/BlkEncrypted.cpp
index 578805c..59fc078 100644
--- a/goost/magma/BlkEncrypted.cpp
+++ b/goost/magma/BlkEncrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkEncrypted.h b/goost/magma/BlkEncrypted.h
index b0260db..aa42044 100644
--- a/goost/magma/BlkEncrypted.h
+++ b/goost/magma/BlkEncrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkEncrypted final : public Block {
 public:
 	BlkEncrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkForwarded.cpp b/goost/magma/BlkForwarded.cpp
index 0b358c8..09826e8 100644
--- a/goost/magma/BlkForwarded.cpp
+++ b/goost/magma/BlkForwarded.cpp
@@ -5,12 +5,12 @@
 
 #include "BlkForwarded.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkForwarded.h b/goost/magma/BlkForwarded.h
index b202cf5..b3eeb47 100644
--- a/goost/magma/BlkForwarded.h
+++ b/goost/magma/BlkForwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, transformed over key in forward direction
 class BlkForwarded final : public Block {
 public:
 	BlkForwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 8ddc1ee..447b4da 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -8,7 +8,6 @@
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "Block.h"
-#include "LazyKey.h"
 
 using namespace std;
 using namespace goost;
@@ -44,7 +43,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(rl),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -68,7 +67,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(ivl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index e695838..2b30282 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -7,7 +7,6 @@
 #include <cstring>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
 
 using namespace std;
 using namespace goost;
@@ -52,7 +51,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(rl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		do {
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index b40f0ef..6675fdf 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -58,7 +58,7 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-		dynamic_pointer_cast<const LazyKey>(key)
+		key
 	).value();
 
 	memcpy(&p[0], &e.first, Block::size);
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 7ee4509..c43c443 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -11,6 +11,7 @@
 #include "BlkShifted.h"
 #include "BlkXored.h"
 #include "Iterator.h"
+#include "LazyKey.h"
 
 using namespace std;
 using namespace goost::magma;
-- 
2.43.0


From 22d32554fba8f68e7314ae28a9e75f4e409acf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:27 +0000
Subject: [PATCH 15/16] fix: Magma MAC of an empty message does not index an
 empty vector

---
 goost/magma/Imit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index c43c443..63d122c 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -4,7 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "Imit.h"
-#include <cstring>
+#include <algorithm>
 #include <goost/Source.h>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
@@ -106,7 +106,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 	while (true) {
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
-		memcpy(&v, &b[0], b.size());
+		copy(b.begin(), b.end(), reinterpret_cast<byte *>(&v));
 		if (b.size() < Block::size) {
 			// One bit and zeros complete the last block
 			v |= uint64_t(0x80) << (b.size() * 8);
-- 
2.43.0


From 3aac26441317c7250b02609108f6e167bd1f1aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:13 +0000
Subject: [PATCH 16/16] fix: the last iterator of a CTR-encrypted stream had a
 next one, over nothing

---
 goost/kuznyechik/StCTREncrypted.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 7cb25cc..97c7ed3 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,8 +57,12 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
+	const auto next_iter = iter->next();
+	if (!next_iter) {
+		return {};
+	}
 	return make_shared<ItCTREncrypted>(
-		iter->next(),
+		next_iter,
 		key,
 		make_shared<BlkRaw>(make_shared<BlkIncremented>(ctr))
 	);
-- 
2.43.0

