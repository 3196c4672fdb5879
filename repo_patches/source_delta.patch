From 343b336c2c4e120f862cd0843b1d8513568fb34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 01/33] fix: KeyStoreFree(NULL) is a no-op

It dereferenced NULL. fromKeyProtector() in the JKS reader relies on it when
the decrypted data is not a usable key.
---
 keylib/keystore.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/keystore.c b/keylib/keystore.c
index 2bfbc69..108ac2b 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -72,6 +72,8 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
 void KeyStoreFree(KeyStore* ks)
 {
     size_t i = 0;
+    if (ks == NULL)
+        return;
     if (ks->keys != NULL)
     {
         for (i = 0; i < ks->keyNum; ++i)
-- 
2.43.0


From 02a5ebf2d7c8da9f2301cc9018623d7c2c43c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 02/33] fix: replace a zero hash element by one after
 truncation, not before

A hash whose low m bits are all zero became 0 after truncation, and signing
it looped forever because r stayed 0.
---
 engine/sign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/sign.c b/engine/sign.c
index fd20c35..8e8aae5 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -42,10 +42,13 @@ static int hash_to_field(const unsigned char *hash, int hash_len, BIGNUM *fe,
     }
 
     OPENSSL_free(h);
+    if (!bn_truncate_bits(fe, fieldsize))
+        return 0;
+
     if (BN_is_zero(fe))
         BN_one(fe);
 
-    return bn_truncate_bits(fe, fieldsize);
+    return 1;
 }
 
 static int field_to_bn(BIGNUM *fe, const BIGNUM *order)
-- 
2.43.0


From 14f774972947dc23abd0f43c85f9817cbaa6b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 03/33] fix: bound every read of the JKS reader by the size of
 the container

The size argument was ignored, so truncated files and wrong length fields or
counts made the reader run past the buffer.
---
 keylib/jks.c | 82 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 22 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 3d1dd86..cbf42b3 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -141,13 +141,28 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
     return ok;
 }
 
-static const void* parseCert(const void* data, KeyStore* ks, size_t* certPos)
+static size_t bytesLeft(const void* data, const void* end)
 {
-    uint16_t typeLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    return (const unsigned char*)end - (const unsigned char*)data;
+}
+
+static const void* parseCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
+{
+    uint16_t typeLength = 0;
+    uint32_t dataLength = 0;
+    const unsigned char* dataPtr = NULL;
     X509* x509 = NULL;
 
+    if (bytesLeft(data, end) < sizeof(typeLength))
+        return NULL;
+    typeLength = ntohs(read16(data, 0));
+    if (bytesLeft(data, end) < sizeof(typeLength) + typeLength + sizeof(dataLength))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
+    dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    if (bytesLeft(dataPtr, end) < dataLength)
+        return NULL;
+
     x509 = d2i_X509(NULL, &dataPtr, dataLength);
     if (x509 == NULL)
         return NULL;
@@ -169,7 +184,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 {
     const size_t saltLength = 20;
     const size_t digestLength = 20;
-    const size_t encryptedLength = size - saltLength - digestLength;
+    const size_t encryptedLength = size > saltLength + digestLength ? size - saltLength - digestLength : 0;
     const size_t rounds = encryptedLength % digestLength > 0 ? 1 + encryptedLength / digestLength : encryptedLength / digestLength;
     const unsigned char* encrypted = ptrAt(data, saltLength);
     unsigned char* decrypted = NULL;
@@ -180,6 +195,9 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     size_t pos = 0;
     int r = 0;
 
+    if (encryptedLength == 0)
+        return 0;
+
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
@@ -301,36 +319,51 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     return 1;
 }
 
-static const void* parseKey(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseKey(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint16_t nameLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
-    uint32_t certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + 4 + dataLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
-    const unsigned char* certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+    uint16_t nameLength = 0;
+    uint32_t dataLength = 0;
+    uint32_t certNum = 0;
+    const unsigned char* dataPtr = NULL;
+    const unsigned char* certPtr = NULL;
     size_t i = 0;
 
+    if (bytesLeft(data, end) < sizeof(nameLength))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (bytesLeft(data, end) < sizeof(nameLength) + nameLength + 8 + sizeof(dataLength)) // 8 bytes - 64-bit timestamp
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8));
+    dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
+    if (bytesLeft(dataPtr, end) < dataLength + sizeof(certNum))
+        return NULL;
+    certNum = ntohl(read32(dataPtr, dataLength));
+    certPtr = ptrAt(dataPtr, dataLength + sizeof(certNum));
+
     if (decryptKey(dataPtr, dataLength, keyPass, keyPassSize, ks, keyPos, certPos) == 0)
         return NULL;
 
     for (i = 0; i < certNum; ++i)
     {
-        certPtr = parseCert(certPtr, ks, certPos);
+        certPtr = parseCert(certPtr, end, ks, certPos);
         if (certPtr == NULL)
             return NULL;
     }
     return certPtr;
 }
 
-static const void* parseEntry(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint32_t tag = ntohl(read32(data, 0));
+    uint32_t tag = 0;
+    if (bytesLeft(data, end) < sizeof(tag))
+        return NULL;
+    tag = ntohl(read32(data, 0));
     switch (tag)
     {
         case JKS_ENTRY_PRIVATE_KEY:
-            return parseKey(ptrAt(data, sizeof(tag)), keyPass, keyPassSize, ks, keyPos, certPos);
+            return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), ks, certPos);
+            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
@@ -338,9 +371,10 @@ static const void* parseEntry(const void* data, const char* keyPass, size_t keyP
 int parseJKS(const void* data, size_t size, const char* storagePass, size_t storagePassSize, const char* keyPass, size_t keyPassSize, KeyStore** ks)
 {
     const size_t digestLength = 20;
-    uint32_t magic = read32(data, 0);
-    uint32_t entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
-    const unsigned char* entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
+    uint32_t magic = 0;
+    uint32_t entries = 0;
+    const unsigned char* entryPtr = NULL;
+    const unsigned char* end = ptrAt(data, size);
     unsigned char digest[digestLength];
     size_t i = 0;
     size_t j = 0;
@@ -349,7 +383,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t keyPos = 0;
     size_t certPos = 0;
 
-    (void) size; // Unused
+    if (size < sizeof(magic) + 4 + sizeof(entries)) // 4 bytes - 32-bit version
+        return 0;
+    magic = read32(data, 0);
+    entries = ntohl(read32(data, sizeof(magic) + 4));
+    entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
 
     // Check MAGIC
     if (magic != 0xedfeedfe && // JKS
@@ -366,12 +404,12 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
-    if (entryPtr == NULL)
+    if (entryPtr == NULL || bytesLeft(entryPtr, end) < digestLength)
     {
         KeyStoreFree(*ks);
         return 0;
-- 
2.43.0


From 6acb773c3caaff6c80be91e32b05c382dcb71d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 04/33] fix: skip alias and timestamp of JKS trusted
 certificate entries

The certificate of a trusted certificate entry follows its alias and
timestamp; they were taken for the certificate, so such stores never opened.
---
 keylib/jks.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index cbf42b3..aa3e6aa 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -352,6 +352,18 @@ static const void* parseKey(const void* data, const void* end, const char* keyPa
     return certPtr;
 }
 
+static const void* parseTrustedCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
+{
+    uint16_t nameLength = 0;
+
+    if (bytesLeft(data, end) < sizeof(nameLength))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (bytesLeft(data, end) < sizeof(nameLength) + nameLength + 8) // 8 bytes - 64-bit timestamp
+        return NULL;
+    return parseCert(ptrAt(data, sizeof(nameLength) + nameLength + 8), end, ks, certPos);
+}
+
 static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
     uint32_t tag = 0;
@@ -363,7 +375,7 @@ static const void* parseEntry(const void* data, const void* end, const char* key
         case JKS_ENTRY_PRIVATE_KEY:
             return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
+            return parseTrustedCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
-- 
2.43.0


From f912670b14634dc11ebbcd05c9175eeda9059d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 05/33] fix: parseJKS does not hand out a freed KeyStore or
 leak on failure

On failure *ks was left pointing to the freed store, and the converted
password leaked when an entry could not be parsed.
---
 keylib/jks.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index aa3e6aa..0328e28 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -394,6 +394,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t pwd16Length = 0;
     size_t keyPos = 0;
     size_t certPos = 0;
+    KeyStore* res = NULL;
 
     if (size < sizeof(magic) + 4 + sizeof(entries)) // 4 bytes - 32-bit version
         return 0;
@@ -412,24 +413,25 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     if (toUTF16BE(storagePass, storagePassSize, &pwd16, &pwd16Length) == 0)
         return 0;
 
-    *ks = KeyStoreNew(0, 0); // Start from zero
+    res = KeyStoreNew(0, 0); // Start from zero
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, res, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
     if (entryPtr == NULL || bytesLeft(entryPtr, end) < digestLength)
     {
-        KeyStoreFree(*ks);
+        KeyStoreFree(res);
+        OPENSSL_free(pwd16);
         return 0;
     }
 
     if (whiteHash(pwd16, pwd16Length, data, entryPtr - (const unsigned char*)data, digest) == 0)
     {
-        KeyStoreFree(*ks);
+        KeyStoreFree(res);
         OPENSSL_free(pwd16);
         return 0;
     }
@@ -438,10 +440,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     for (j = 0; j < digestLength; ++j)
         if (digest[j] != entryPtr[j])
         {
-            KeyStoreFree(*ks);
+            KeyStoreFree(res);
             return 0;
         }
 
+    *ks = res;
     return 1;
 }
 
-- 
2.43.0


From 26a3f8e33d48d7aa75995c2bece099542efa91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 06/33] fix: release the conversion buffer and BIO properly
 when iconv_open fails

---
 keylib/jks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 0328e28..999e837 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -61,7 +61,8 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t r = 0;
     if (cd == (iconv_t)-1)
     {
-        OPENSSL_free(res);
+        OPENSSL_free(buf);
+        BIO_free(res);
         return 0;
     }
     while (ss > 0)
-- 
2.43.0


From 3fa88d158899bc87db606b1cda6a17531aa22441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 07/33] fix: parsePKCS12 does not hand out a freed KeyStore on
 failure

---
 keylib/pkcs12.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index 48c5e2b..a450b1b 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -172,6 +172,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     size_t numCerts = 0;
     size_t keyPos = 0;
     size_t certPos = 0;
+    KeyStore* res = NULL;
 
     if (pkcs12 == NULL)
         return 0;
@@ -198,11 +199,11 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
         return 0;
     }
 
-    *ks = KeyStoreNew(numKeys, numCerts);
+    res = KeyStoreNew(numKeys, numCerts);
 
-    if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
+    if (fromSafes(safes, password, passSize, res, &keyPos, &certPos) == 0)
     {
-        KeyStoreFree(*ks);
+        KeyStoreFree(res);
         sk_PKCS7_pop_free(safes, PKCS7_free);
         PKCS12_free(pkcs12);
         return 0;
@@ -211,6 +212,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     sk_PKCS7_pop_free(safes, PKCS7_free);
     PKCS12_free(pkcs12);
 
+    *ks = res;
     return 1;
 }
 
-- 
2.43.0


From dc5b14bc8b47c795fd6a319ccc7c1140f19c171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 08/33] fix: refuse custom curves with absurd field polynomials

The exponents of the polynomial come from outside; large ones allocated
hundreds of megabytes and made decoding a key practically never end.
---
 dstulib/key.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dstulib/key.c b/dstulib/key.c
index aef4155..cc55780 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -11,6 +11,7 @@
 #include <openssl/asn1.h>
 #include <openssl/bn.h>
 #include <openssl/crypto.h>
+#include <openssl/ec.h>
 #include <openssl/obj_mac.h>
 #include <openssl/objects.h>
 
@@ -229,13 +230,13 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     unsigned char *reverse_buffer = NULL;
 
     poly[0] = ASN1_INTEGER_get(spec->field->m);
-    if (poly[0] <= 0)
+    if (poly[0] <= 0 || poly[0] > OPENSSL_ECC_MAX_FIELD_BITS)
         goto err;
 
     if (DSTU_TRINOMIAL == spec->field->poly->type)
     {
         poly[1] = ASN1_INTEGER_get(spec->field->poly->poly.k);
-        if (poly[1] <= 0)
+        if (poly[1] <= 0 || poly[1] >= poly[0])
             goto err;
         poly[2] = 0;
         poly[3] = -1;
@@ -243,15 +244,15 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     else
     {
         poly[1] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->l);
-        if (poly[1] <= 0)
+        if (poly[1] <= 0 || poly[1] >= poly[0])
             goto err;
 
         poly[2] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->j);
-        if (poly[2] <= 0)
+        if (poly[2] <= 0 || poly[2] >= poly[0])
             goto err;
 
         poly[3] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->k);
-        if (poly[3] <= 0)
+        if (poly[3] <= 0 || poly[3] >= poly[0])
             goto err;
 
         poly[4] = 0;
-- 
2.43.0


From 1224b09dc015457679f734f82670272d51b5fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 09/33] fix: check the field polynomial of a curve taken from
 key attributes

A polynomial that could not be built was dereferenced as NULL, and its
exponents were not bounded.
---
 keylib/utils.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/keylib/utils.c b/keylib/utils.c
index 3af2aae..e4ce045 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -73,6 +73,7 @@ static BIGNUM* makePoly(BN_CTX* ctx, const DSTU_BinaryField* field)
 {
     BIGNUM* res = BN_CTX_get(ctx);
     int poly[6];
+    int i = 0;
     poly[0] = ASN1_INTEGER_get(field->m);
     if (field->poly->type == 0)
     {
@@ -90,6 +91,11 @@ static BIGNUM* makePoly(BN_CTX* ctx, const DSTU_BinaryField* field)
         poly[4] = 0;
         poly[5] = -1;
     }
+    if (poly[0] <= 0 || poly[0] > OPENSSL_ECC_MAX_FIELD_BITS)
+        return NULL;
+    for (i = 1; i < (field->poly->type == 0 ? 2 : 4); ++i)
+        if (poly[i] <= 0 || poly[i] >= poly[0])
+            return NULL;
     if (BN_GF2m_arr2poly(poly, res) == 0)
         return NULL;
     return res;
@@ -116,6 +122,9 @@ static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* sp
     EC_POINT* point = NULL;
     EC_GROUP* res = NULL;
 
+    if (poly == NULL)
+        return NULL;
+
     ASN1_INTEGER_to_BN(spec->a, a);
 
     res = EC_GROUP_new_curve_GF2m(poly, a, b, ctx);
-- 
2.43.0


From 0adaff9046f25dbdd319d6c70dd94ec122ceac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 10/33] fix: makePKey does not leak the group or key when it
 fails

---
 keylib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/utils.c b/keylib/utils.c
index e4ce045..2a5e2b6 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -193,6 +193,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     group = makeECGROUP(ctx, curveAttr);
     if (pkNum == NULL || group == NULL)
     {
+        EC_GROUP_free(group);
         BN_CTX_end(ctx);
         BN_CTX_free(ctx);
         return NULL;
@@ -213,6 +214,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
         EC_KEY_set_private_key(key->ec, pkNum) == 0 ||
         dstu_add_public_key(key->ec) == 0)
     {
+        EVP_PKEY_free(res);
         DSTU_KEY_free(key);
         EC_GROUP_free(group);
         BN_CTX_end(ctx);
-- 
2.43.0


From 557ed280d116e87bfb5c9eb15fa64fddb9eaa775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 11/33] fix: parse only the bytes of a Key-6 container that
 were decrypted

Eight or more uninitialised bytes after them were parsed too.
---
 keylib/key6.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 43d2415..35056b8 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -45,11 +45,17 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     gost_subst_block sbox;
     unsigned char key[32];
     const size_t sourceSize = size + padSize;
-    const size_t resSize = sourceSize + 8;
-    unsigned char* source = OPENSSL_malloc(sourceSize);
-    unsigned char* res = OPENSSL_malloc(resSize);
+    const size_t resSize = sourceSize / 8 * 8;
+    unsigned char* source = NULL;
+    unsigned char* res = NULL;
     int r = 0;
 
+    if (resSize == 0)
+        return 0;
+
+    source = OPENSSL_malloc(sourceSize);
+    res = OPENSSL_malloc(resSize);
+
     unpack_sbox(default_sbox, &sbox);
     gost_init(&ctx, &sbox);
     pkdf(password, passSize, key);
@@ -57,7 +63,7 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     memcpy(source, data, size);
     if (padSize > 0)
         memcpy(source + size, pad, padSize);
-    gost_dec(&ctx, source, res, sourceSize / 8);
+    gost_dec(&ctx, source, res, resSize / 8);
     OPENSSL_clear_free(source, sourceSize);
 
     r = keysFromPKCS8(res, resSize, ks);
-- 
2.43.0


From 2f63288ef4534ce151eda1e4c9ada716e5f1bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:30 +0000
Subject: [PATCH 12/33] fix: setting the key does not drop the cipher's
 substitution table

Every init call put the default table back, so a table set by a control or
taken from the algorithm parameters was lost when the key came afterwards:
CMS and PBES2 data under another table could not be decrypted.
---
 engine/cipher.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f145aa..8271045 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -27,12 +27,8 @@ static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                             const unsigned char *iv, int enc)
 {
     (void) enc; // Unused
-    gost_subst_block sbox;
     gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
-    unpack_sbox(default_sbox, &sbox);
-    gost_init(gctx, &sbox);
-
     if (key)
         gost_key(gctx, key);
 
@@ -155,6 +151,10 @@ static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
 
     switch (cmd)
     {
+        case EVP_CTRL_INIT:
+            unpack_sbox(default_sbox, &sbox);
+            gost_init(gctx, &sbox);
+            return 1;
         case DSTU_SET_CUSTOM_SBOX:
             if ((!p2) || (sizeof(default_sbox) != p1))
                 return 0;
@@ -234,7 +234,7 @@ EVP_CIPHER *dstu_cipher_new()
     if (res == NULL)
         return NULL;
     if (!EVP_CIPHER_meth_set_iv_length(res, DSTU_CIPHER_BLOCK_SIZE) ||
-        !EVP_CIPHER_meth_set_flags(res, EVP_CIPH_CFB_MODE | EVP_CIPH_NO_PADDING | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_ALWAYS_CALL_INIT) ||
+        !EVP_CIPHER_meth_set_flags(res, EVP_CIPH_CFB_MODE | EVP_CIPH_NO_PADDING | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_ALWAYS_CALL_INIT | EVP_CIPH_CTRL_INIT) ||
         !EVP_CIPHER_meth_set_init(res, dstu_cipher_init) ||
         !EVP_CIPHER_meth_set_do_cipher(res, dstu_cipher_do_cipher) ||
         !EVP_CIPHER_meth_set_cleanup(res, dstu_cipher_cleanup) ||
-- 
2.43.0


From 4b975cf9fb0cb00394b24dcc7ed9a090e01a0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:30 +0000
Subject: [PATCH 13/33] fix: start a new gamma when the cipher key is set after
 the IV

The gamma of the first incomplete block was computed without the key.
---
 engine/cipher.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 8271045..789aff3 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -35,7 +35,11 @@ static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     if (iv)
     {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
+    }
+
+    if (key || iv)
+    {
+        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
         gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
         EVP_CIPHER_CTX_set_num(ctx, 0);
     }
-- 
2.43.0


From f3a68f8e7132fac4a96bb89889071db8cba8ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:30 +0000
Subject: [PATCH 14/33] fix: setting a cipher table restarts at a block
 boundary

The IV went back to its start but the position inside the block did not.
---
 engine/cipher.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/cipher.c b/engine/cipher.c
index 789aff3..446e0cd 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -166,6 +166,7 @@ static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
             gost_init(gctx, &sbox);
             memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
             gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+            EVP_CIPHER_CTX_set_num(ctx, 0);
             return 1;
         case EVP_CTRL_PBE_PRF_NID:
             if (!p2)
-- 
2.43.0


From 049d780f924472357943c22cae725f12009aff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:30 +0000
Subject: [PATCH 15/33] fix: an explicit default sbox compares equal to no sbox

The encodings leave the default sbox out, so a key generated with it did not
compare equal to itself after encoding and decoding.
---
 engine/ameth.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index d4b74cd..117d234 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -139,16 +139,11 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
-    if (first->sbox != second->sbox)
-    {
-        if (first->sbox && second->sbox)
-        {
-            if (memcmp(first->sbox, second->sbox, sizeof(default_sbox)))
-                return 0;
-        }
-        else
-            return 0;
-    }
+    /* No sbox means the default one */
+    if (memcmp(first->sbox ? first->sbox : default_sbox,
+               second->sbox ? second->sbox : default_sbox,
+               sizeof(default_sbox)))
+        return 0;
 
     if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
                      EC_KEY_get0_group(second->ec), NULL))
-- 
2.43.0


From 11627c3a15d873b9190378f6d2df2464e9e23361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:30 +0000
Subject: [PATCH 16/33] fix: comparing a key without public part does not crash

---
 engine/ameth.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 117d234..c5f0bbc 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -631,6 +631,9 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
+    if (!EC_KEY_get0_public_key(first->ec) || !EC_KEY_get0_public_key(second->ec))
+        return -2;
+
     /* We do not compare sboxes here because it will be done in params_cmp by EVP API */
 
     if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
-- 
2.43.0


From dc11c78f4f8bbdc93ab6d717790190ebaab3ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:30 +0000
Subject: [PATCH 17/33] fix: encoding a key without private part does not leak
 the parameters

---
 engine/ameth.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index c5f0bbc..aae669b 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -294,6 +294,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     encoded_params_bytes = dstu_asn1_param_encode(pk, &encoded_params);
     if (!encoded_params_bytes)
         goto err;
+    ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
 
     key = EVP_PKEY_get0(pk);
     if (!key)
@@ -325,8 +326,6 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
 
     reverse_bytes(prk_encoded, prk_encoded_bytes);
 
-    ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
-
     if (PKCS8_pkey_set0(p8, OBJ_nid2obj(algnid), 0, V_ASN1_SEQUENCE, params,
                         prk_encoded, prk_encoded_bytes))
     {
-- 
2.43.0


From 97fc10e0b38e364a9c3968012f0aa35971403765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:03 +0000
Subject: [PATCH 18/33] fix: release the engine's methods when it is destroyed,
 not when it is finished

After the last functional reference was given back the digest and the cipher
were freed while the engine, and OpenSSL's name table, kept using them; after
the engine was freed the pointers to its public key methods dangled.
---
 engine/dstu.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/engine/dstu.c b/engine/dstu.c
index 767705f..3a7c74f 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -9,6 +9,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 #include <openssl/obj_mac.h>
+#include <openssl/objects.h>
 #include <openssl/ossl_typ.h>
 
 #include <string.h>
@@ -94,8 +95,33 @@ static int dstu_engine_init(ENGINE *e)
 static int dstu_engine_finish(ENGINE *e)
 {
     (void) e; // Unused
+    return 1;
+}
+
+/* The engine can be initialized again after dstu_engine_finish, and the digest and the cipher are known
+ * to OpenSSL by name, so they are released only when the engine goes away.
+ */
+static int dstu_engine_destroy(ENGINE *e)
+{
+    unsigned long long i = 0;
+
+    (void) e; // Unused
+    OBJ_NAME_remove(SN_dstu28147_cfb, OBJ_NAME_TYPE_CIPHER_METH);
+    OBJ_NAME_remove(LN_dstu28147_cfb, OBJ_NAME_TYPE_CIPHER_METH);
+    OBJ_NAME_remove(SN_dstu34311, OBJ_NAME_TYPE_MD_METH);
+    OBJ_NAME_remove(LN_dstu34311, OBJ_NAME_TYPE_MD_METH);
+
     dstu_cipher_free(dstu_cipher);
+    dstu_cipher = NULL;
     dstu_digest_free(dstu_md);
+    dstu_md = NULL;
+
+    /* OpenSSL has released these already */
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        dstu_pkey_methods[i] = NULL;
+        dstu_asn1_methods[i] = NULL;
+    }
 
     ERR_unload_DSTU_strings();
 
@@ -191,6 +217,7 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
         !ENGINE_set_finish_function(e, dstu_engine_finish) ||
+        !ENGINE_set_destroy_function(e, dstu_engine_destroy) ||
         !ENGINE_set_digests(e, dstu_digests) ||
         !ENGINE_set_ciphers(e, dstu_ciphers) ||
         !ENGINE_set_RAND(e, &dstu_rand_meth) ||
-- 
2.43.0


From 15143ff8b063b2eb829a60c443b074590c19dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:03 +0000
Subject: [PATCH 19/33] fix: create the public key methods when the engine is
 bound

They were created on first use without any lock, so threads using the engine
for the first time raced to create them.
---
 engine/dstu.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/engine/dstu.c b/engine/dstu.c
index 3a7c74f..7b1fa7d 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -210,9 +210,22 @@ static int dstu_asn1_meths(ENGINE *e, EVP_PKEY_ASN1_METHOD **ameth,
 
 static int dstu_bind(ENGINE *e, const char *id)
 {
+    unsigned long long i = 0;
+
     if (id && strcmp(id, engine_dstu_id))
         return 0;
 
+    /* Create all methods here, before they can be asked for by several threads at once */
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        if (!dstu_pkey_meth_get(dstu_nids[i]) ||
+            !dstu_asn1_meth_get(dstu_nids[i]))
+        {
+            DSTUerr(DSTU_F_BIND_DSTU, ERR_R_EVP_LIB);
+            return 0;
+        }
+    }
+
     if (!ENGINE_set_id(e, engine_dstu_id) ||
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
-- 
2.43.0


From af935738b04c8e3106a368214da6e10774cb7b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:03 +0000
Subject: [PATCH 20/33] fix: the random generator can be used after its
 clean-up

Clean-up freed the lock that every later request takes. The lock now lives as
long as the engine.
---
 engine/dstu.c |  3 +++
 engine/rbg.c  | 16 +++++++++++-----
 engine/rbg.h  |  3 +++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 7b1fa7d..e051ee7 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -123,6 +123,8 @@ static int dstu_engine_destroy(ENGINE *e)
         dstu_asn1_methods[i] = NULL;
     }
 
+    dstu_rbg_lock_free();
+
     ERR_unload_DSTU_strings();
 
     return 1;
@@ -233,6 +235,7 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_set_destroy_function(e, dstu_engine_destroy) ||
         !ENGINE_set_digests(e, dstu_digests) ||
         !ENGINE_set_ciphers(e, dstu_ciphers) ||
+        !dstu_rbg_lock_new() ||
         !ENGINE_set_RAND(e, &dstu_rand_meth) ||
         !ENGINE_set_pkey_meths(e, dstu_pkey_meths) ||
         !ENGINE_set_pkey_asn1_meths(e, dstu_asn1_meths) ||
diff --git a/engine/rbg.c b/engine/rbg.c
index f7912a0..d3bd568 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -18,19 +18,26 @@ static u4 s[2];
 static gost_ctx cryptor;
 static int initialized = 0;
 static CRYPTO_RWLOCK *dstu_rand_lock = NULL;
-static CRYPTO_ONCE rand_lock_init = CRYPTO_ONCE_STATIC_INIT;
 
 /* DSTU RGB needs at least 40 bytes of seed to work properly */
 #define DSTU_RGB_SEED_SIZE 40
 
-static void do_rand_lock_init(void)
+int dstu_rbg_lock_new(void)
 {
-    dstu_rand_lock = CRYPTO_THREAD_lock_new();
+    if (dstu_rand_lock == NULL)
+        dstu_rand_lock = CRYPTO_THREAD_lock_new();
+    return dstu_rand_lock != NULL;
+}
+
+void dstu_rbg_lock_free(void)
+{
+    CRYPTO_THREAD_lock_free(dstu_rand_lock);
+    dstu_rand_lock = NULL;
 }
 
 static int dstu_lock()
 {
-    if (!CRYPTO_THREAD_run_once(&rand_lock_init, do_rand_lock_init) || dstu_rand_lock == NULL)
+    if (dstu_rand_lock == NULL)
         return 0;
     return CRYPTO_THREAD_write_lock(dstu_rand_lock);
 }
@@ -159,7 +166,6 @@ static void dstu_rbg_cleanup(void)
     initialized = 0;
 
     dstu_unlock();
-    CRYPTO_THREAD_lock_free(dstu_rand_lock);
 }
 
 RAND_METHOD dstu_rand_meth =
diff --git a/engine/rbg.h b/engine/rbg.h
index 0c023c8..afb5ade 100644
--- a/engine/rbg.h
+++ b/engine/rbg.h
@@ -4,3 +4,6 @@
 #include <openssl/rand.h>
 
 extern RAND_METHOD dstu_rand_meth;
+
+int dstu_rbg_lock_new(void);
+void dstu_rbg_lock_free(void);
-- 
2.43.0


From bb465eb85f1f1e58dd6ad4fc3de980aaf6b219bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 21/33] fix: an empty cipher update succeeds

---
 engine/cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 446e0cd..5e3c0a3 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -57,10 +57,10 @@ static int dstu_cipher_do_cipher(EVP_CIPHER_CTX *ctx, unsigned char *out,
     unsigned char *buf = EVP_CIPHER_CTX_buf_noconst(ctx);
     unsigned char *iv = EVP_CIPHER_CTX_iv_noconst(ctx);
 
-    if ((!inl) && (!in))
+    if (!inl)
         return 0;
 
-    if ((!inl) || (!in))
+    if (!in)
         return -1;
 
     if (num)
-- 
2.43.0


From 2058387159fa41b35aa23276e4f2a96dc89bf83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 22/33] fix: raw signatures that start like a DER octet string
 verify

---
 engine/pmeth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 0c0592f..dac564c 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -322,6 +322,7 @@ static int dstu_pkey_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
     size_t field_size = 0;
     int ret = 0;
     unsigned char *sig_be;
+    const unsigned char *p = sig;
     ASN1_OCTET_STRING *dstu_sig = NULL;
     BIGNUM *n = NULL;
 
@@ -357,7 +358,9 @@ static int dstu_pkey_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
 
     field_size = BN_num_bytes(n);
 
-    if (d2i_ASN1_OCTET_STRING(&dstu_sig, &sig, siglen))
+    /* A raw signature may happen to start like a DER octet string */
+    if (d2i_ASN1_OCTET_STRING(&dstu_sig, &p, siglen) && (p == sig + siglen) &&
+        ((size_t) ASN1_STRING_length(dstu_sig) >= 2 * field_size))
     {
         sig = ASN1_STRING_get0_data(dstu_sig);
         siglen = ASN1_STRING_length(dstu_sig);
-- 
2.43.0


From 1683bc9e724fe6fffdcdfb199b04d4d8d7721d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:04 +0000
Subject: [PATCH 23/33] fix: signing with bogus group parameters gives up
 instead of looping forever

---
 engine/sign.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/sign.c b/engine/sign.c
index 8e8aae5..6299a8a 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -12,6 +12,9 @@
 #include <openssl/ec.h>
 #include <openssl/obj_mac.h>
 
+/* Each attempt fails with negligible probability unless group parameters are bogus */
+#define DSTU_MAX_SIGN_RETRIES 64
+
 static int bn_truncate_bits(BIGNUM *bn, int bitsize)
 {
     int num_bits = BN_num_bits(bn);
@@ -64,7 +67,7 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
     BIGNUM *e, *Fe, *h, *r, *s, *n, *p;
     BN_CTX *ctx = NULL;
     EC_POINT *eG = NULL;
-    int field_size, ret = 0;
+    int field_size, retries = 0, ret = 0;
 
     if (!d || !group)
         return 0;
@@ -114,6 +117,9 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
         {
             do
             {
+                if (retries++ >= DSTU_MAX_SIGN_RETRIES)
+                    goto err;
+
                 if (!BN_rand_range(e, n))
                     goto err;
 
-- 
2.43.0


From 5b6aee5db4f04d6479a13ff5ab8ade7d1feaa39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:19 +0000
Subject: [PATCH 24/33] fix: cipher algorithm identifiers without parameters
 are refused

---
 engine/cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 5e3c0a3..f083a7d 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -213,7 +213,7 @@ static int dstu_cipher_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *asn1_
 
 static int dstu_cipher_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *asn1_type)
 {
-    if (V_ASN1_SEQUENCE != asn1_type->type)
+    if ((NULL == asn1_type) || (V_ASN1_SEQUENCE != asn1_type->type))
         return -1;
 
     if (DSTU_CIPHER_ASN1_PARAM_SIZE != asn1_type->value.sequence->length)
-- 
2.43.0


From dac74d50db6e80e6344622b7aba40cc6038240c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:18 +0000
Subject: [PATCH 25/33] fix: reseed the random generator in a forked child

The child went on with the generator state of its parent, so that both
got the same bytes: with the engine as default RAND the two processes
sign with the same secret nonce, which gives the private key away.
---
 engine/rbg.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/engine/rbg.c b/engine/rbg.c
index d3bd568..3554211 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -12,11 +12,18 @@
 
 #include <time.h>
 #include <string.h>
+#ifndef _WIN32
+#include <sys/types.h>
+#include <unistd.h>
+#endif
 
 static u4 I[2];
 static u4 s[2];
 static gost_ctx cryptor;
 static int initialized = 0;
+#ifndef _WIN32
+static pid_t seeded_in; /* process that has seeded the generator */
+#endif
 static CRYPTO_RWLOCK *dstu_rand_lock = NULL;
 
 /* DSTU RGB needs at least 40 bytes of seed to work properly */
@@ -47,6 +54,15 @@ static int dstu_unlock()
     return CRYPTO_THREAD_unlock(dstu_rand_lock);
 }
 
+/* A child of fork() must not go on with the stream of its parent, so it gets its own seed */
+static void dstu_rbg_check_fork(void)
+{
+#ifndef _WIN32
+    if (initialized && seeded_in != getpid())
+        initialized = 0;
+#endif
+}
+
 /* We will reuse OPENSSL's default seeding logic and entropy collecting and will use its default RNG as a seeder */
 static int dstu_rbg_add(const void *buf, int num, double entropy)
 {
@@ -77,6 +93,9 @@ static int dstu_rbg_init(void)
     gost_key_nomask(&cryptor, seed);
     memcpy(s, seed + 32, 8);
     gostcrypt(&cryptor, curr, (byte*) I);
+#ifndef _WIN32
+    seeded_in = getpid();
+#endif
     initialized = 1;
 
     OPENSSL_cleanse(seed, sizeof(seed));
@@ -103,6 +122,8 @@ static int dstu_rbg_status_nolock(void)
 {
     int status = RAND_OpenSSL()->status();
 
+    dstu_rbg_check_fork();
+
     if (status && !initialized)
     {
         if (dstu_rbg_init())
@@ -136,6 +157,7 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 
     dstu_lock();
 
+    dstu_rbg_check_fork();
     if (!initialized)
     {
         if (!dstu_rbg_status_nolock())
-- 
2.43.0


From 10b88b538b0635d67f2ef32388a49380851d7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:20 +0000
Subject: [PATCH 26/33] fix: wipe private keys and passwords before releasing
 their memory

---
 engine/ameth.c |  6 +++---
 keylib/jks.c   | 34 +++++++++++++++++-----------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index aae669b..2140ccf 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -259,10 +259,10 @@ static int dstu_asn1_priv_decode(EVP_PKEY *pk, const PKCS8_PRIV_KEY_INFO *p8)
     err:
 
     if (prk)
-        BN_free(prk);
+        BN_clear_free(prk);
 
     if (bn_bytes)
-        OPENSSL_free(bn_bytes);
+        OPENSSL_clear_free(bn_bytes, prk_encoded_bytes);
 
     return res;
 }
@@ -341,7 +341,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     err:
 
     if (prk_encoded)
-        OPENSSL_free(prk_encoded);
+        OPENSSL_clear_free(prk_encoded, prk_encoded_bytes);
 
     if (params)
         ASN1_STRING_free(params);
diff --git a/keylib/jks.c b/keylib/jks.c
index 999e837..6d7f92a 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -61,7 +61,7 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t r = 0;
     if (cd == (iconv_t)-1)
     {
-        OPENSSL_free(buf);
+        OPENSSL_clear_free(buf, bufSize);
         BIO_free(res);
         return 0;
     }
@@ -77,12 +77,12 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         if (errno != E2BIG)
         {
             iconv_close(cd);
-            OPENSSL_free(buf);
+            OPENSSL_clear_free(buf, bufSize);
             BIO_free(res);
             return 0;
         }
+        buf = OPENSSL_clear_realloc(buf, bufSize, bufSize * 2);
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
     }
     for (;;)
     {
@@ -96,14 +96,14 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         if (errno != E2BIG)
         {
             iconv_close(cd);
-            OPENSSL_free(buf);
+            OPENSSL_clear_free(buf, bufSize);
             BIO_free(res);
             return 0;
         }
+        buf = OPENSSL_clear_realloc(buf, bufSize, bufSize * 2);
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
     }
-    OPENSSL_free(buf);
+    OPENSSL_clear_free(buf, bufSize);
     iconv_close(cd);
     *dsize = BIO_get_mem_data(res, &d);
     if (d == NULL || *dsize == 0)
@@ -206,7 +206,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     {
         if (!twoHash(pwd16, pwd16Length, digest, digestLength, digest))
         {
-            OPENSSL_free(decrypted);
+            OPENSSL_clear_free(decrypted, encryptedLength);
             return 0;
         }
         for (j = 0; j < digestLength; ++j)
@@ -220,14 +220,14 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 
     if (!twoHash(pwd16, pwd16Length, decrypted, encryptedLength, digest))
     {
-        OPENSSL_free(decrypted);
+        OPENSSL_clear_free(decrypted, encryptedLength);
         return 0;
     }
 
     for (j = 0; j < digestLength; ++j)
         if (digest[j] != check[j])
         {
-            OPENSSL_free(decrypted);
+            OPENSSL_clear_free(decrypted, encryptedLength);
             return 0;
         }
 
@@ -246,7 +246,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 
     KeyStoreFree(tks);
 
-    OPENSSL_free(decrypted);
+    OPENSSL_clear_free(decrypted, encryptedLength);
     return r;
 }
 
@@ -280,7 +280,7 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     epkInfo = d2i_X509_SIG(NULL, &dataPtr, dataSize);
     if (epkInfo == NULL)
     {
-        OPENSSL_free(pwd16);
+        OPENSSL_clear_free(pwd16, pwd16Length);
         return 0;
     }
 
@@ -296,7 +296,7 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
             ASN1_OBJECT_free(pbes1);
             ASN1_OBJECT_free(keyProtector);
             X509_SIG_free(epkInfo);
-            OPENSSL_free(pwd16);
+            OPENSSL_clear_free(pwd16, pwd16Length);
             return 0;
         }
     }
@@ -307,14 +307,14 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
             ASN1_OBJECT_free(pbes1);
             ASN1_OBJECT_free(keyProtector);
             X509_SIG_free(epkInfo);
-            OPENSSL_free(pwd16);
+            OPENSSL_clear_free(pwd16, pwd16Length);
             return 0;
         }
     }
 
     ASN1_OBJECT_free(pbes1);
     ASN1_OBJECT_free(keyProtector);
-    OPENSSL_free(pwd16);
+    OPENSSL_clear_free(pwd16, pwd16Length);
     X509_SIG_free(epkInfo);
 
     return 1;
@@ -426,17 +426,17 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     if (entryPtr == NULL || bytesLeft(entryPtr, end) < digestLength)
     {
         KeyStoreFree(res);
-        OPENSSL_free(pwd16);
+        OPENSSL_clear_free(pwd16, pwd16Length);
         return 0;
     }
 
     if (whiteHash(pwd16, pwd16Length, data, entryPtr - (const unsigned char*)data, digest) == 0)
     {
         KeyStoreFree(res);
-        OPENSSL_free(pwd16);
+        OPENSSL_clear_free(pwd16, pwd16Length);
         return 0;
     }
-    OPENSSL_free(pwd16);
+    OPENSSL_clear_free(pwd16, pwd16Length);
 
     for (j = 0; j < digestLength; ++j)
         if (digest[j] != entryPtr[j])
-- 
2.43.0


From ae768d730c7f74483a39e1005a920702b04159b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:52 +0000
Subject: [PATCH 27/33] fix: printing a key that has no components no longer
 dereferences NULL

---
 engine/ameth.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 2140ccf..4e2a0f2 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -161,6 +161,12 @@ static int dstu_asn1_param_print(BIO *out, const EVP_PKEY *pkey, int indent,
 
     (void) pctx; // Unused
 
+    if (!dstu_key)
+    {
+        DSTUerr(DSTU_F_DSTU_ASN1_PARAM_PRINT, DSTU_R_NOT_DSTU_KEY);
+        return 0;
+    }
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
     {
@@ -693,6 +699,9 @@ static int dstu_asn1_priv_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
         return 0;
@@ -711,6 +720,9 @@ static int dstu_asn1_pub_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
         return 0;
-- 
2.43.0


From eb4a7849aaa3a8dae965f0b82f70f1709c677bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 28/33] fix: point decompression no longer goes on with a trace
 it could not compute

When memory ran out, bn_trace used a NULL BIGNUM, and its error result -1 was
taken for a trace bit, so that a wrong point was returned as the result.
---
 dstulib/compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index 440648e..711fc34 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -20,7 +20,7 @@ static int bn_trace(const BIGNUM *bn, const BIGNUM *p, BN_CTX *ctx)
 
     r = BN_CTX_get(ctx);
 
-    if (!BN_copy(r, bn))
+    if (!r || !BN_copy(r, bn))
         goto err;
     for (i = 1; i <= (BN_num_bits(p) - 2); i++)
     {
@@ -195,6 +195,8 @@ int dstu_point_expand(const unsigned char *compressed, int compressed_length,
         goto err;
 
     trace = bn_trace(y, p, ctx);
+    if (-1 == trace)
+        goto err;
 
     if ((k && !trace) || (!k && trace))
     {
-- 
2.43.0


From a99b52a8c637cce00d62e9bdc648f0e98db80302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 29/33] fix: check for failed allocations when a key is set up

---
 dstulib/key.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dstulib/key.c b/dstulib/key.c
index cc55780..686b80f 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -79,6 +79,8 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
         return NULL;
 
     params = DSTU_AlgorithmParameters_new();
+    if (!params)
+        return NULL;
 
     if (key->sbox)
     {
@@ -108,6 +110,8 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
             goto err;
 
         ctx = BN_CTX_new();
+        if (!ctx)
+            goto err;
         BN_CTX_start(ctx);
 
         p = BN_CTX_get(ctx);
-- 
2.43.0


From b5942562cf660eaab63d154ebcc39fa420af5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 30/33] fix: do not encode a private key without its parameters
 when encoding them fails

---
 engine/ameth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 4e2a0f2..4683685 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -298,7 +298,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     }
 
     encoded_params_bytes = dstu_asn1_param_encode(pk, &encoded_params);
-    if (!encoded_params_bytes)
+    if (encoded_params_bytes <= 0)
         goto err;
     ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
 
-- 
2.43.0


From 9b0317942e36907b78fdea996d947ef3bb74d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 31/33] fix: keystore reports failed allocations instead of
 using NULL

---
 keylib/keystore.c          | 29 +++++++++++++++++++++++++----
 keylib/keystore_internal.h |  2 +-
 keylib/pkcs12.c            |  2 +-
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/keylib/keystore.c b/keylib/keystore.c
index 108ac2b..9b4b269 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -16,11 +16,18 @@ struct KeyStore_st
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
 {
     size_t i = 0;
-    KeyStore* res = OPENSSL_malloc(sizeof(KeyStore));
+    KeyStore* res = OPENSSL_zalloc(sizeof(KeyStore));
+    if (res == NULL)
+        return NULL;
     if (keyNum > 0)
     {
         res->keyNum = keyNum;
         res->keys = OPENSSL_malloc(keyNum * sizeof(EVP_PKEY*));
+        if (res->keys == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
         for (i = 0; i < keyNum; ++i)
             res->keys[i] = NULL;
     }
@@ -33,6 +40,11 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     {
         res->certNum = certNum;
         res->certs = OPENSSL_malloc(certNum * sizeof(X509*));
+        if (res->certs == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
         for (i = 0; i < certNum; ++i)
             res->certs[i] = NULL;
     }
@@ -44,12 +56,17 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     return res;
 }
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from)
+int KeyStoreAppend(KeyStore* to, KeyStore* from)
 {
     size_t i = 0;
+    EVP_PKEY** keys = NULL;
+    X509** certs = NULL;
     if (from->keyNum > 0)
     {
-        to->keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        if (keys == NULL)
+            return 0;
+        to->keys = keys;
         for (i = 0; i < from->keyNum; ++i)
         {
             to->keys[to->keyNum + i] = from->keys[i];
@@ -59,7 +76,10 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
     }
     if (from->certNum > 0)
     {
-        to->certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        if (certs == NULL)
+            return 0;
+        to->certs = certs;
         for (i = 0; i < from->certNum; ++i)
         {
             to->certs[to->certNum + i] = from->certs[i];
@@ -67,6 +87,7 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
         }
         to->certNum += from->certNum;
     }
+    return 1;
 }
 
 void KeyStoreFree(KeyStore* ks)
diff --git a/keylib/keystore_internal.h b/keylib/keystore_internal.h
index 7c20726..146edfa 100644
--- a/keylib/keystore_internal.h
+++ b/keylib/keystore_internal.h
@@ -8,7 +8,7 @@ extern "C" {
 
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum);
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from);
+int KeyStoreAppend(KeyStore* to, KeyStore* from);
 
 void KeyStoreSetKey(KeyStore* ks, size_t pos, EVP_PKEY* key);
 void KeyStoreSetCert(KeyStore* ks, size_t pos, X509* cert);
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index a450b1b..15b8572 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -201,7 +201,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
 
     res = KeyStoreNew(numKeys, numCerts);
 
-    if (fromSafes(safes, password, passSize, res, &keyPos, &certPos) == 0)
+    if (res == NULL || fromSafes(safes, password, passSize, res, &keyPos, &certPos) == 0)
     {
         KeyStoreFree(res);
         sk_PKCS7_pop_free(safes, PKCS7_free);
-- 
2.43.0


From 0495fcadd394e31c40f813467d9b6dc3bbd64f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 32/33] fix: check for failed allocations when reading key
 containers

---
 keylib/jks.c   | 88 ++++++++++++++++++++++++++++++++++++++++++++------
 keylib/key6.c  |  8 ++++-
 keylib/utils.c | 41 ++++++++++++++++++-----
 3 files changed, 118 insertions(+), 19 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 6d7f92a..63e84bb 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -59,19 +59,32 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     const char* s = source;
     iconv_t cd = iconv_open("utf-16be", "utf-8");
     size_t r = 0;
+    char* t = NULL;
     if (cd == (iconv_t)-1)
     {
         OPENSSL_clear_free(buf, bufSize);
         BIO_free(res);
         return 0;
     }
+    if (res == NULL || (buf == NULL && size > 0))
+    {
+        iconv_close(cd);
+        OPENSSL_clear_free(buf, bufSize);
+        BIO_free(res);
+        return 0;
+    }
     while (ss > 0)
     {
         d = buf;
         ds = bufSize;
         r = iconv(cd, (char**)&s, &ss, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+        {
+            iconv_close(cd);
+            OPENSSL_clear_free(buf, bufSize);
+            BIO_free(res);
+            return 0;
+        }
         if (r != (size_t)-1)
             break;
         if (errno != E2BIG)
@@ -81,7 +94,15 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             BIO_free(res);
             return 0;
         }
-        buf = OPENSSL_clear_realloc(buf, bufSize, bufSize * 2);
+        t = OPENSSL_clear_realloc(buf, bufSize, bufSize * 2);
+        if (t == NULL)
+        {
+            iconv_close(cd);
+            OPENSSL_clear_free(buf, bufSize);
+            BIO_free(res);
+            return 0;
+        }
+        buf = t;
         bufSize *= 2;
     }
     for (;;)
@@ -89,8 +110,13 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         d = buf;
         ds = bufSize;
         r = iconv(cd, NULL, NULL, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+        {
+            iconv_close(cd);
+            OPENSSL_clear_free(buf, bufSize);
+            BIO_free(res);
+            return 0;
+        }
         if (r != (size_t)-1)
             break;
         if (errno != E2BIG)
@@ -100,7 +126,15 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             BIO_free(res);
             return 0;
         }
-        buf = OPENSSL_clear_realloc(buf, bufSize, bufSize * 2);
+        t = OPENSSL_clear_realloc(buf, bufSize, bufSize * 2);
+        if (t == NULL)
+        {
+            iconv_close(cd);
+            OPENSSL_clear_free(buf, bufSize);
+            BIO_free(res);
+            return 0;
+        }
+        buf = t;
         bufSize *= 2;
     }
     OPENSSL_clear_free(buf, bufSize);
@@ -112,6 +146,11 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         return 0;
     }
     *dest = OPENSSL_malloc(*dsize);
+    if (*dest == NULL)
+    {
+        BIO_free(res);
+        return 0;
+    }
     memcpy(*dest, d, *dsize);
     BIO_free(res);
     return 1;
@@ -121,7 +160,8 @@ static int twoHash(const void* d1, size_t ds1, const void* d2, size_t ds2, void*
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
              EVP_DigestFinal_ex(ctx, digest, &ds) != 0;
@@ -133,7 +173,8 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, "Mighty Aphrodite", 16) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
@@ -170,8 +211,18 @@ static const void* parseCert(const void* data, const void* end, KeyStore* ks, si
 
     KeyStore* tks = KeyStoreNew(0, 1);
 
+    if (tks == NULL)
+    {
+        X509_free(x509);
+        return NULL;
+    }
+
     KeyStoreSetCert(tks, 0, x509);
-    KeyStoreAppend(ks, tks);
+    if (KeyStoreAppend(ks, tks) == 0)
+    {
+        KeyStoreFree(tks);
+        return NULL;
+    }
 
     KeyStoreFree(tks);
 
@@ -202,6 +253,8 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
+    if (decrypted == NULL)
+        return 0;
     for (i = 0; i < rounds; ++i)
     {
         if (!twoHash(pwd16, pwd16Length, digest, digestLength, digest))
@@ -235,9 +288,11 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 
     r = keysFromPKCS8(decrypted, encryptedLength, &tks);
 
+    if (r != 0)
+        r = KeyStoreAppend(ks, tks);
+
     if (r != 0)
     {
-        KeyStoreAppend(ks, tks);
         if (keyPos != NULL)
             *keyPos += KeyStoreKeyNum(tks);
         if (certPos != NULL)
@@ -288,6 +343,14 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     X509_ALGOR_get0(&aobj, NULL, NULL, algo);
     keyProtector = OBJ_txt2obj(keyProtectorOID, 1);
     pbes1 = OBJ_txt2obj(pbes1OID, 1);
+    if (keyProtector == NULL || pbes1 == NULL)
+    {
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_clear_free(pwd16, pwd16Length);
+        return 0;
+    }
 
     if (OBJ_cmp(aobj, keyProtector) == 0)
     {
@@ -415,6 +478,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         return 0;
 
     res = KeyStoreNew(0, 0); // Start from zero
+    if (res == NULL)
+    {
+        OPENSSL_clear_free(pwd16, pwd16Length);
+        return 0;
+    }
 
     for (i = 0; i < entries; ++i)
     {
diff --git a/keylib/key6.c b/keylib/key6.c
index 35056b8..c4ad6a8 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -55,6 +55,12 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
 
     source = OPENSSL_malloc(sourceSize);
     res = OPENSSL_malloc(resSize);
+    if (source == NULL || res == NULL)
+    {
+        OPENSSL_free(source);
+        OPENSSL_free(res);
+        return 0;
+    }
 
     unpack_sbox(default_sbox, &sbox);
     gost_init(&ctx, &sbox);
@@ -88,7 +94,7 @@ int parseKey6(const void* data, size_t size, const char* password, size_t passSi
     }
     // Type check
     correctType = OBJ_txt2obj(iitStoreOID, 1);
-    if (OBJ_cmp(store->header->type, correctType) != 0)
+    if (correctType == NULL || OBJ_cmp(store->header->type, correctType) != 0)
     {
         ASN1_OBJECT_free(correctType);
         IITStore_free(store);
diff --git a/keylib/utils.c b/keylib/utils.c
index 2a5e2b6..8e635e0 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -51,6 +51,8 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     length = ASN1_STRING_length(str);
     data = ASN1_STRING_get0_data(str);
     buf = OPENSSL_malloc(length);
+    if (buf == NULL)
+        return NULL;
     for (i = 0; i < length; ++i)
     {
         // Swap bits
@@ -62,7 +64,9 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
         buf[length - i - 1] = b;
     }
 
-    res = BN_bin2bn(buf,length, BN_CTX_get(ctx));
+    res = BN_CTX_get(ctx);
+    if (res != NULL)
+        res = BN_bin2bn(buf, length, res);
 
     OPENSSL_clear_free(buf, length);
 
@@ -96,7 +100,7 @@ static BIGNUM* makePoly(BN_CTX* ctx, const DSTU_BinaryField* field)
     for (i = 1; i < (field->poly->type == 0 ? 2 : 4); ++i)
         if (poly[i] <= 0 || poly[i] >= poly[0])
             return NULL;
-    if (BN_GF2m_arr2poly(poly, res) == 0)
+    if (res == NULL || BN_GF2m_arr2poly(poly, res) == 0)
         return NULL;
     return res;
 }
@@ -105,7 +109,7 @@ static EC_POINT* makePoint(BN_CTX* ctx, const EC_GROUP* group, const ASN1_OCTET_
 {
     (void) ctx;
     EC_POINT* res = EC_POINT_new(group);
-    if (dstu_point_expand(ASN1_STRING_get0_data(p), ASN1_STRING_length(p), group, res) == 0)
+    if (res == NULL || dstu_point_expand(ASN1_STRING_get0_data(p), ASN1_STRING_length(p), group, res) == 0)
     {
         EC_POINT_free(res);
         return NULL;
@@ -117,15 +121,19 @@ static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* sp
 {
     BIGNUM* poly = makePoly(ctx, spec->field);
     BIGNUM* a = BN_CTX_get(ctx);
-    BIGNUM* b = BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), BN_CTX_get(ctx));
+    BIGNUM* b = BN_CTX_get(ctx);
     BIGNUM* n = BN_CTX_get(ctx);
     EC_POINT* point = NULL;
     EC_GROUP* res = NULL;
 
-    if (poly == NULL)
+    if (poly == NULL || a == NULL || b == NULL || n == NULL)
         return NULL;
 
-    ASN1_INTEGER_to_BN(spec->a, a);
+    if (BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), b) == NULL)
+        return NULL;
+
+    if (ASN1_INTEGER_to_BN(spec->a, a) == NULL)
+        return NULL;
 
     res = EC_GROUP_new_curve_GF2m(poly, a, b, ctx);
 
@@ -144,8 +152,8 @@ static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* sp
         EC_GROUP_free(res);
         return NULL;
     }
-    ASN1_INTEGER_to_BN(spec->n, n);
-    if (EC_GROUP_set_generator(res, point, n, BN_value_one()) == 0)
+    if (ASN1_INTEGER_to_BN(spec->n, n) == NULL ||
+        EC_GROUP_set_generator(res, point, n, BN_value_one()) == 0)
     {
         EC_GROUP_free(res);
         res = NULL;
@@ -187,6 +195,9 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     DSTU_KEY* key = NULL;
     EVP_PKEY* res = NULL;
 
+    if (ctx == NULL)
+        return NULL;
+
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
@@ -249,6 +260,9 @@ static EVP_PKEY* pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8)
     int nattr = sk_X509_ATTRIBUTE_num(attributes);
     int i = 0;
 
+    if (dstu4145Curve == NULL || dstu4145Key == NULL)
+        nattr = 0;
+
     for (i = 0; i < nattr; ++i)
     {
         attr = sk_X509_ATTRIBUTE_value(attributes, i);
@@ -295,11 +309,22 @@ int keysFromPKCS8(const void* data, size_t size, KeyStore** ks)
     if (pkey2 == NULL)
     {
         *ks = KeyStoreNew(1, 0);
+        if (*ks == NULL)
+        {
+            EVP_PKEY_free(pkey1);
+            return 0;
+        }
         KeyStoreSetKey(*ks, 0, pkey1);
         return 1;
     }
 
     *ks = KeyStoreNew(2, 0);
+    if (*ks == NULL)
+    {
+        EVP_PKEY_free(pkey1);
+        EVP_PKEY_free(pkey2);
+        return 0;
+    }
     KeyStoreSetKey(*ks, 0, pkey1);
     KeyStoreSetKey(*ks, 1, pkey2);
 
-- 
2.43.0


From 67a2cd557f54290010e36ec91edbf185124ebc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:08 +0000
Subject: [PATCH 33/33] fix: report failure when the algorithms of a signer
 cannot be set

When memory runs out in X509_ALGOR_set0 the control reported success, and
CMS_sign and PKCS7_sign returned a message without the signature algorithm,
which nobody can verify.
---
 engine/ameth.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 4683685..27d6708 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -660,11 +660,13 @@ static int dstu_asn1_pkey_ctrl(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 int nid = EVP_PKEY_base_id(pkey);
                 PKCS7_SIGNER_INFO_get0_algs((PKCS7_SIGNER_INFO *)arg2,
                                             NULL, &alg1, &alg2);
-                X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
-                                V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
+                                     V_ASN1_NULL, 0))
+                    return 0;
                 if (nid == NID_undef)
                     return (-1);
-                X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                    return 0;
             }
             return 1;
 #ifndef OPENSSL_NO_CMS
@@ -675,11 +677,13 @@ static int dstu_asn1_pkey_ctrl(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 int nid = EVP_PKEY_base_id(pkey);
                 CMS_SignerInfo_get0_algs((CMS_SignerInfo *)arg2,
                                          NULL, NULL, &alg1, &alg2);
-                X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
-                                V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
+                                     V_ASN1_NULL, 0))
+                    return 0;
                 if (nid == NID_undef)
                     return -1;
-                X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                    return 0;
             }
             return 1;
 #endif
-- 
2.43.0

