From 18531c3c43c054a4602713492af0f02e747b35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 01/23] fix: reject key records whose h= names no supported
 hash algorithm

Unknown algorithms are ignored, which left an empty list, and an empty
list is taken as "all algorithms allowed".
---
 src/PublicKey.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 96af961..928c216 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -85,6 +85,9 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "sha1")
 				m_digestAlgorithms.push_back(DKIM_A_SHA1);
 		}
+		// an empty list means "no restriction"
+		if (m_digestAlgorithms.empty())
+			throw DKIM::PermanentError("No supported hash algorithm in key (h)");
 	}
 
 	// Key type
-- 
2.43.0


From 8781d915273cbd0f97ac209c8ece2396312c6b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 02/23] fix: reject key records whose s= does not cover email

---
 src/PublicKey.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 928c216..243649f 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -158,18 +158,25 @@ void PublicKey::Parse(const std::string& signature)
 		if (s.GetValue().empty())
 			throw DKIM::PermanentError("Service type is empty (s)");
 
+		bool forEmail = false;
 		std::list<std::string> type = DKIM::Tokenizer::ValueList(s.GetValue());
 		for (std::list<std::string>::const_iterator a = type.begin();
 				a != type.end(); ++a)
 		{
 			if (*a == "email")
+			{
 				m_serviceType.push_back(DKIM_S_EMAIL);
+				forEmail = true;
+			}
 			else if (*a == "*")
 			{
 				m_serviceType.clear();
+				forEmail = true;
 				break;
 			}
 		}
+		if (!forEmail)
+			throw DKIM::PermanentError("Key is not intended for email (s)");
 	}
 
 	// Flags
-- 
2.43.0


From 3195cf4d3a5a35bdda6e47723abb96690e9570d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 03/23] fix: accept only decimal digits as body length (l=)

---
 src/Signature.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index fed6983..6306a30 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -252,6 +252,10 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		if (l.GetValue().size() > 76)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
 
+		// strtoul() accepts white space and signs
+		if (l.GetValue().empty() || l.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid body signed length; failed numeric parsing (l)");
+
 		char* ptr;
 		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
 		if (errno == ERANGE)
-- 
2.43.0


From 11924f52d52aff899675be748d071d267b84172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 04/23] fix: do not reject a valid l= because of an errno left
 by an earlier call

---
 src/Signature.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 6306a30..ff18e87 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -257,6 +257,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 			throw DKIM::PermanentError("Invalid body signed length; failed numeric parsing (l)");
 
 		char* ptr;
+		errno = 0;
 		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
 		if (errno == ERANGE)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size of unsigned long (l)");
-- 
2.43.0


From de8b8e2fea168e66509c7f85abb1df59b1b63c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 05/23] fix: state the key type of each additional signature in
 its a= tag

---
 src/Signatory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 9e59350..64b261b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -144,10 +144,10 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
 		if (arcInstance)
-			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 		else
-			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 
 		time_t timestamp = -1;
-- 
2.43.0


From 20dfabb8841e40533573448a166dbc7b15a0b018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 06/23] fix: refuse to sign with a missing ED25519 key instead
 of reading past it

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 64b261b..f1c488b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -236,6 +236,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				if (signature.GetED25519PrivateKey().size() != crypto_sign_SECRETKEYBYTES)
+					throw DKIM::PermanentError("No ED25519 key provided");
+
 				unsigned char sig[crypto_sign_BYTES];
 				if (crypto_sign_detached(sig,
 							nullptr,
-- 
2.43.0


From 4fbf5d99b1451ec98b52d47d3dd2fd1dbc4fb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 07/23] fix: check key and signature sizes before verifying

ED25519 verification reads exactly 64 octets of signature and 32 of key;
a shorter b= made it read past the end of the string.
---
 src/Validatory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5181e58..c051fb9 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -260,6 +260,9 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	{
 		case DKIM::DKIM_SA_RSA:
 		{
+			if (!pub.GetRSAPublicKey())
+				throw DKIM::PermanentError("No RSA key provided");
+
 			int r = RSA_verify(md_nid,
 						md,
 						md_len,
@@ -271,6 +274,10 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 		}
 		break;
 		case DKIM::DKIM_SA_ED25519:
+			if (pub.GetED25519PublicKey().size() != crypto_sign_PUBLICKEYBYTES)
+				throw DKIM::PermanentError("No ED25519 key provided");
+			if (sig.GetSignatureData().size() != crypto_sign_BYTES)
+				throw DKIM::PermanentError("Signature did not verify", AR_FAIL);
 			if (crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
 						md,
 						md_len,
-- 
2.43.0


From 950705396881c2ff38a155ba898a71a33a7f8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 08/23] fix: do not emit a second i= tag in ARC signatures

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index f1c488b..c614b85 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -171,7 +171,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
 		std::string identity;
-		if (!options.GetIdentity().empty())
+		if (!arcInstance && !options.GetIdentity().empty())
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
 
 		dkimHeader += "\td=" + signature.GetDomain() + "; s=" + signature.GetSelector() + identity + limit + ";\r\n";
-- 
2.43.0


From f9eb2cfae49c9323e1f1d08bd8d697a3f454331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 09/23] fix: parse the message only once when signing it
 repeatedly

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index c614b85..ddb0bd7 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -54,7 +54,7 @@ Signatory::~Signatory()
 
 std::string Signatory::CreateSignature(const SignatoryOptions& options)
 {
-	while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }
+	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
-- 
2.43.0


From d7adf70dea5733c9ab34e2dad80c3acd6d818f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 10/23] fix: never hash the signature being verified as one of
 its signed headers

---
 src/Validatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index c051fb9..0b78a99 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -209,6 +209,9 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	std::map<std::string, Message::HeaderList> headerCache;
 	for (const auto & hIter : m_msg.GetHeaders())
 	{
+		// the signature itself is never one of the signed headers
+		if (hIter == header)
+			continue;
 		std::string headerName = hIter->GetName();
 		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
 		headerCache[headerName].push_back(hIter);
-- 
2.43.0


From 377b9bac072cf5b5630e455f4ddabd6cd88e4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 11/23] fix: do not sign headers whose name can not be written
 in h=

---
 src/Signatory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index ddb0bd7..817144a 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -120,7 +120,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	{
 		std::string name = (*h)->GetName();
 		transform(name.begin(), name.end(), name.begin(), tolower);
-		if (!name.empty())
+		// names that can not be written in the h= tag can not be signed
+		if (!name.empty() && std::find_if(name.begin(), name.end(),
+				[] (char c) { return c < 0x21 || c > 0x7e || c == ';'; }) == name.end())
 		{
 			if (!signAll && headersToSign.find(name) == headersToSign.end())
 				continue;
-- 
2.43.0


From a70945c32fffae28187931ab968934a36eff95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 12/23] fix: remove the white space around the b= value when
 verifying

---
 src/Validatory.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 0b78a99..a8beb6a 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -246,7 +246,13 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	DKIM::TagListEntry bTag;
 	sig.GetTag("b", bTag);
-	v.erase((int)bTag.GetValueOffset(), bTag.GetValue().size());
+	// the white space around the value is removed too (RFC 6376, 3.7)
+	size_t bPos = (size_t)bTag.GetValueOffset();
+	size_t bEnd = v.find_first_not_of(" \t\r\n", bPos + bTag.GetValue().size());
+	if (bEnd == std::string::npos)
+		bEnd = v.size();
+	size_t bBegin = v.find_last_not_of(" \t\r\n", bPos - 1) + 1;
+	v.erase(bBegin, bEnd - bBegin);
 
 	std::string tmp = canonicalhead.FilterHeader(h + v);
 #ifdef DEBUG
-- 
2.43.0


From d8a8e6a3158a28becbb92c507ed5c8b4f54c5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 13/23] fix: make the key owning classes uncopyable

The implicit copies freed the same key twice, and a copy assigned
SignatoryOptions kept pointing into the other object.
---
 src/PublicKey.hpp        | 1 +
 src/SignatoryOptions.cpp | 4 ++--
 src/SignatoryOptions.hpp | 4 ++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/PublicKey.hpp b/src/PublicKey.hpp
index b26d0a2..2d51d1f 100644
--- a/src/PublicKey.hpp
+++ b/src/PublicKey.hpp
@@ -75,6 +75,7 @@ namespace DKIM {
 			}
 		private:
 			PublicKey(const PublicKey&);
+			PublicKey& operator=(const PublicKey&);
 
 			TagList m_tagList;
 
diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index a07ef08..078682c 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -27,7 +27,7 @@ using DKIM::AdditionalSignaturesOptions;
 
 SignatoryOptions::SignatoryOptions()
 {
-	m_signatures.push_front(AdditionalSignaturesOptions());
+	m_signatures.emplace_front();
 	auto & f = m_signatures.front();
 	m_privateKeyRSA = &f.m_privateKeyRSA;
 	m_privateKeyRSAFree = &f.m_privateKeyRSAFree;
@@ -269,7 +269,7 @@ SignatoryOptions& SignatoryOptions::SetIdentity(const std::string& identity)
 
 AdditionalSignaturesOptions& SignatoryOptions::AddAdditionalSignature()
 {
-	m_signatures.push_back(AdditionalSignaturesOptions());
+	m_signatures.emplace_back();
 	return m_signatures.back();
 }
 
diff --git a/src/SignatoryOptions.hpp b/src/SignatoryOptions.hpp
index 5e1b1dc..f1efbb4 100644
--- a/src/SignatoryOptions.hpp
+++ b/src/SignatoryOptions.hpp
@@ -66,6 +66,9 @@ namespace DKIM
 
 			std::string m_domain;
 			std::string m_selector;
+		private:
+			AdditionalSignaturesOptions(const AdditionalSignaturesOptions&);
+			AdditionalSignaturesOptions& operator=(const AdditionalSignaturesOptions&);
 	};
 	class SignatoryOptions
 	{
@@ -134,6 +137,7 @@ namespace DKIM
 			{ return m_identity; }
 		private:
 			SignatoryOptions(const SignatoryOptions&);
+			SignatoryOptions& operator=(const SignatoryOptions&);
 
 			RSA** m_privateKeyRSA;
 			bool* m_privateKeyRSAFree;
-- 
2.43.0


From b19ed18a5103d6676cdd272a6b593240aba8a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 14/23] fix: release a replaced private key and own the newly
 loaded one

---
 src/SignatoryOptions.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 078682c..f527de9 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -115,7 +115,10 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
+				if (*m_privateKeyRSAFree)
+					RSA_free(*m_privateKeyRSA);
 				*m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				*m_privateKeyRSAFree = true;
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -124,7 +127,10 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
+				if (*m_privateKeyRSAFree)
+					RSA_free(*m_privateKeyRSA);
 				*m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				*m_privateKeyRSAFree = true;
 				if (!*m_privateKeyRSA)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
 			}
@@ -161,6 +167,8 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 SignatoryOptions& SignatoryOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (*m_privateKeyRSAFree && *m_privateKeyRSA != privatekey)
+		RSA_free(*m_privateKeyRSA);
 	*m_privateKeyRSA = privatekey;
 	*m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -288,6 +296,8 @@ AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 
 AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (m_privateKeyRSAFree && m_privateKeyRSA != privatekey)
+		RSA_free(m_privateKeyRSA);
 	m_privateKeyRSA = privatekey;
 	m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -345,7 +355,10 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
+				if (m_privateKeyRSAFree)
+					RSA_free(m_privateKeyRSA);
 				m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				m_privateKeyRSAFree = true;
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -354,7 +367,10 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
+				if (m_privateKeyRSAFree)
+					RSA_free(m_privateKeyRSA);
 				m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				m_privateKeyRSAFree = true;
 				if (!m_privateKeyRSA)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
 			}
-- 
2.43.0


From 25ba7ba623689d8213586942209bff7877cd9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 15/23] fix: do not take octet 0xFF for the end of a quoted
 string

---
 src/Tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 9aea7d7..4ff0cb3 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -198,7 +198,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			while (true)
 			{
-				char c = (char)data.get();
+				int c = data.get();
 
 				if (c == EOF) {
 					throw DKIM::PermanentError("unclosed string");
@@ -212,7 +212,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 				} else if (c == '"') {
 					break;
 				} else {
-					token += c;
+					token += (char)c;
 				}
 			}
 			return TOK_QUOTED;
-- 
2.43.0


From 3a3f9fc9bbf87c1415ebbcd10e4258e2c1c18ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 16/23] fix: honour consecutive escapes in address comments

---
 src/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 4ff0cb3..ccde972 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -235,6 +235,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 					//if (data.peek() != ')' && data.peek() != '(')
 					//	throw DKIM::PermanentError("unclosed comment");
 					token += (char)data.get();
+					continue;
 				}
 				if (data.peek() == '(')
 					++depth;
-- 
2.43.0


From a4b63af016da76c6adee245989c85254c04c0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 17/23] fix: do not leak a digest context if the header can not
 be canonicalized

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 817144a..a48a409 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -195,9 +195,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		dkimHeader += "\tbh=" + Base64_Encode(bh) + ";\r\n";
 		dkimHeader += "\tb=";
 
+		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_MD_CTX* evpmdhead2 = EVP_MD_CTX_new();
 		EVP_MD_CTX_copy(evpmdhead2, evpmdhead.get());
-		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_DigestUpdate(evpmdhead2, tmp2.c_str(), tmp2.size());
 		EVP_DigestFinal_ex(evpmdhead2, md, &md_len);
 		EVP_MD_CTX_free(evpmdhead2);
-- 
2.43.0


From b119e579dc606227d666a8cd49d7f19dd7b96e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 18/23] fix: ignore letter case when removing headers to sign

---
 src/SignatoryOptions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index f527de9..d8192fb 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -21,6 +21,7 @@
 #include "SignatoryOptions.hpp"
 #include "Util.hpp"
 #include <sodium.h>
+#include <strings.h>
 
 using DKIM::SignatoryOptions;
 using DKIM::AdditionalSignaturesOptions;
@@ -219,7 +220,9 @@ SignatoryOptions& SignatoryOptions::AddHeaders(const std::list<std::string>& hea
 SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& headers)
 {
 	for (const auto & header : headers)
-		m_headers.remove(header);
+		m_headers.remove_if([&header] (const std::string& name) {
+			return strcasecmp(name.c_str(), header.c_str()) == 0;
+		});
 	return *this;
 }
 
-- 
2.43.0


From ed3c9e4c93b0b10449bcc80f181740ec8e19012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 19/23] fix: let --arcinstance take its argument

---
 tools/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index d83a2f7..5cec2d7 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -71,7 +71,7 @@ int main(int argc, char* argv[])
 	// longopts
 	static struct option longopts[] = {
 		{ "arc",	 	no_argument,		nullptr,		'a'	},
-		{ "arcinstance",no_argument,		nullptr,		'A'	},
+		{ "arcinstance",required_argument,	nullptr,		'A'	},
 		{ "help",		no_argument,		nullptr,		'h'	},
 		{ "validate",	no_argument,		nullptr,		'v'	},
 		{ "selector",	required_argument,	nullptr,		's'	},
-- 
2.43.0


From 52582e023ce7a68a48bfde14e2146dd5820b4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 20/23] fix: fail when the message to sign can not be opened

---
 tools/src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 5cec2d7..ff486be 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -141,6 +141,10 @@ int main(int argc, char* argv[])
 				std::istreambuf_iterator<char>());
 
 		std::ifstream fp(argv[0]);
+		if (!fp) {
+			fprintf(stderr, "message %s could not be open\n", argv[0]);
+			return 1;
+		}
 		try {
 			printf("%s\r\n",
 					Signatory(fp).CreateSignature(
-- 
2.43.0


From 6ebc20c75a56d2974f4aeff662fb9ab8dcc1fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 21/23] fix: reject tag names that start with an underscore

---
 src/TagList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TagList.cpp b/src/TagList.cpp
index 6cf2792..431f09c 100644
--- a/src/TagList.cpp
+++ b/src/TagList.cpp
@@ -121,7 +121,7 @@ void TagList::Parse(const std::string& input)
 				(data.peek() >= 'A' && data.peek() <= 'Z') ||
 				(data.peek() >= 'a' && data.peek() <= 'z') ||
 				(data.peek() >= '0' && data.peek() <= '9') ||
-				(data.peek() == '_')
+				(data.peek() == '_' && !name.empty())
 			 ) {
 			name += (char)data.get();
 		}
-- 
2.43.0


From ef90c1bc86bda007a7abe4539b3e848ba190db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 22/23] fix: release the previous RSA key when a key record is
 parsed again

---
 src/PublicKey.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 243649f..1cea553 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -137,6 +137,7 @@ void PublicKey::Parse(const std::string& signature)
 				throw DKIM::PermanentError("Public key could not be loaded (key type must be RSA/RSA2)");
 			}
 
+			RSA_free(m_publicKeyRSA);
 			m_publicKeyRSA = EVP_PKEY_get1_RSA(publicKey);
 			EVP_PKEY_free(publicKey);
 		}
-- 
2.43.0


From 110fcaeb9d91d4c8833c02ba3b1896a7b78aae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:18 +0000
Subject: [PATCH 23/23] fix: accept the documented option --keytype

---
 tools/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index ff486be..d5f0e0c 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -77,6 +77,7 @@ int main(int argc, char* argv[])
 		{ "selector",	required_argument,	nullptr,		's'	},
 		{ "domain",		required_argument,	nullptr,		'd'	},
 		{ "keyfile",	required_argument,	nullptr,		'k'	},
+		{ "keytype",	required_argument,	nullptr,		'K'	},
 		{ "keyformat",	required_argument,	nullptr,		'K'	},
 		{ nullptr,			0,					nullptr,		0	}
 	};
-- 
2.43.0

